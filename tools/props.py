import json
P=[]
def p(id,title,st,over,q,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech],**kw)))
I="include/"
p("C01","A run delivers exactly the requested audio, in order, in correct blocks",
"A run feeds the DSP exactly round(duration x sample rate) frames of the input signal, in order, with no frame lost, repeated or altered, in blocks of the configured size of which only the last may be shorter, with the requested channel counts. Every matcher is shown exactly the DSP's output, sample for sample: matchers that can work per block see it block by block, all others, and every reversed check, see it once as one whole signal.",
["inputs","configurations"],"every sample value, and every block size, duration, channel count and sample rate within the bounds",
"the tests use default block size, mono and whole-millisecond durations; the partial last block, 1-frame blocks and multi-channel layouts are sampled at best",
[I+"hart_process_audio.hpp",I+"hart_audio_buffer.hpp"],["block loop of the audio test builder's process()","full input/output buffers appended block by block","adding a check to the per-block or the full-signal group"])
p("C02","Everything is reset and prepared with the run's settings before audio flows",
"Before any audio is rendered, a run resets and prepares the DSP, the input signal, every DSP in the signal's chain and every matcher exactly once, passing the configured sample rate, channel counts and block size; the initial parameter values are then set on the DSP in the order given, after it was prepared. Settings can be given in any order: the last one of each kind counts, its shorthands for mono and stereo included, and those not given keep their defaults (44.1 kHz, blocks of 1024 frames, a tenth of a second, mono). Running again with the same objects reproduces the first run's output and verdicts exactly.",
["inputs","configurations","histories"],"every configuration and parameter list within the bounds; first and repeated runs",
"tests only look at rendered audio of stateless effects at one configuration, so a wrong argument, a missing reset or a wrong order is invisible to them",
[I+"hart_process_audio.hpp",I+"signals/hart_signal.hpp",I+"dsp/hart_dsp.hpp"],["preparation phase of process()","signal's prepare/reset with DSP chain","DSP's prepare with envelopes"])
p("C03","A check fails exactly when its matcher says so, and is reported once",
"For every output audio, a true-check fails if and only if its matcher rejects the audio (a per-block matcher: at least one block), and a reversed check fails if and only if its matcher accepts the whole signal. Every failing expectation leaves exactly one message in the failure list, however many other checks or blocks fail, a failing assertion ends the run with one test-failure exception, and passing checks leave nothing.",
["inputs","configurations"],"every output sample value; every list of up to 3 checks of any kind (expect/assert, true/false, per-block/full-signal) and every block size within the bounds",
"tests contain single passing checks; which of several checks fails in which block is an exponential space, and no test looks at a failing verdict",
[I+"hart_process_audio.hpp",I+"hart_expectation_failure_messages.hpp"],["evaluation of a group of checks","per-check skip flag","addition of a check with its level and polarity"])
p("C04","A failure report points at the offending sample",
"The report of a failed true-check states the kind of check, the test label if there is one, the condition, and the channel, frame (within the audio the matcher was shown), value and level in dB of the sample the matcher blames, the time of that sample from the start of the signal, and the matcher's description. A reversed check's report states kind, label and condition; numbers are printed with the configured number of decimals.",
["inputs","configurations"],"every sample value, failing position, block size, sample rate, label and decimals setting within the bounds",
"no test inspects a failure report; timestamps depend on block size, block index and position",
[I+"hart_process_audio.hpp",I+"hart_precision.hpp"],["composition of failure details","running frame offset of the block loop"])
p("C05","Impossible test settings are refused with the right error, before audio flows",
"A sample rate that is not a positive finite number (or that the DSP refuses), a zero block size, zero or more than 128 channels, a negative or non-finite duration, a run shorter than half a frame, a missing input signal, and a channel layout or sample rate that the DSP, the input signal or an effect in the signal's chain does not support are all refused with their dedicated exception, and no audio is processed. Every other setting is accepted.",
["inputs","configurations"],"every double as sample rate and duration, every 64-bit block size and channel count, every answer of the support queries",
"no test passes an illegal setting; NaN, infinities and unsupported layouts need specific values",
[I+"hart_process_audio.hpp",I+"signals/hart_signal.hpp",I+"dsp/hart_dsp.hpp",I+"matchers/hart_equalsto.hpp"],["builder setters","support queries before preparing"])
p("C06","Output audio and plots are saved exactly when the save mode says so",
"With mode always the output is saved, with mode never it is not, and with mode when-fails it is saved if and only if at least one check of the run failed, for the audio file and for the plot independently, also when the failing check is an assertion. The saved audio is the whole output of the run in the requested format and sample rate, at the requested path (relative paths are taken from the data root).",
["inputs","configurations"],"every save-mode combination, set of check outcomes and output sample within the bounds",
"tests never save; the when-fails path needs failing checks",
[I+"hart_process_audio.hpp",I+"hart_wavwriter.hpp",I+"hart_plot.hpp"],["saving at the end of process()"])
p("C07","Audio buffers behave as values",
"Creating (zero-filled), copying, moving, assigning, appending and clearing audio buffers keep channel count, frame count and every sample exactly as a plain two-dimensional array would, with no sharing between copies; a moved-from or cleared buffer is empty, keeps its channel count and stays usable. Assigning or appending a buffer with a different channel count is refused with a channel layout error and changes nothing.",
["inputs","histories"],"every sample value and every sequence of operations within the bounds",
"tests never exercise the buffer directly; the channel pointer table must stay in step through every sequence of operations",
[I+"hart_audio_buffer.hpp"],["channel pointer table rebuilt after each change","copy/move/append/clear"])
p("C08","Magnitude queries return the true peak of the requested range, or refuse it",
"For every channel, start frame and length, the magnitude of a buffer is the largest absolute sample value in that range (over all channels when none is given). A range that is empty or not entirely inside the buffer, or a channel that does not exist, is refused with an index error, for all argument values including the largest integers.",
["inputs"],"every non-NaN sample value, all 64-bit channel/start/length arguments",
"no test calls it directly; integer wrap-around and first/last-frame peaks are never sampled",
[I+"hart_audio_buffer.hpp"],["range check and maximum search of both magnitude functions"])
p("C09","Gain effects multiply every sample by the gain, on every layout they accept",
"With gain g (linear, or 10^(dB/20) and zero below -120 dB) every output sample of the gain effects is the input sample times g; equal channel counts map channel to channel, a mono input is copied to every output channel, and any other layout is refused. A value set through the parameter takes effect for the next block and is read back, an unknown parameter changes nothing, and processing in place gives the same result.",
["inputs","configurations"],"every sample value and gain, every channel layout and block length within the bounds, both gain effects, float and double",
"tests check one sine wave at two gains in one layout",
[I+"dsp/hart_gaindb.hpp",I+"dsp/hart_gainlinear.hpp"],["constant and enveloped processing, multi-channel and multiplexer modes","parameter setter/getter"])
p("C10","Hard clipping limits every sample to the threshold and leaves others alone",
"Every output sample of the hard clipper is the input sample if its magnitude is within the threshold 10^(dB/20), and otherwise plus or minus the threshold with the input's sign, on every channel and frame. Different input and output channel counts are refused, and the threshold parameter can be set and read back.",
["inputs","configurations"],"every non-NaN sample value, every threshold in dB, every layout and block length within the bounds",
"one test checks peaks of a sine wave",
[I+"dsp/hart_hardclip.hpp"],["per-sample min/max against the linear threshold"])
p("C11","Attached envelopes drive exactly their parameter, frame by frame",
"An effect with an envelope attached to a parameter it supports receives, for every frame of the run, that envelope's next value, one value per frame across block boundaries, prepared with the run's sample rate and for its blocks, restarted for every run, and no values for other parameters. The last envelope attached to a parameter wins, attaching to an unsupported parameter is refused, and copies of an effect carry independent copies of its envelopes; an effect copied, moved or assigned while running goes on from where its source was.",
["inputs","configurations","histories"],"every envelope value, block-size split, sample rate and sequence of attachments within the bounds",
"tests attach one envelope at 44.1 kHz and run it once",
[I+"dsp/hart_dsp.hpp",I+"signals/hart_signal.hpp",I+"hart_process_audio.hpp"],["envelope map and envelope buffers of an effect","preparing and processing with envelopes","copy and assignment of effects"])
p("C12","Segmented envelopes follow their segments",
"The value for frame n (from 0) is the curve at time (n+1)/sample rate: the start value moved through the segments, where a hold keeps the value, a ramp goes to its target in its duration along the chosen linear, exponential (between non-zero values of equal sign) or s-shaped curve without leaving the interval between its two end values, and after the last segment its final value stays. Segments may be shorter than a frame or have zero length. An envelope without segments stays at its start value.",
["inputs","configurations"],"every start and target value, and every list of up to 3 segments of every kind, duration and sample rate within the bounds",
"tests compare three recorded envelopes at one sample rate; zero-length segments, segments shorter than a frame and empty envelopes never occur",
[I+"envelopes/hart_segmentedenvelope.hpp"],["advance of time through the segment list","curve formulas"])
p("C13","Envelopes restart on reset, copy faithfully, and do not depend on block sizes",
"Rendering an envelope in any split into blocks gives the same values as rendering it in one block. After a reset it reproduces the values it gave when new, a copy taken at any point continues exactly like the original and independently of it, and segments added to a copy do not affect the original.",
["inputs","histories"],"every envelope value, every block split, every reset or copy point within the bounds",
"tests render each envelope once, front to back",
[I+"envelopes/hart_segmentedenvelope.hpp"],["reset of time, segment index and segment start value"])
p("C14","Signals do not depend on how rendering is split into blocks",
"For every signal (silence, sine, sweep, noise, wav file, looped or not), rendering N frames in any sequence of blocks yields exactly the samples of rendering them in one block. Every frame of every requested channel is written.",
["inputs","configurations"],"every parameter value and every split of up to N frames into blocks within the bounds",
"tests use one block size",
[I+"signals/hart_sinewave.hpp",I+"signals/hart_sine_sweep.hpp",I+"signals/hart_whitenoise.hpp",I+"signals/hart_wavfile.hpp",I+"signals/hart_silence.hpp"],["position/phase state carried between blocks"])
p("C15","Signals restart on reset and copy faithfully",
"After a reset at any point, every signal renders exactly what it rendered when new. A copy taken at any point renders exactly what the original renders from there on, and neither rendering nor resetting one affects the other; a moved signal continues like the original would have.",
["inputs","histories"],"every parameter value and every reset, copy or move point within the bounds",
"tests use each signal instance once; the host always copies and resets, so wrong state shows only in re-use",
[I+"signals/hart_signal.hpp",I+"signals/hart_sinewave.hpp",I+"signals/hart_sine_sweep.hpp",I+"signals/hart_whitenoise.hpp",I+"signals/hart_wavfile.hpp"],["reset() and copy() of each signal","copy/move of the DSP chain"])
p("C16","Sine waves have the requested frequency, phase and unit amplitude",
"Frame n of a sine wave is sin(phase + 2 pi n f / sample rate) within a small rounding tolerance, identical on all channels and within -1 and 1. Every phase is accepted, negative and large ones too, and non-positive frequencies are refused.",
["inputs","configurations"],"every phase within the bounds, every frequency and sample rate, channel counts within the bounds",
"tests use phase 0 and 1 kHz",
[I+"signals/hart_sinewave.hpp",I+"hart_utils.hpp"],["phase accumulation and wrapping"])
p("C17","Sine sweeps follow the frequency law for exactly their duration",
"A sweep's instantaneous frequency goes from the start to the end frequency over its duration, linearly or exponentially as requested, starting at the given phase, identical on all channels and within -1 and 1. Without looping exactly round(duration x sample rate) frames are produced, then silence; with looping the direction reverses after each pass; a zero (or shorter than half a frame) duration gives silence, and negative durations or non-positive frequencies are refused.",
["inputs","configurations"],"every phase, frequency pair and duration within the bounds, both sweep types, looped or not",
"no exact test of sweeps; the frame at which it stops and the reversed pass are never checked",
[I+"signals/hart_sine_sweep.hpp",I+"hart_utils.hpp"],["frame counter, direction flag and frequency law"])
p("C18","Wav file signals replay the file's samples exactly, once or in a loop",
"A wav file signal plays, on each channel, frame n of the file at frame n of the signal, then silence if it does not loop, or frame n modulo the file length if it does. A file that cannot be read is refused with an I/O error, and a channel count above the file's or a sample rate different from the file's is refused before rendering.",
["inputs","configurations"],"every sample value in the file, every file length, channel count, block split and loop mode within the bounds",
"tests read short mono references without looping",
[I+"signals/hart_wavfile.hpp"],["file position carried between blocks, wrap-around in loop mode"])
p("C19","White noise is deterministic per seed, bounded, and independent per sample",
"Two white noise signals with the same seed produce identical audio, for any split into blocks and after reset or copy; every sample lies between -1 and 1 and each frame of each channel takes the next values of the seed's sequence, never reusing one. Without an explicit seed the configured global seed is used.",
["inputs","configurations"],"every 32-bit seed, with the random engine's outputs left arbitrary; every split and channel count within the bounds",
"tests cannot enumerate seeds, and sample one",
[I+"signals/hart_whitenoise.hpp",I+"hart_cliconfig.hpp"],["random engine and distribution state"])
p("C20","A signal's effect chain is applied in order, to every block, with its own state",
"A signal with a chain of effects delivers the signal's samples processed by each effect in the order they were attached, whether attached by copy, by move or by pointer; the effects are prepared, reset and fed together with the signal. Copying a signal, even while it plays, copies its chain and the state of its effects and their envelopes: later changes to either do not affect the other; the chain's text form lists the signal and its effects in order.",
["inputs","configurations","histories"],"every sample value, every chain of up to 3 effects and every copy/attach order within the bounds",
"one test uses a chain with a single effect",
[I+"signals/hart_signal.hpp"],["chain vector, in-place processing, deep copy"])
p("C21","Equality matcher accepts audio exactly when every sample is within tolerance",
"The equality matcher accepts a block if and only if every sample of every channel is within the tolerance of (or equal to) the reference signal at the same position in the stream; a NaN on one side never passes. On a mismatch it reports the position of a sample that is out of tolerance, that position's expected value and the difference; after a reset it starts over at the reference's beginning.",
["inputs","configurations","histories"],"every observed and reference sample including NaN and infinities, every tolerance, every block split within the bounds",
"tests only have equal audio",
[I+"matchers/hart_equalsto.hpp"],["comparison loop against the rendered reference","failure position state"])
p("C22","Peak-level matcher accepts audio exactly when its peak is at the target",
"The peak-at matcher accepts the whole signal if and only if the largest absolute sample value over all channels and frames is within the tolerance of 10^(target dB/20); audio with a NaN never passes. On failure it reports the position of the largest sample and its level.",
["inputs","configurations"],"every sample value including NaN and infinities, every tolerance, targets and sizes within the bounds",
"tests have a few passing sine waves",
[I+"matchers/hart_peaksat.hpp"],["maximum search and tolerance test"])
p("C23","Peak-ceiling matcher accepts audio exactly when no sample exceeds the threshold",
"The peaks-below matcher accepts audio if and only if every sample of every channel is at most 10^(threshold dB/20) plus the tolerance in magnitude; audio with a NaN never passes. On failure it reports the position and level of a sample above the threshold.",
["inputs","configurations"],"every sample value including NaN and infinities, thresholds, tolerances and sizes within the bounds",
"tests have a few passing sine waves",
[I+"matchers/hart_peaksbelow.hpp"],["threshold comparison over all samples"])
p("C24","Conversion helpers agree with their definitions over their whole range",
"Decibel to ratio conversion gives 0 below -120 dB and otherwise 10^(dB/20), never negative and increasing at the ends of its range; ratio to decibel gives -120 below 1e-6 and otherwise 20 log10(ratio). Clamping returns the nearest value inside the interval, rounding to a frame count rounds to nearest, tolerance comparison is strict and complementary, wrapping a phase gives an angle in [0, 2 pi] that differs by whole turns.",
["inputs"],"every float and double argument (finite where stated)",
"no test covers the helpers; boundary values are single points",
[I+"hart_utils.hpp"],["piecewise definitions with limits at -120 dB and 1e-6"])
p("C25","Audio written to a wav file reads back within a quantisation step and a half",
"Writing any buffer and reading it back gives the same sample rate, channel count, frame count and, per sample, for the integer formats the value clipped to [-1, 1] within one and a half steps and for 32-bit float the value itself in single precision, with channels and frames in place (sample rates are whole numbers up to the 384 kHz the bundled wav reader accepts). Writing to an impossible path is refused with an I/O error, and no sample value can crash the writer.",
["inputs","configurations"],"every sample value, all four formats, sizes and sample rates within the bounds",
"tests read references made by other tools; NaN, out-of-range and multi-channel audio never get written",
[I+"hart_wavwriter.hpp",I+"hart_wavformat.hpp",I+"signals/hart_wavfile.hpp"],["scaling, clamping and rounding per format","interleaving"])
p("C26","The test runner runs every registered task once and tells the truth about it",
"A run executes every registered test exactly once, in registration order unless shuffling is on, and generators instead of tests if and only if asked; a task fails if and only if it throws a test failure or configuration error or leaves expectation failures, its messages are printed with its own report and never leak into another task's verdict. The printed totals and the exit code (0 if and only if nothing failed) agree with that; registering a duplicate name is refused.",
["inputs","configurations","histories"],"every combination of task outcomes for up to 4 tasks, generator/shuffle flags and shuffle permutation",
"the test program only ever runs its own passing tests",
[I+"hart_test_registry.hpp",I+"hart_expectation_failure_messages.hpp",I+"hart.hpp"],["task loop, failure collection, counters"])
p("C27","Command-line settings reach exactly what they configure",
"Each command-line option sets its own setting and no other: the data root, the random seed, the five decimal counts, generator mode and shuffling, with the documented defaults. Each number printed in reports and text forms uses the decimals configured for its unit (linear, dB, seconds, Hz, radians).",
["inputs","configurations"],"every value of every option within the bounds; all combinations of given and omitted options",
"tests run with one command line",
[I+"hart_cliconfig.hpp",I+"hart_precision.hpp"],["option table","precision manipulators"])
p("C28","Plots show every sample of input and output at its time",
"A saved plot has one line per channel of the input and of the output, each with one point per frame whose value is that sample and whose time is its frame number divided by the sample rate, starting at zero for every channel.",
["inputs","configurations"],"every sample value, channel count and frame count within the bounds",
"no test makes a plot",
[I+"hart_plot.hpp"],["time counter and line per channel"])
p("C29","Ownership: the host works on the right object and gives it back",
"A DSP handed over by pointer is itself processed and returned; one passed as a temporary is moved, one passed as a named object is copied and never modified. Input signals and matchers are copied when they are given to the builder, so later changes to the originals have no effect, and the returned DSP is in the state the run left it in and can be run again.",
["inputs","configurations","histories"],"every way of passing the DSP, every parameter value, runs repeated with the returned object",
"tests drop the returned object and never re-use an argument",
[I+"hart_process_audio.hpp",I+"dsp/hart_dsp.hpp"],["constructors of the test builder","copy()/move() of DSP, signal and matcher"])
p("C30","The no-exceptions configuration reports errors and skips the faulty operation",
"With exceptions disabled at compile time, each refused setting or operation prints its error and leaves the object as it was, and the call returns normally; everything that is not refused behaves exactly as in the default configuration.",
["inputs","configurations"],"the refused settings of the builder, buffers, envelopes and effects, with all argument values within the bounds",
"the test program is never built in that configuration",
[I+"hart_exceptions.hpp",I+"hart_process_audio.hpp",I+"hart_audio_buffer.hpp"],["throw-or-return macros and the state they guard"])
p("C31","Relative paths resolve against the data root, absolute ones stay as they are",
"A path is absolute if and only if it starts with a slash or backslash; absolute paths are used unchanged, and every other path becomes data root, slash, path. Reading wav files and saving audio and plots all use that resolution, and an empty save path saves nothing.",
["inputs","configurations"],"every path of up to 4 characters with arbitrary bytes, every data root within the bounds",
"tests use one data root",
[I+"hart_utils.hpp",I+"hart_process_audio.hpp",I+"signals/hart_wavfile.hpp"],["path classification and joining"])
p("C32","Text forms name each object with the settings it was built with",
"The text form of each effect, signal and matcher, which failure reports use to say what was checked, is its class name followed in order by the settings it was constructed with, whatever was changed or processed since: gain and threshold levels, frequency and phase, duration, sweep range, type and looping, seed, path, target, tolerance. A signal's chain of effects follows in order after it, and a matcher against a signal shows that signal with its chain.",
["inputs","histories"],"every constructor value within the bounds, after setting values, processing and reset",
"no test reads a text form",
[I+"dsp/hart_gaindb.hpp",I+"signals/hart_sine_sweep.hpp",I+"matchers/hart_equalsto.hpp",I+"signals/hart_signal.hpp"],["represent() of every class, representWithDSPChain()"])
p("C33","Unit literals denote the right number of base units",
"A literal with a unit denotes the same quantity in base units (seconds, decibels, hertz, radians), to within 1e-12 of its value: _s, _dB, _Hz and _rad leave the number as it is, _ms and _us divide it by a thousand and a million, _kHz multiplies by a thousand, _deg by pi/180, for whole and fractional literals of any size. The infinite level and the angle constants have their mathematical values.",
["inputs"],"every whole literal of 64 bits, every fractional literal with a 64-bit significand at the scales within the bounds",
"tests use a few round numbers",
[I+"hart_units.hpp",I+"hart_utils.hpp"],["literal operators and constants"])
p("C34","Test macros declare tasks and report exactly the checks that fail",
"A task declared with the test or generator macros runs once, in file order, in its own run mode, under its name. Within a task a false assertion or a fail macro ends it and a false expectation does not; each is reported exactly once, with its line and its condition or message; true ones report nothing. The data-path requirement fails the task, before anything after it runs, exactly when the data root is empty. The program's result is zero exactly when no task failed, and non-zero for a command line it does not understand, which runs nothing.",
["inputs","configurations"],"every combination of checks in a task and every symbolic value deciding them, with and without a data root, in both run modes, with and without exceptions",
"the tests never fail a check on purpose",
[I+"hart.hpp",I+"hart_test_registry.hpp",I+"hart_expectation_failure_messages.hpp"],["HART_TEST, HART_GENERATE, HART_ASSERT_TRUE, HART_EXPECT_TRUE, HART_FAIL_TEST, HART_REQUIRES_DATA_PATH_ARG, HART_RUN_ALL_TESTS"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
