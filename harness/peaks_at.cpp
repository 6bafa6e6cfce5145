// BOUND: audio of 1..2 (thorough 3) frames x 1..2 channels, every sample symbolic (four samples: targets -6 and -120 dB only in the quick tier) (NaN and infinities included); target / threshold one of -inf, -120.5, -120, -6, 0, 12 dB (thorough also -200, -119.5, -0.25, 20, 60); tolerance symbolic or default; audio of up to 700 frames or 70 channels with one symbolic sample; two blocks in a row (up to two samples); original, copied and moved matcher; directly and in the host; decimals 0..9; float and double
// ASSUME: log10 uninterpreted (equal arguments, equal values) for printed levels; verdicts within 1e-6 (relative) of the limit itself are not specified
#define PEAKS_AT true
#include "peaks.hpp"
