// dr_wav (third-party, vendored by the repository) as HART uses it
#define DR_WAV_IMPLEMENTATION
#include "dr_wav.h"
