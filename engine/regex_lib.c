/* the regular expression engine of the working tree; memory and output go through the explorer */
#include "rec_sys.h"
#include "regexJIT.c"
