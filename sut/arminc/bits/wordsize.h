#define __WORDSIZE 64
#define __WORDSIZE_TIME64_COMPAT32 0
