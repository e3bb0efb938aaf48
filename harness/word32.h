/* Included before every source of the "ref32" build: the word size of a 32-bit
   platform for the code that looks at __WORDSIZE.  The headers that define it go
   first, so that they do not define it again. */
#include <sys/cdefs.h>
#include <sys/types.h>
#include <stdint.h>
#include <stddef.h>
#include <inttypes.h>
#include <limits.h>
#include <time.h>
#undef __WORDSIZE
#define __WORDSIZE 32
