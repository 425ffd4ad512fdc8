#ifndef assert
#define assert(x) ((void)0)
#endif
