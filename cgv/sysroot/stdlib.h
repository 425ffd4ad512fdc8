#ifndef CGV_STDLIB_H
#define CGV_STDLIB_H
#include <stddef.h>
void *malloc(size_t); void free(void *); void *calloc(size_t, size_t); int abs(int); void abort(void); void exit(int); int atoi(const char *);
#endif
