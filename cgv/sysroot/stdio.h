#ifndef CGV_STDIO_H
#define CGV_STDIO_H
#include <stddef.h>
typedef struct _IO_FILE FILE; extern FILE *stderr, *stdout, *stdin;
int fprintf(FILE *, const char *, ...); int sprintf(char *, const char *, ...); int snprintf(char *, size_t, const char *, ...); int printf(const char *, ...); int fputc(int, FILE *); int fputs(const char *, FILE *); int fflush(FILE *);
#endif
