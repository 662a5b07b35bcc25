#ifndef VF_STDLIB
#define VF_STDLIB
#include <stddef.h>
void *malloc(size_t n); void *calloc(size_t n, size_t s); void *realloc(void*p, size_t n); void free(void *p); void abort(void);
#endif
