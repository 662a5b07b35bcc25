#ifndef VF_STRING
#define VF_STRING
#include <stddef.h>
void *memset(void *p, int c, size_t n); void *memcpy(void *d, const void *s, size_t n); void *memmove(void *d, const void *s, size_t n);
size_t strlen(const char*s); int memcmp(const void*a,const void*b,size_t n);
#endif
