#ifndef VF_STDDEF
#define VF_STDDEF
typedef unsigned long size_t; typedef long ptrdiff_t;
#define NULL ((void*)0)
#endif
