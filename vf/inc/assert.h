#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
#define assert(x) __vf_assert(x)
#endif
#ifndef VF_ASSERT
#define VF_ASSERT
void __vf_assert(int);
#endif
