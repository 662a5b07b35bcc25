#ifndef VF_LIMITS
#define VF_LIMITS
#define CHAR_BIT 8
#define INT_MAX 2147483647
#define UINT_MAX 4294967295U
#define LONG_MAX 9223372036854775807L
#define ULONG_MAX 18446744073709551615UL
#endif
