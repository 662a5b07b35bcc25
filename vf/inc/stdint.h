#ifndef VF_STDINT
#define VF_STDINT
typedef unsigned char uint8_t; typedef unsigned short uint16_t; typedef unsigned int uint32_t; typedef unsigned long uint64_t;
typedef signed char int8_t; typedef short int16_t; typedef int int32_t; typedef long int64_t;
typedef unsigned long uintptr_t; typedef long intptr_t;
#define UINT32_MAX 4294967295U
#define UINT64_MAX 18446744073709551615UL
#define SIZE_MAX 18446744073709551615UL
#define UINTPTR_MAX 18446744073709551615UL
#define INT64_MAX 9223372036854775807L
#define INT32_MAX 2147483647
#endif
