#ifndef VF_STDBOOL
#define VF_STDBOOL
#define bool _Bool
#define true 1
#define false 0
#endif
