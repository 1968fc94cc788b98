#pragma once
#define ALLOC AUTO
#define AUTO 1
#define BN_PRECI 256
#define FP_PRIME 254
