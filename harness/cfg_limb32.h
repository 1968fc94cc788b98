#include <mbedtls/config.h>
#undef MBEDTLS_HAVE_ASM
#define MBEDTLS_HAVE_INT32
