#include <mbedtls/config.h>
#undef MBEDTLS_HAVE_ASM
