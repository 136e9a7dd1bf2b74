#define ZYAN_NO_LIBC
#define TYPES_FALLBACK
#define TYPES_NAME zyv_types_fallback
#include "types.c"
