#define ZYAN_NO_LIBC
#define TYPES_NAME zyv_types_nolibc
#include "types.c"
