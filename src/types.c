// Widths, signedness and limits of the integer types and the constants of Types.h, as compiled in one configuration.
#ifdef TYPES_FALLBACK // a compiler that does not predefine the types
#undef __UINT8_TYPE__
#undef __UINT16_TYPE__
#undef __UINT32_TYPE__
#undef __UINT64_TYPE__
#undef __INT8_TYPE__
#undef __INT16_TYPE__
#undef __INT32_TYPE__
#undef __INT64_TYPE__
#undef __SIZE_TYPE__
#undef __PTRDIFF_TYPE__
#undef __UINTPTR_TYPE__
#undef __INTPTR_TYPE__
#undef __INT8_MAX__
#undef __INT16_MAX__
#undef __INT32_MAX__
#undef __INT64_MAX__
#undef __UINT8_MAX__
#undef __UINT16_MAX__
#undef __UINT32_MAX__
#undef __UINT64_MAX__
#endif
#include <Zycore/Types.h>
#ifndef TYPES_NAME
#define TYPES_NAME zyv_types
#endif
struct zyv_type { const char* name; unsigned width; int is_signed; unsigned long long min, max, has_limits; };
// the value range is found by conversion of -1 and by the sign of the result
#define T(t, sz) { #t, (unsigned)sizeof(t) * 8, (t)-1 < (t)0 ? 1 : 0, 0, 0, 0 }
#define L(t, lo, hi) { #t, (unsigned)sizeof(t) * 8, (t)-1 < (t)0 ? 1 : 0, (unsigned long long)(lo), (unsigned long long)(hi), 1 + ((hi) > 0) + 2 * ((lo) <= 0) }
const struct zyv_type TYPES_NAME[] = {
    L(ZyanU8, 0, ZYAN_UINT8_MAX), L(ZyanU16, 0, ZYAN_UINT16_MAX), L(ZyanU32, 0, ZYAN_UINT32_MAX), L(ZyanU64, 0, ZYAN_UINT64_MAX),
    L(ZyanI8, ZYAN_INT8_MIN, ZYAN_INT8_MAX), L(ZyanI16, ZYAN_INT16_MIN, ZYAN_INT16_MAX), L(ZyanI32, ZYAN_INT32_MIN, ZYAN_INT32_MAX), L(ZyanI64, ZYAN_INT64_MIN, ZYAN_INT64_MAX),
    T(ZyanUSize, 0), T(ZyanISize, 0), T(ZyanUPointer, 0), T(ZyanIPointer, 0), T(ZyanBool, 0), { 0, 0, 0, 0, 0, 0 } };
#ifndef TYPES_FALLBACK
#ifndef ZYAN_NO_LIBC
#include <Zycore/Status.h>
int zyv_consts(int k) { switch (k) { case 0: return ZYAN_TRUE; case 1: return ZYAN_FALSE; case 2: return ZYAN_TERNARY_TRUE; case 3: return ZYAN_TERNARY_UNKNOWN; case 4: return ZYAN_TERNARY_FALSE; case 5: return ZYAN_NULL == (void*)0; } return 99; }
#endif
#endif
