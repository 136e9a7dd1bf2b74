/* The library's atomic operations, made callable; compiled by every available compiler with
 * thread sanitizer instrumentation and FL as name prefix. */
#include <Zycore/Atomic.h>
#ifdef __cplusplus
extern "C" {
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define N(x) CAT(FL, x)
ZyanU64 N(_inc32)(ZyanU32* a) { return ZyanAtomicIncrement32((ZyanAtomic32*)a); }
ZyanU64 N(_dec32)(ZyanU32* a) { return ZyanAtomicDecrement32((ZyanAtomic32*)a); }
ZyanU64 N(_cas32)(ZyanU32* a, ZyanU64 c, ZyanU64 v) { return ZyanAtomicCompareExchange32((ZyanAtomic32*)a, (ZyanU32)c, (ZyanU32)v); }
ZyanU64 N(_inc64)(ZyanU64* a) { return ZyanAtomicIncrement64((ZyanAtomic64*)a); }
ZyanU64 N(_dec64)(ZyanU64* a) { return ZyanAtomicDecrement64((ZyanAtomic64*)a); }
ZyanU64 N(_cas64)(ZyanU64* a, ZyanU64 c, ZyanU64 v) { return ZyanAtomicCompareExchange64((ZyanAtomic64*)a, c, v); }
ZyanU64 N(_incp)(ZyanUPointer* a) { return ZyanAtomicIncrement((ZyanAtomicPointer*)a); }
ZyanU64 N(_decp)(ZyanUPointer* a) { return ZyanAtomicDecrement((ZyanAtomicPointer*)a); }
ZyanU64 N(_casp)(ZyanUPointer* a, ZyanU64 c, ZyanU64 v) { return ZyanAtomicCompareExchange((ZyanAtomicPointer*)a, c, v); }
/* the macros, on plain variables */
ZyanU64 N(_minc32)(ZyanU32* a) { ZyanU32 r; r = ZYAN_ATOMIC_INCREMENT32(*a); return r; }
ZyanU64 N(_mdec32)(ZyanU32* a) { ZyanU32 r; r = ZYAN_ATOMIC_DECREMENT32(*a); return r; }
ZyanU64 N(_mcas32)(ZyanU32* a, ZyanU64 c, ZyanU64 v) { return ZYAN_ATOMIC_COMPARE_EXCHANGE32(*a, (ZyanU32)c, (ZyanU32)v); }
ZyanU64 N(_minc64)(ZyanU64* a) { ZyanU64 r; r = ZYAN_ATOMIC_INCREMENT64(*a); return r; }
ZyanU64 N(_mdec64)(ZyanU64* a) { ZyanU64 r; r = ZYAN_ATOMIC_DECREMENT64(*a); return r; }
ZyanU64 N(_mcas64)(ZyanU64* a, ZyanU64 c, ZyanU64 v) { return ZYAN_ATOMIC_COMPARE_EXCHANGE64(*a, c, v); }
ZyanU64 N(_mincp)(ZyanUPointer* a) { ZyanUPointer r; r = ZYAN_ATOMIC_INCREMENT(*a); return r; }
ZyanU64 N(_mdecp)(ZyanUPointer* a) { ZyanUPointer r; r = ZYAN_ATOMIC_DECREMENT(*a); return r; }
ZyanU64 N(_mcasp)(ZyanUPointer* a, ZyanU64 c, ZyanU64 v) { return ZYAN_ATOMIC_COMPARE_EXCHANGE(*a, c, v); }
#ifdef __cplusplus
}
#endif
