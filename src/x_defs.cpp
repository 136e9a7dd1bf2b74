// Explorer for C27: comparators, status codes, version, arithmetic helpers.
#include "zy.hpp"
using namespace mc;
#ifdef ZYV_TYPES
struct zyv_type { const char* name; unsigned width; int is_signed; unsigned long long min, max, has_limits; };
extern "C" { extern const zyv_type zyv_types[], zyv_types_nolibc[], zyv_types_fallback[]; int zyv_consts(int); }
#endif
struct Fld { uint8_t a; int8_t s8; uint16_t b; int16_t s16; uint32_t u; int32_t s32; uint64_t w; int64_t s64; };
#define GEN(n, ty, f) static ZYAN_DECLARE_EQUALITY_COMPARISON(ge_##n, ty) static ZYAN_DECLARE_COMPARISON(gc_##n, ty) \
    static ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(fe_##n, Fld, f) static ZYAN_DECLARE_COMPARISON_FOR_FIELD(fc_##n, Fld, f)
GEN(u8, ZyanU8, a) GEN(i8, ZyanI8, s8) GEN(u16, ZyanU16, b) GEN(i16, ZyanI16, s16) GEN(u32, ZyanU32, u) GEN(i32, ZyanI32, s32) GEN(u64, ZyanU64, w) GEN(i64, ZyanI64, s64)
static uint64_t NC; // results compared
static void flush(uint64_t operands) { count_outcomes(NC, operands); NC = 0; }
static int sgn(int x) { return (x > 0) - (x < 0); }
template<class T> static void pair(T x, T y, ZyanBool e, ZyanI32 c, const char* fn) {
    int want = x < y ? -1 : x > y ? 1 : 0; NC += 2; outcome((uint64_t)(uintptr_t)fn, (uint64_t)c << 1 | e);
    if ((bool)e != (x == y)) { text("%s(0x%llx,0x%llx) ", fn, (unsigned long long)x, (unsigned long long)y); fail("equality is %d", (int)e); }
    if (sgn(c) != want) { text("%s(0x%llx,0x%llx) ", fn, (unsigned long long)x, (unsigned long long)y); fail("comparison is %d, expected sign %d", (int)c, want); }
}
template<class T> static std::vector<T> edges() {
    std::vector<uint64_t> v; for (int b = 0; b < 64; b++) for (int64_t d = -2; d <= 2; d++) { v.push_back(((uint64_t)1 << b) + (uint64_t)d); v.push_back(~(((uint64_t)1 << b) + (uint64_t)d)); }
    for (uint64_t x : {0x0123456789ABCDEFull, 0xFEDCBA9876543210ull, 0x00000001FFFFFFFFull, 0xFFFFFFFF00000001ull, 0x8000000080000000ull, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull}) v.push_back(x);
    std::vector<T> o; for (uint64_t x : v) o.push_back((T)x); std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); return o;
}
#define PAIR(n, ty, f) { ty a = x, b = y; pair<ty>(x, y, ge_##n(&a, &b), gc_##n(&a, &b), "generated " #n); Fld p, r; memset(&p, 0xA5, sizeof p); memset(&r, 0x5A, sizeof r); p.f = x; r.f = y; pair<ty>(x, y, fe_##n(&p, &r), fc_##n(&p, &r), "field " #n); }
#define EDGE(n, ty, f, eqn, cmpn) task("edges " #n, [] { auto v = edges<ty>(); uint64_t k = 0; for (ty x : v) { beat(); for (ty y : v) { PAIR(n, ty, f) if (eqn && cmpn) { const ty a = x, b = y; pair<ty>(x, y, ((ZyanEqualityComparison)eqn)(&a, &b), ((ZyanComparison)cmpn)(&a, &b), "predefined " #n); } k++; } } flush(k); });
template<class T> static void arith(T x, T y) {
    NC += 2; T lo = x < y ? x : y, hi = x < y ? y : x;
    if (ZYAN_MIN(x, y) != lo || ZYAN_MAX(x, y) != hi) fail("minimum or maximum of %lld and %lld is wrong", (long long)x, (long long)y);
}
template<class T> static void align1(T x) {
    NC += sizeof(T) * 8 * (sizeof(T) >= 4 ? 3 : 1) + 34; outcome((uint64_t)x, sizeof(T));
    for (int b = 0; b < (int)sizeof(T) * 8; b++) {
        T al = (T)((T)1 << b); T rem = (T)(x % al); T dn = (T)(x - rem); T up = (T)(rem ? dn + al : x); bool ov = rem && up < x;
        if (sizeof(T) >= 4) {
            if ((T)ZYAN_ALIGN_DOWN(x, al) != dn) fail("0x%llx aligned down to 0x%llx is 0x%llx", (unsigned long long)x, (unsigned long long)al, (unsigned long long)ZYAN_ALIGN_DOWN(x, al));
            if (!ov && (T)ZYAN_ALIGN_UP(x, al) != up) fail("0x%llx aligned up to 0x%llx is 0x%llx", (unsigned long long)x, (unsigned long long)al, (unsigned long long)ZYAN_ALIGN_UP(x, al));
        }
        if ((bool)ZYAN_IS_ALIGNED_TO(x, al) != (rem == 0)) fail("alignment check of 0x%llx to 0x%llx is wrong", (unsigned long long)x, (unsigned long long)al);
    }
    bool p2 = x == 0; for (int b = 0; b < (int)sizeof(T) * 8; b++) p2 |= x == (T)((T)1 << b);
    if ((bool)ZYAN_IS_POWER_OF_2(x) != p2) fail("power-of-two check of 0x%llx is wrong", (unsigned long long)x);
    uint32_t n = (uint32_t)x; int bits = 0; for (uint32_t t = n; t; t >>= 1) bits++;
    if ((int)ZYAN_BITS_TO_REPRESENT(n) != bits) fail("bits to represent 0x%x is %d", n, (int)ZYAN_BITS_TO_REPRESENT(n));
    for (int b = 0; b < 32; b++) if ((bool)ZYAN_NEEDS_BIT(n, b) != ((n >> b) != 0)) fail("needs-bit %d of 0x%x is wrong", b, n);
}
static ZyanStatus chk(ZyanStatus s, int* evals) { ZYAN_CHECK(((*evals)++, s)); return 0x1234; }
static ZyanStatus chk_noelse(ZyanStatus s, bool c) { if (c) ZYAN_CHECK(s); else return 77; return 0x1234; }
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough;
        // 8 bit: all pairs; 16 bit: all values against all edge values (thorough: all pairs)
        task("all 8-bit pairs", [] { uint64_t k = 0; for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) {
            { ZyanU8 x = (ZyanU8)i, y = (ZyanU8)j; PAIR(u8, ZyanU8, a) pair<ZyanU8>(x, y, ZyanEqualsNumeric8(&x, &y), ZyanCompareNumeric8(&x, &y), "ZyanNumeric8"); pair<ZyanU8>(x, y, ZyanEqualsBool(&x, &y), ZyanCompareBool(&x, &y), "ZyanBool"); }
            { ZyanI8 x = (ZyanI8)i, y = (ZyanI8)j; PAIR(i8, ZyanI8, s8) arith(x, y); } k += 2; } flush(k); });
        for (int sh = 0; sh < 16; sh++) task("16-bit pairs " + std::to_string(sh), [=] { uint64_t k = 0; std::vector<ZyanU16> v = edges<ZyanU16>(); if (T) { v.clear(); for (int i = 0; i < 65536; i++) v.push_back((ZyanU16)i); }
            for (int i = sh; i < 65536; i += 16) { beat(); for (ZyanU16 j : v) { { ZyanU16 x = (ZyanU16)i, y = j; if (!T) PAIR(u16, ZyanU16, b) pair<ZyanU16>(x, y, ZyanEqualsNumeric16(&x, &y), ZyanCompareNumeric16(&x, &y), "ZyanNumeric16"); pair<ZyanU16>(y, x, ZyanEqualsNumeric16(&y, &x), ZyanCompareNumeric16(&y, &x), "ZyanNumeric16"); }
                if (!T) { ZyanI16 x = (ZyanI16)i, y = (ZyanI16)j; PAIR(i16, ZyanI16, s16) } k++; } } flush(k); });
        EDGE(u32, ZyanU32, u, ZyanEqualsNumeric32, ZyanCompareNumeric32) EDGE(i32, ZyanI32, s32, (ZyanEqualityComparison) nullptr, (ZyanComparison) nullptr)
        EDGE(u64, ZyanU64, w, ZyanEqualsNumeric64, ZyanCompareNumeric64) EDGE(i64, ZyanI64, s64, (ZyanEqualityComparison) nullptr, (ZyanComparison) nullptr)
        EDGE(u16, ZyanU16, b, ZyanEqualsNumeric16, ZyanCompareNumeric16)
        task("pointers", [] { auto v = edges<uint64_t>(); uint64_t k = 0; for (uint64_t x : v) { beat(); for (uint64_t y : v) { void* const a = (void*)(uintptr_t)x; void* const b = (void*)(uintptr_t)y; pair<uintptr_t>((uintptr_t)x, (uintptr_t)y, ZyanEqualsPointer(&a, &b), ZyanComparePointer(&a, &b), "ZyanPointer"); k++; } } flush(k); });
        // every 32-bit status value (thorough: all; quick: all modules x all codes with at most two zero or one bits + edges)
        for (int sh = 0; sh < 16; sh++) task("status values " + std::to_string(sh), [=] {
            uint64_t k = 0; auto one = [&](uint32_t s) {
                uint32_t e = s >> 31, m = (s >> 20) & 0x7FF, c = s & 0xFFFFF;
                if (ZYAN_MAKE_STATUS(e, m, c) != s || ZYAN_STATUS_MODULE(s) != m || ZYAN_STATUS_CODE(s) != c || (ZYAN_SUCCESS(s) ? 1u : 0u) != 1 - e || (ZYAN_FAILED(s) ? 1u : 0u) != e) { text("status 0x%08x ", s); fail("status construction and decomposition disagree"); }
                k++; NC += 5; if (!T) outcome(s); };
            if (T) { for (uint64_t s = (uint64_t)sh << 28; s < (uint64_t)(sh + 1) << 28; s++) { if (!(s & 0xFFFFF)) beat(); one((uint32_t)s); } }
            else { auto v = edges<uint32_t>(); for (uint32_t m = (uint32_t)sh; m < 4096; m += 16) { beat(); for (uint32_t c : v) one(m << 20 | (c & 0xFFFFF)); for (uint32_t c = 0; c < 0x100000; c += 257) one(m << 20 | c); } }
            flush(k); });
#ifdef ZYV_TYPES
        // the widths, signedness and limits of the integer types with and without the C library, and without types that the compiler predefines
        for (int cfg = 0; cfg < 3; cfg++) task("types " + std::to_string(cfg), [=] {
            static const struct { const char* n; unsigned w; bool s; } W[] = {{"ZyanU8", 8, 0}, {"ZyanU16", 16, 0}, {"ZyanU32", 32, 0}, {"ZyanU64", 64, 0}, {"ZyanI8", 8, 1}, {"ZyanI16", 16, 1}, {"ZyanI32", 32, 1}, {"ZyanI64", 64, 1}, {"ZyanUSize", 8 * sizeof(size_t), 0}, {"ZyanISize", 8 * sizeof(size_t), 1}, {"ZyanUPointer", 8 * sizeof(void*), 0}, {"ZyanIPointer", 8 * sizeof(void*), 1}, {"ZyanBool", 8, 0}};
            const zyv_type* t = cfg == 0 ? zyv_types : cfg == 1 ? zyv_types_nolibc : zyv_types_fallback; uint64_t k = 0;
            for (auto& w : W) { const zyv_type* x = t; while (x->name && strcmp(x->name, w.n)) x++; CHECK(x->name, "%s is missing", w.n); text_reset(); text("%s%s ", w.n, cfg == 0 ? "" : cfg == 1 ? " without the C library" : " without types that the compiler predefines"); NC += 4; k++; outcome(x->width, (uint64_t)k);
                if (!strcmp(w.n, "ZyanBool")) { CHECK(!x->is_signed || x->width >= 8, "cannot hold 0 and 1"); continue; } // any type that holds them
                CHECK(x->width == w.w && x->is_signed == (int)w.s, "%u bits, %s", x->width, x->is_signed ? "signed" : "unsigned");
                if (x->has_limits) { unsigned long long hi = w.s ? (1ull << (w.w - 1)) - 1 : ~0ull >> (64 - w.w), lo = w.s ? 0 - hi - 1 : 0; CHECK(x->min == lo && x->max == hi, "limits are %lld and %llu", (long long)x->min, x->max); } }
            if (!cfg) for (int i = 0; i < 6; i++) { static const int V[] = {1, 0, 1, 0, -1, 1}; CHECK(zyv_consts(i) == V[i], "constant %d is %d", i, zyv_consts(i)); NC++; k++; }
            flush(k); });
#endif
        task("status codes", [] {
            struct { const char* n; ZyanStatus s; bool err; } L[] = {
#define S(x, e) {#x, ZYAN_STATUS_##x, e}
                S(SUCCESS, false), S(FAILED, true), S(TRUE, false), S(FALSE, false), S(INVALID_ARGUMENT, true), S(INVALID_OPERATION, true), S(ACCESS_DENIED, true), S(NOT_FOUND, true), S(OUT_OF_RANGE, true),
                S(INSUFFICIENT_BUFFER_SIZE, true), S(NOT_ENOUGH_MEMORY, true), S(BAD_SYSTEMCALL, true), S(OUT_OF_RESOURCES, true), S(MISSING_DEPENDENCY, true), S(ARG_NOT_UNDERSTOOD, true), S(TOO_FEW_ARGS, true), S(TOO_MANY_ARGS, true), S(ARG_MISSES_VALUE, true), S(REQUIRED_ARG_MISSING, true)};
            size_t n = sizeof L / sizeof *L;
            for (size_t i = 0; i < n; i++) {
                text("%s=0x%08x ", L[i].n, L[i].s); NC += 4 + i; outcome(L[i].s);
                CHECK(!!ZYAN_FAILED(L[i].s) == L[i].err && !!ZYAN_SUCCESS(L[i].s) == !L[i].err, "the error flag of %s is wrong", L[i].n);
                CHECK(ZYAN_STATUS_MODULE(L[i].s) == (i < 14 ? ZYAN_MODULE_ZYCORE : ZYAN_MODULE_ARGPARSE) && ZYAN_STATUS_MODULE(L[i].s) < ZYAN_MODULE_USER, "the module of %s is wrong", L[i].n);
                for (size_t j = 0; j < i; j++) CHECK(L[i].s != L[j].s, "status codes %s and %s are equal", L[i].n, L[j].n);
                int ev = 0; ZyanStatus r = chk(L[i].s, &ev); CHECK(ev == 1 && r == (L[i].err ? L[i].s : 0x1234), "status check of %s returned 0x%08x after %d evaluations", L[i].n, r, ev);
                r = chk_noelse(L[i].s, true); CHECK(r == (L[i].err ? L[i].s : 0x1234) && chk_noelse(L[i].s, false) == 77, "status check is not a single statement");
            }
            flush(n);
        });
        task("versions", [] {
            auto v = edges<uint64_t>(); uint64_t k = 0;
            for (uint64_t x : v) { text_reset(); text("version 0x%llx ", (unsigned long long)x); NC += 4; outcome(x); CHECK(ZYCORE_VERSION_MAJOR(x) == x >> 48 && ZYCORE_VERSION_MINOR(x) == ((x >> 32) & 0xFFFF) && ZYCORE_VERSION_PATCH(x) == ((x >> 16) & 0xFFFF) && ZYCORE_VERSION_BUILD(x) == (x & 0xFFFF), "version parts are %x %x %x %x", ZYCORE_VERSION_MAJOR(x), ZYCORE_VERSION_MINOR(x), ZYCORE_VERSION_PATCH(x), ZYCORE_VERSION_BUILD(x)); k++; }
            for (int p = 0; p < 4; p++) for (uint64_t y = 0; y < 65536; y++) { uint64_t x = y << (16 * p); NC += 4; uint64_t z[4] = {ZYCORE_VERSION_BUILD(x), ZYCORE_VERSION_PATCH(x), ZYCORE_VERSION_MINOR(x), ZYCORE_VERSION_MAJOR(x)}; for (int q = 0; q < 4; q++) CHECK(z[q] == (q == p ? y : 0), "version part %d of 0x%llx is %llx", q, (unsigned long long)x, (unsigned long long)z[q]); k++; }
            CHECK(ZycoreGetVersion() == ZYCORE_VERSION, "the library reports version 0x%llx, its header 0x%llx", (unsigned long long)ZycoreGetVersion(), (unsigned long long)ZYCORE_VERSION);
            flush(k);
        });
        task("arithmetic", [] {
            uint64_t k = 0;
            { auto v = edges<int64_t>(); for (int64_t x : v) { beat(); for (int64_t y : v) { arith(x, y); k++; } if (x != INT64_MIN) CHECK(ZYAN_ABS(x) == (x < 0 ? 0 - x : x), "absolute value of %lld is wrong", (long long)x); if (x != INT64_MIN) CHECK(ZYAN_ABS(x + 0) == (x < 0 ? 0 - x : x), "absolute value of an expression is wrong"); } }
            { auto v = edges<uint64_t>(); for (uint64_t x : v) { beat(); text_reset(); text("value 0x%llx ", (unsigned long long)x); for (uint64_t y : v) { arith(x, y); k++; } align1<uint64_t>(x); k++;
                for (uint32_t d : {1u, 2u, 3u, 7u, 10u, 16u, 255u, 1000000007u, 4294967295u}) { uint64_t n = x; ZYAN_DIV64(n, d); CHECK(n == x / d, "64-bit division of 0x%llx by %u gave 0x%llx", (unsigned long long)x, d, (unsigned long long)n); } } }
            { auto v = edges<uint32_t>(); for (uint32_t x : v) { beat(); text_reset(); text("value 0x%x ", x); for (uint32_t y : v) { arith(x, y); k++; } align1<uint32_t>(x); } }
            for (uint32_t x = 0; x < 70000; x++) { if (!(x & 255)) beat(); text_reset(); text("value 0x%x ", x); align1<uint32_t>(x); if (x < 65536) align1<uint16_t>((uint16_t)x); if (x < 3000) for (int b = 0; b < 20; b++) { uint64_t al = 1ull << b, y = x + 1; CHECK(ZYAN_ALIGN_UP(y - 1, al) == (x + al - 1) / al * al && ZYAN_ALIGN_DOWN(x | 0u, al) == x / al * al && !!ZYAN_IS_ALIGNED_TO(x | 0, al) == (x % al == 0), "alignment of %u to %llu", x, (unsigned long long)al); } k++; }
            { struct { char c[3]; } arr[7]; int one[1]; char s[] = "hello"; CHECK(ZYAN_ARRAY_LENGTH(arr) == 7 && ZYAN_ARRAY_LENGTH(one) == 1 && ZYAN_ARRAY_LENGTH(s) == 6, "array length is wrong"); }
            { int a = 3, b = 5; CHECK(ZYAN_MIN(a | 4, b & 1) == 1 && ZYAN_MAX(a & 1, b | 2) == 7 && 2 * ZYAN_MAX(a, b) == 10 && ZYAN_ABS(a - b) == 2 && 10 - ZYAN_ABS(-a) == 7 && ZYAN_IS_POWER_OF_2(a + b) && ZYAN_ALIGN_UP(a + b, 4 * 4) == 16, "macro arguments or results are not protected"); }
            flush(k);
        });
    });
}
