// Explorer for C28: operations on unrelated objects in different threads. Every program is run
// alone and all its accesses to memory outside its own objects, storage and stack are recorded.
// Two programs none of which writes what the other one accesses commute: all their schedules are
// equivalent to running them one after the other. For every pair that does not commute the
// schedules are enumerated over the conflicting accesses and the results compared with those of
// the programs running alone.
#include "sched.hpp"
#include "st.hpp"
#include <map>
#include <unordered_map>
#include <Zycore/Zycore.h>
#include <Zycore/Allocator.h>
#include <Zycore/Vector.h>
#include <Zycore/String.h>
#include <Zycore/Bitset.h>
#include <Zycore/List.h>
#include <Zycore/Format.h>
#include <Zycore/ArgParse.h>
using namespace mc;

// ---- memory of the threads ---------------------------------------------------------------------
static const size_t AREA = 1 << 20;
struct Arena { uint8_t* base = nullptr; size_t used = 0; uint64_t live = 0; };
static Arena g_ar[4];
static Arena& arena() { return g_ar[sc::me ? sc::me->id : 3]; }
extern "C" {
void* zyv_malloc(size_t n) {
    Arena& a = arena(); size_t k = (n + 31) & ~(size_t)15; if (n > AREA || a.used + k > AREA) return nullptr;
    uint8_t* p = a.base + a.used; a.used += k; *(size_t*)p = n; memset(p + 16, 0xCD, k - 16); a.live++; return p + 16;
}
void* zyv_calloc(size_t a, size_t b) { if (b && a > AREA / b) return nullptr; void* p = zyv_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void zyv_free(void* p) { if (!p) return; size_t n = ((size_t*)p)[-2]; if (n == ~(size_t)0) fail("double release of a block"); memset(p, 0xDD, n); ((size_t*)p)[-2] = ~(size_t)0; arena().live--; }
void* zyv_realloc(void* p, size_t n) { if (!p) return zyv_malloc(n); if (!n) { zyv_free(p); return nullptr; } size_t o = ((size_t*)p)[-2]; if (o == ~(size_t)0) fail("reallocation of a released block"); void* q = zyv_malloc(n); if (!q) return nullptr; memcpy(q, p, std::min(n, o)); zyv_free(p); return q; }
}
// ---- accesses ----------------------------------------------------------------------------------
struct Use { uint8_t r = 0, w = 0; }; // bit per thread
static std::unordered_map<uintptr_t, Use> g_use;             // by 8-byte granule
static std::map<uintptr_t, uint64_t> g_undo;                // contents before the first write
static std::unordered_set<uintptr_t> g_conf;                // granules that are accessed in conflict
static bool g_points;
static uint64_t g_acc; // memory accesses
static bool own(const volatile void* p) { Arena& a = arena(); return sc::own_stack(p) || ((uint8_t*)p >= a.base && (uint8_t*)p < a.base + AREA); }
static bool in_arena(uintptr_t p) { for (auto& a : g_ar) if (p >= (uintptr_t)a.base && p < (uintptr_t)a.base + AREA) return true; return false; }
static void onacc(const volatile void* p, size_t n, bool w) {
    if (sc::own_stack(p) || !n) return;
    g_acc++;
    uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n - 1) >> 3; bool hit = false, mine = own(p);
    if (mine && !g_points) return;
    if (g_points) { for (uintptr_t x = a; x <= e; x++) hit |= g_conf.count(x) > 0; if (hit) sc::point(); }
    uint8_t b = (uint8_t)(1 << sc::me->id);
    for (uintptr_t x = a; x <= e; x++) {
        Use& u = g_use[x]; if (w) u.w |= b; else u.r |= b;
        if (w && !in_arena(x << 3)) g_undo.emplace(x, *(uint64_t*)(x << 3));
    }
}
// C library functions the library may use, with the memory they touch made visible
extern "C" {
static void rd(const void* p, size_t n) { sc::acc(p, n, false); }
static void wr(void* p, size_t n) { sc::acc(p, n, true); }
static uint64_t g_libc_state; // stands for the hidden state of the C library
void* zyv_memcpy(void* d, const void* s, size_t n) { rd(s, n); wr(d, n); return memcpy(d, s, n); }
void* zyv_memmove(void* d, const void* s, size_t n) { rd(s, n); wr(d, n); return memmove(d, s, n); }
void* zyv_memset(void* d, int c, size_t n) { wr(d, n); return memset(d, c, n); }
int zyv_memcmp(const void* a, const void* b, size_t n) { rd(a, n); rd(b, n); return memcmp(a, b, n); }
int zyv_bcmp(const void* a, const void* b, size_t n) { rd(a, n); rd(b, n); return memcmp(a, b, n); }
void* zyv_memchr(const void* a, int c, size_t n) { rd(a, n); return (void*)memchr(a, c, n); }
size_t zyv_strlen(const char* s) { size_t n = strlen(s); rd(s, n + 1); return n; }
size_t zyv_strnlen(const char* s, size_t m) { size_t n = strnlen(s, m); rd(s, n); return n; }
int zyv_strcmp(const char* a, const char* b) { rd(a, strlen(a) + 1); rd(b, strlen(b) + 1); return strcmp(a, b); }
int zyv_strncmp(const char* a, const char* b, size_t n) { rd(a, strnlen(a, n)); rd(b, strnlen(b, n)); return strncmp(a, b, n); }
char* zyv_strchr(const char* a, int c) { rd(a, strlen(a) + 1); return (char*)strchr(a, c); }
char* zyv_strrchr(const char* a, int c) { rd(a, strlen(a) + 1); return (char*)strrchr(a, c); }
char* zyv_strstr(const char* a, const char* b) { rd(a, strlen(a) + 1); rd(b, strlen(b) + 1); return (char*)strstr(a, b); }
char* zyv_strcpy(char* d, const char* s) { rd(s, strlen(s) + 1); wr(d, strlen(s) + 1); return strcpy(d, s); }
char* zyv_strncpy(char* d, const char* s, size_t n) { rd(s, strnlen(s, n)); wr(d, n); return strncpy(d, s, n); }
char* zyv_strcat(char* d, const char* s) { rd(s, strlen(s) + 1); wr(d + strlen(d), strlen(s) + 1); return strcat(d, s); }
int zyv_vsnprintf(char* d, size_t n, const char* f, va_list a) { rd(f, strlen(f) + 1); va_list b; va_copy(b, a); int k = vsnprintf(nullptr, 0, f, b); va_end(b); if (n && k >= 0) wr(d, std::min(n, (size_t)k + 1)); return vsnprintf(d, n, f, a); }
int zyv_snprintf(char* d, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = zyv_vsnprintf(d, n, f, a); va_end(a); return r; }
int zyv_vsprintf(char* d, const char* f, va_list a) { return zyv_vsnprintf(d, (size_t)INT32_MAX, f, a); }
int zyv_sprintf(char* d, const char* f, ...) { va_list a; va_start(a, f); int r = zyv_vsprintf(d, f, a); va_end(a); return r; }
char* zyv_strtok(char* s, const char* d) { if (!s) rd(&g_libc_state, 8); wr(&g_libc_state, 8); return strtok(s, d); }
int zyv_rand() { wr(&g_libc_state, 8); return rand(); }
}
// ---- programs ----------------------------------------------------------------------------------
struct Ctx { // everything a thread owns; results are recorded in order
    std::vector<uint64_t> log; std::string* names = nullptr;
    ZyanVector v; ZyanString s; ZyanBitset b, b2; ZyanList l; char buf[512]; const char* et; 
    void r(uint64_t x) { log.push_back(x); }
    void bytes(const void* p, size_t n) { Hash h; h.bytes(p, n); h.u64(n); r(h.key().a); }
};
typedef std::function<void(Ctx&)> Fn;
struct OpF { const char* name; Fn f; };
struct Module { const char* name; std::vector<std::pair<const char*, Fn>> init; std::vector<OpF> ops; Fn obs, fini; };
static const ZyanStringView& sv(const char* z) { static std::map<std::string, ZyanStringView> m; auto i = m.find(z); if (i == m.end()) { if (sc::me) fail("internal: missing input"); i = m.emplace(z, ZyanStringView()).first; ZyanStringViewInsideBuffer(&i->second, i->first.c_str()); } return i->second; }
static ZyanI32 cmp32(const void* a, const void* b) { uint32_t x = *(const uint32_t*)a, y = *(const uint32_t*)b; return x < y ? -1 : x > y; }
static ZyanBool eq32(const void* a, const void* b) { return *(const uint32_t*)a == *(const uint32_t*)b; }
static ZyanStatus ctor32(void* p) { *(uint32_t*)p = 0x77; return ZYAN_STATUS_SUCCESS; }
static void dtor32(void* p) { *(uint32_t*)p ^= 0xffff; }
static const uint32_t U[4] = {7, 9, 5, 7};
static const std::vector<Module>& modules() {
    static std::vector<Module> M;
    if (!M.empty()) return M;
    for (auto z : {"aBa", "xY", "hElLo", "hello", "QQ", "abcd", "a", "Ba", "LL", "aba", "ABA", "tail", "head", "n", "0x", "p"}) sv(z); // shared inputs exist beforehand
    auto st = [](Ctx& c, ZyanStatus s) { c.r(s); };
#define O(n, ...) {n, [=](Ctx& c) { (void)c; __VA_ARGS__; }}
    { Module m; m.name = "vector";
      m.init = {{"", [=](Ctx& c) { st(c, ZyanVectorInit(&c.v, 4, 0, nullptr)); }}, {"shared allocator, destructor", [=](Ctx& c) { st(c, ZyanVectorInitEx(&c.v, 4, 2, dtor32, ZyanAllocatorDefault(), 3, 1)); }}, {"buffer", [=](Ctx& c) { st(c, ZyanVectorInitCustomBuffer(&c.v, 4, c.buf, 6, dtor32)); }}};
      m.ops = {O("push", st(c, ZyanVectorPushBack(&c.v, &U[0])); st(c, ZyanVectorPushBack(&c.v, &U[1]))), O("insert", st(c, ZyanVectorInsert(&c.v, 0, &U[2]))), O("insert-range", st(c, ZyanVectorInsertRange(&c.v, 0, U, 3))), O("emplace", void* p = nullptr; st(c, ZyanVectorEmplace(&c.v, &p, ctor32))), O("emplace-ex", void* p = nullptr; st(c, ZyanVectorEmplaceEx(&c.v, 0, &p, ctor32))),
               O("resize 5", st(c, ZyanVectorResizeEx(&c.v, 5, &U[1]))), O("resize 1", ZyanUSize n = c.v.size; st(c, ZyanVectorResize(&c.v, 1)); if (!n) st(c, ZyanVectorSet(&c.v, 0, &U[3]))), O("reserve 9", st(c, ZyanVectorReserve(&c.v, 9))), O("shrink", st(c, ZyanVectorShrinkToFit(&c.v))), O("delete", st(c, ZyanVectorDelete(&c.v, 0))), O("delete-range", st(c, ZyanVectorDeleteRange(&c.v, 0, 2))), O("pop", st(c, ZyanVectorPopBack(&c.v))), O("clear", st(c, ZyanVectorClear(&c.v))), O("swap", st(c, ZyanVectorReserve(&c.v, 20)); st(c, ZyanVectorSwapElements(&c.v, 0, 1))), O("set", st(c, ZyanVectorSet(&c.v, 0, &U[1]))),
               O("find", ZyanISize i = -3; st(c, ZyanVectorFind(&c.v, &U[1], &i, eq32)); c.r((uint64_t)i)), O("search", ZyanUSize i = 99; st(c, ZyanVectorBinarySearch(&c.v, &U[0], &i, cmp32)); c.r(i)), O("duplicate", ZyanVector d; ZyanStatus s = ZyanVectorDuplicate(&d, &c.v, 3); st(c, s); if (ZYAN_SUCCESS(s)) { for (ZyanUSize i = 0; i < d.size; i++) c.r(*(uint32_t*)ZyanVectorGet(&d, i)); st(c, ZyanVectorDestroy(&d)); }),
               O("duplicate-buffer", ZyanVector d; uint32_t x[8]; ZyanStatus s = ZyanVectorDuplicateCustomBuffer(&d, &c.v, x, 8); st(c, s); if (ZYAN_SUCCESS(s)) { c.bytes(x, 4 * c.v.size); st(c, ZyanVectorDestroy(&d)); }), O("get", const void* p = nullptr; st(c, ZyanVectorGetPointer(&c.v, 0, &p)); void* q = nullptr; st(c, ZyanVectorGetPointerMutable(&c.v, 0, &q)); c.r(p == q); c.r(ZyanVectorGetMutable(&c.v, 9) != nullptr))};
      m.obs = [=](Ctx& c) { ZyanUSize n = 0, k = 0; st(c, ZyanVectorGetSize(&c.v, &n)); st(c, ZyanVectorGetCapacity(&c.v, &k)); c.r(n); c.r(k); for (ZyanUSize i = 0; i < n; i++) { const uint32_t* p = (const uint32_t*)ZyanVectorGet(&c.v, i); c.r(p ? *p : ~0u); } };
      m.fini = [=](Ctx& c) { st(c, ZyanVectorDestroy(&c.v)); }; M.push_back(m); }
    { Module m; m.name = "string";
      m.init = {{"", [=](Ctx& c) { st(c, ZyanStringInit(&c.s, 0)); st(c, ZyanStringAppend(&c.s, &sv("aBa"))); }}, {"shared allocator", [=](Ctx& c) { st(c, ZyanStringInitEx(&c.s, 3, ZyanAllocatorDefault(), 1, 1)); }}, {"buffer", [=](Ctx& c) { st(c, ZyanStringInitCustomBuffer(&c.s, c.buf, 60)); st(c, ZyanStringAppend(&c.s, &sv("xY"))); }}};
      m.ops = {O("append", st(c, ZyanStringAppend(&c.s, &sv("hElLo")))), O("append-ex", st(c, ZyanStringAppendEx(&c.s, &sv("hello"), 1, 3))), O("insert", st(c, ZyanStringInsert(&c.s, 1, &sv("QQ")))), O("insert-ex", st(c, ZyanStringInsertEx(&c.s, 0, &sv("abcd"), 1, 2))), O("delete", st(c, ZyanStringDelete(&c.s, 0, 2))), O("truncate", st(c, ZyanStringTruncate(&c.s, 1))), O("clear", st(c, ZyanStringClear(&c.s))), O("lower", st(c, ZyanStringToLowerCase(&c.s))), O("upper-ex", st(c, ZyanStringToUpperCaseEx(&c.s, 0, 1))), O("resize", st(c, ZyanStringResize(&c.s, 6)); st(c, ZyanStringSetChar(&c.s, 5, 'z')); for (size_t i = 0; i < 6; i++) st(c, ZyanStringSetChar(&c.s, i, 'r'))), O("reserve", st(c, ZyanStringReserve(&c.s, 50))), O("shrink", st(c, ZyanStringShrinkToFit(&c.s))),
               O("pos", for (auto z : {"a", "Ba", "LL"}) { ZyanISize i = -5; st(c, ZyanStringLPos(ZYAN_STRING_TO_VIEW(&c.s), &sv(z), &i)); c.r((uint64_t)i); st(c, ZyanStringLPosI(ZYAN_STRING_TO_VIEW(&c.s), &sv(z), &i)); c.r((uint64_t)i); st(c, ZyanStringRPos(ZYAN_STRING_TO_VIEW(&c.s), &sv(z), &i)); c.r((uint64_t)i); st(c, ZyanStringRPosI(ZYAN_STRING_TO_VIEW(&c.s), &sv(z), &i)); c.r((uint64_t)i); }),
               O("compare", for (auto z : {"aba", "ABA", "hello"}) { ZyanI32 i = 9; st(c, ZyanStringCompare(ZYAN_STRING_TO_VIEW(&c.s), &sv(z), &i)); c.r((uint64_t)i); st(c, ZyanStringCompareI(ZYAN_STRING_TO_VIEW(&c.s), &sv(z), &i)); c.r((uint64_t)i); }),
               O("duplicate", ZyanString d; ZyanStatus s = ZyanStringDuplicate(&d, ZYAN_STRING_TO_VIEW(&c.s), 2); st(c, s); if (ZYAN_SUCCESS(s)) { const char* p = nullptr; ZyanUSize n = 0; ZyanStringGetData(&d, &p); ZyanStringGetSize(&d, &n); c.bytes(p, n + 1); st(c, ZyanStringDestroy(&d)); }),
               O("concat", ZyanString d; ZyanStatus s = ZyanStringConcat(&d, ZYAN_STRING_TO_VIEW(&c.s), &sv("tail"), 1); st(c, s); if (ZYAN_SUCCESS(s)) { const char* p = nullptr; ZyanUSize n = 0; ZyanStringGetData(&d, &p); ZyanStringGetSize(&d, &n); c.bytes(p, n + 1); st(c, ZyanStringDestroy(&d)); }),
               O("concat-buffer", char x[40]; ZyanString d; ZyanStatus s = ZyanStringConcatCustomBuffer(&d, &sv("head"), &sv("tail"), x, 40); st(c, s); c.bytes(x, 9); if (ZYAN_SUCCESS(s)) st(c, ZyanStringDestroy(&d))),
               O("view", ZyanStringView w; ZyanStatus s = ZyanStringViewInsideViewEx(&w, ZYAN_STRING_TO_VIEW(&c.s), 1, 1); st(c, s); if (ZYAN_SUCCESS(s)) { const char* p; ZyanStringViewGetData(&w, &p); c.bytes(p, 1); } char x = 0; st(c, ZyanStringGetChar(ZYAN_STRING_TO_VIEW(&c.s), 0, &x)); c.r((uint64_t)x); char* y = nullptr; st(c, ZyanStringGetCharMutable(&c.s, 0, &y))),
               O("decimal", st(c, ZyanStringAppendDecU(&c.s, 1234567890123ull, 0)); st(c, ZyanStringAppendDecS(&c.s, -42, 5, ZYAN_TRUE, &sv("n")))), O("decimal 32", st(c, ZyanStringAppendDecU(&c.s, 98, 6)); st(c, ZyanStringAppendDecS(&c.s, 7, 1, ZYAN_TRUE, nullptr))), O("hex", st(c, ZyanStringAppendHexU(&c.s, 0xDEADBEEFCAFEull, 3, ZYAN_TRUE)); st(c, ZyanStringAppendHexS(&c.s, -0x1f, 0, ZYAN_FALSE, ZYAN_TRUE, &sv("0x")))), O("hex 32", st(c, ZyanStringAppendHexU(&c.s, 0xab, 9, ZYAN_FALSE)); st(c, ZyanStringAppendHexS(&c.s, 0x7f, 0, ZYAN_TRUE, ZYAN_FALSE, nullptr))),
               O("format", st(c, ZyanStringAppendFormat(&c.s, "<%d|%s|%05x>", 42, "arg", 0xbeu))), O("format long", st(c, ZyanStringAppendFormat(&c.s, "%60s%c", "wide", 'q'))), O("format empty", st(c, ZyanStringAppendFormat(&c.s, "%s", "")))};
      m.obs = [=](Ctx& c) { ZyanUSize n = 0, k = 0; const char* p = nullptr; st(c, ZyanStringGetSize(&c.s, &n)); st(c, ZyanStringGetCapacity(&c.s, &k)); st(c, ZyanStringGetData(&c.s, &p)); c.r(n); c.r(k); if (p) c.bytes(p, n + 1); };
      m.fini = [=](Ctx& c) { st(c, ZyanStringDestroy(&c.s)); }; M.push_back(m); }
    { Module m; m.name = "bitset";
      m.init = {{"", [=](Ctx& c) { st(c, ZyanBitsetInit(&c.b, 11)); st(c, ZyanBitsetInit(&c.b2, 11)); for (int i = 0; i < 11; i += 3) st(c, ZyanBitsetSet(&c.b2, (ZyanUSize)i)); }}, {"shared allocator", [=](Ctx& c) { st(c, ZyanBitsetInitEx(&c.b, 0, ZyanAllocatorDefault(), 1, 1)); st(c, ZyanBitsetInit(&c.b2, 8)); }}, {"buffer", [=](Ctx& c) { st(c, ZyanBitsetInitBuffer(&c.b, 9, c.buf, 8)); st(c, ZyanBitsetInitBuffer(&c.b2, 17, c.buf + 100, 8)); st(c, ZyanBitsetSetAll(&c.b2)); }}};
      m.ops = {O("set", st(c, ZyanBitsetSet(&c.b, 0)); st(c, ZyanBitsetSet(&c.b, 8))), O("reset", st(c, ZyanBitsetReset(&c.b, 0))), O("assign", st(c, ZyanBitsetAssign(&c.b, 2, ZYAN_TRUE))), O("toggle", st(c, ZyanBitsetToggle(&c.b, 1))), O("set-all", st(c, ZyanBitsetSetAll(&c.b))), O("reset-all", st(c, ZyanBitsetResetAll(&c.b))), O("flip", st(c, ZyanBitsetFlip(&c.b))), O("push", st(c, ZyanBitsetPush(&c.b, ZYAN_TRUE)); for (int i = 0; i < 7; i++) st(c, ZyanBitsetPush(&c.b, i & 1))), O("pop", st(c, ZyanBitsetPop(&c.b))), O("clear", st(c, ZyanBitsetClear(&c.b))), O("and", st(c, ZyanBitsetAND(&c.b, &c.b2))), O("or", st(c, ZyanBitsetOR(&c.b, &c.b2))), O("xor", st(c, ZyanBitsetXOR(&c.b, &c.b2))), O("byte-operation", st(c, ZyanBitsetPerformByteOperation(&c.b, &c.b2, [](ZyanU8* a, const ZyanU8* b) -> ZyanStatus { *a = (ZyanU8)(*a ^ *b); return ZYAN_STATUS_SUCCESS; }))), O("reserve", st(c, ZyanBitsetReserve(&c.b, 40))), O("shrink", st(c, ZyanBitsetShrinkToFit(&c.b)))};
      m.obs = [=](Ctx& c) { ZyanUSize n = 0, k = 0; st(c, ZyanBitsetGetSize(&c.b, &n)); c.r(n); st(c, ZyanBitsetGetCapacity(&c.b, &k)); c.r(k); st(c, ZyanBitsetGetSizeBytes(&c.b, &k)); c.r(k); st(c, ZyanBitsetGetCapacityBytes(&c.b, &k)); c.r(k); st(c, ZyanBitsetCount(&c.b, &k)); c.r(k); st(c, ZyanBitsetAll(&c.b)); st(c, ZyanBitsetAny(&c.b)); st(c, ZyanBitsetNone(&c.b)); st(c, ZyanBitsetTestMSB(&c.b)); st(c, ZyanBitsetTestLSB(&c.b)); for (ZyanUSize i = 0; i < n; i++) st(c, ZyanBitsetTest(&c.b, i)); };
      m.fini = [=](Ctx& c) { st(c, ZyanBitsetDestroy(&c.b)); st(c, ZyanBitsetDestroy(&c.b2)); }; M.push_back(m); }
    { Module m; m.name = "list";
      m.init = {{"", [=](Ctx& c) { st(c, ZyanListInit(&c.l, 4, nullptr)); }}, {"shared allocator, destructor", [=](Ctx& c) { st(c, ZyanListInitEx(&c.l, 4, dtor32, ZyanAllocatorDefault())); }}, {"buffer", [=](Ctx& c) { st(c, ZyanListInitCustomBuffer(&c.l, 8, dtor32, c.buf, 200)); }}};
      m.ops = {O("push-back", static const uint64_t x = 3; st(c, ZyanListPushBack(&c.l, &x))), O("push-front", static const uint64_t x = 4; st(c, ZyanListPushFront(&c.l, &x))), O("emplace-back", void* p = nullptr; st(c, ZyanListEmplaceBack(&c.l, &p, ctor32))), O("emplace-front", void* p = nullptr; st(c, ZyanListEmplaceFront(&c.l, &p, ctor32))), O("pop-back", st(c, ZyanListPopBack(&c.l))), O("pop-front", st(c, ZyanListPopFront(&c.l))), O("remove", const ZyanListNode* n = nullptr; ZyanListGetHeadNode(&c.l, &n); if (n) st(c, ZyanListRemove(&c.l, n))), O("remove-range", const ZyanListNode *n = nullptr, *t = nullptr; ZyanListGetHeadNode(&c.l, &n); ZyanListGetTailNode(&c.l, &t); if (n) st(c, ZyanListRemoveRange(&c.l, n, t))), O("clear", st(c, ZyanListClear(&c.l))), O("resize 3", static const uint64_t x = 8; st(c, ZyanListResizeEx(&c.l, 3, &x))), O("resize 1", static const uint64_t x = 8; st(c, ZyanListResizeEx(&c.l, 1, &x))), O("resize 0", st(c, ZyanListResize(&c.l, 0))), O("set", static const uint64_t x = 11; const ZyanListNode* n = nullptr; ZyanListGetTailNode(&c.l, &n); if (n) st(c, ZyanListSetNodeData(&c.l, n, &x)))};
      m.obs = [=](Ctx& c) { ZyanUSize n = 0; st(c, ZyanListGetSize(&c.l, &n)); c.r(n); const ZyanListNode* p = nullptr; st(c, ZyanListGetHeadNode(&c.l, &p)); for (int i = 0; p && i < 50; i++) { const void* d = nullptr; st(c, ZyanListGetNodeDataEx(p, &d)); void* e = nullptr; st(c, ZyanListGetNodeDataMutableEx(p, &e)); c.r(d == e && d == ZyanListGetNodeData(p) && d == ZyanListGetNodeDataMutable(p)); c.r(*(const uint32_t*)d); st(c, ZyanListGetNextNode(&p)); } st(c, ZyanListGetTailNode(&c.l, &p)); int k = 0; while (p && k < 50) { k++; st(c, ZyanListGetPrevNode(&p)); } c.r((uint64_t)k); };
      m.fini = [=](Ctx& c) { st(c, ZyanListDestroy(&c.l)); }; M.push_back(m); }
    { Module m; m.name = "argument parser";
      static const ZyanArgParseDefinition D0[] = {{"-a", ZYAN_TRUE, ZYAN_FALSE}, {"-o", ZYAN_FALSE, ZYAN_FALSE}, {"--long", ZYAN_FALSE, ZYAN_TRUE}, {"--flag", ZYAN_TRUE, ZYAN_FALSE}, {nullptr, ZYAN_FALSE, ZYAN_FALSE}}, D1[] = {{"-x", ZYAN_TRUE, ZYAN_FALSE}, {nullptr, ZYAN_FALSE, ZYAN_FALSE}};
      static const char* A[][6] = {{"p", "-a", "--long", "v", "pos", nullptr}, {"p", "-ax", "--long", "v", nullptr}, {"p", "--long", nullptr}, {"p", "-oval", "--flag", "--long", "", nullptr}, {"p", "-x", "a", "b", "c", nullptr}, {"p", "--", "-a", nullptr}, {"p", "-xx", nullptr}, {"p", nullptr}};
      m.init = {{"", [=](Ctx&) {}}};
      for (int a = 0; a < 8; a++) for (int d = 0; d < 2; d++) { static const char* NM[] = {"parse 0", "parse 1", "parse 2", "parse 3", "parse 4", "parse 5", "parse 6", "parse 7"}; m.ops.push_back({NM[a], [=](Ctx& c) { ZyanArgParseConfig g; memset(&g, 0, sizeof g); int n = 0; while (A[a][n]) n++; g.argv = A[a]; g.argc = (ZyanUSize)n; g.min_unnamed_args = 0; g.max_unnamed_args = 2; g.args = (ZyanArgParseDefinition*)(d ? D1 : D0); c.et = nullptr; ZyanVector v; ZyanStatus s = ZyanArgParse(&g, &v, &c.et); st(c, s); c.r((uint64_t)c.et); if (ZYAN_SUCCESS(s)) { ZyanUSize k = 0; ZyanVectorGetSize(&v, &k); c.r(k); for (ZyanUSize i = 0; i < k; i++) { const ZyanArgParseArg* e = (const ZyanArgParseArg*)ZyanVectorGet(&v, i); c.r((uint64_t)e->def); c.r(e->has_value); if (e->has_value) { const char* p; ZyanUSize l; ZyanStringViewGetData(&e->value, &p); ZyanStringViewGetSize(&e->value, &l); c.r((uint64_t)p); c.r(l); } } st(c, ZyanVectorDestroy(&v)); } }}); }
      m.obs = [=](Ctx&) {}; m.fini = [=](Ctx&) {}; M.push_back(m); }
    { Module m; m.name = "allocator";
      m.init = {{"", [=](Ctx& c) { c.r((uint64_t)ZyanAllocatorDefault()); }}};
      m.ops = {O("allocate", void* p = nullptr; ZyanAllocator* a = ZyanAllocatorDefault(); st(c, a->allocate(a, &p, 4, 10)); if (p) { memset(p, 1, 40); st(c, a->reallocate(a, &p, 4, 30)); c.bytes(p, 40); st(c, a->deallocate(a, p, 4, 30)); }), O("two blocks", void* p = nullptr; void* q = nullptr; ZyanAllocator* a = ZyanAllocatorDefault(); st(c, a->allocate(a, &p, 1, 7)); st(c, a->allocate(a, &q, 1, 7)); if (p && q) { memset(p, 3, 7); memset(q, 4, 7); c.bytes(p, 7); st(c, a->deallocate(a, p, 1, 7)); c.bytes(q, 7); st(c, a->deallocate(a, q, 1, 7)); }), O("init", ZyanAllocator x; ZyanAllocator* a = ZyanAllocatorDefault(); st(c, ZyanAllocatorInit(&x, a->allocate, a->reallocate, a->deallocate)); void* p = nullptr; st(c, x.allocate(&x, &p, 8, 2)); st(c, x.deallocate(&x, p, 8, 2))), O("version", c.r(ZycoreGetVersion()))};
      m.obs = [=](Ctx&) {}; m.fini = [=](Ctx&) {}; M.push_back(m); }
    return M;
}
struct Prog { int m, i; std::vector<int> ops; };
static std::string str(const Prog& p) { const Module& m = modules()[(size_t)p.m]; std::string s = m.name; if (m.init[(size_t)p.i].first[0]) s += std::string("(") + m.init[(size_t)p.i].first + ")"; for (int o : p.ops) s += std::string(" ") + m.ops[(size_t)o].name; return s; }
static void exec(const Prog& p, Ctx& c) { const Module& m = modules()[(size_t)p.m]; m.init[(size_t)p.i].second(c); m.obs(c); for (int o : p.ops) { c.r(0xabcd0000u + (unsigned)o); m.ops[(size_t)o].f(c); m.obs(c); } m.fini(c); }
static Ctx g_ctx[3]; // contexts are global so that their addresses do not depend on the schedule
static void prepare() { g_use.clear(); g_undo.clear(); for (auto& a : g_ar) { if (!a.base) { a.base = (uint8_t*)mmap(nullptr, AREA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } a.used = 0; a.live = 0; } for (auto& c : g_ctx) { c.log.clear(); memset(&c.v, 0xEE, sizeof c.v); memset(&c.s, 0xEE, sizeof c.s); memset(&c.b, 0xEE, sizeof c.b); memset(&c.b2, 0xEE, sizeof c.b2); memset(&c.l, 0xEE, sizeof c.l); memset(c.buf, 0xEE, sizeof c.buf); } }
static void undo() { for (auto& u : g_undo) *(uint64_t*)(u.first << 3) = u.second; g_undo.clear(); }
static bool mine(uintptr_t gran, int t) { uintptr_t p = gran << 3; return (p >= ((uintptr_t)&g_ctx[t] & ~(uintptr_t)7) && p < (uintptr_t)(&g_ctx[t] + 1)) || (p >= (uintptr_t)g_ar[t].base && p < (uintptr_t)g_ar[t].base + AREA); }
static std::vector<uint64_t> alone(const Prog& p, int t) { // as thread t
    prepare(); std::vector<std::function<void()>> fs; for (int i = 0; i <= t; i++) fs.push_back([&, i, t] { if (i == t) exec(p, g_ctx[t]); });
    sc::run(fs, 0, false); undo(); return g_ctx[t].log;
}
struct Alone { std::vector<uintptr_t> w, r; };
static uint64_t g_schedules;
struct Restart {};
static void pair(const Prog& p, const Prog& q) {
    g_points = false; auto ra = alone(p, 0), rb = alone(q, 1); g_points = true; g_conf.clear();
    int bound = 2; uint64_t cost = 0;
    for (int round = 0; round < 60; round++) try {
        dfs([&] {
            prepare(); text("in parallel: {%s} and {%s}; order of the threads at conflicting accesses: ", str(p).c_str(), str(q).c_str()); sc::S().limit = 2000000;
            sc::run({[&] { exec(p, g_ctx[0]); }, [&] { exec(q, g_ctx[1]); }}, bound, false); undo(); g_schedules++; cost += sc::S().steps;
            bool grown = false; for (auto& u : g_use) if (((u.second.r | u.second.w) & 3) == 3 && u.second.w && g_conf.insert(u.first).second) grown = true;
            for (int t = 0; t < 2; t++) { auto& w = t ? rb : ra; auto& g = g_ctx[t].log; size_t i = 0; while (i < w.size() && i < g.size() && w[i] == g[i]) i++; if (i < w.size() || i < g.size()) fail("thread %d: result %zu is 0x%llx, but 0x%llx when it runs alone", t, i, (unsigned long long)(i < g.size() ? g[i] : 0), (unsigned long long)(i < w.size() ? w[i] : 0)); }
            if (grown) throw Restart();
            if (bound > 1 && sc::S().steps > 400) { bound = 1; throw Restart(); }
        });
        break;
    } catch (Restart&) {}
    g_points = false;
}
static std::vector<Prog> programs(int depth) {
    std::vector<Prog> v; auto& M = modules();
    for (int d = 1; d <= depth; d++) for (int m = 0; m < (int)M.size(); m++) for (int i = 0; i < (int)M[(size_t)m].init.size(); i++) {
        std::vector<int> ix((size_t)d, 0); int n = (int)M[(size_t)m].ops.size();
        for (;;) { v.push_back({m, i, ix}); int k = d; while (k-- > 0) { if (++ix[(size_t)k] < n) break; ix[(size_t)k] = 0; } if (k < 0) break; }
    }
    return v;
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough; auto P = std::make_shared<std::vector<Prog>>(programs(T ? 3 : 2));
        for (int sh = 0; sh < 8; sh++) task("programs, part " + std::to_string(sh), [=] {
            E().replaying = false; sc::on_access = onacc; sc::S().always = true; uint64_t n = 0; std::map<uintptr_t, std::vector<size_t>> touch; std::unordered_set<uintptr_t> written; g_schedules = 0;
            // every program alone, in two different places, with the shared memory it uses. Every task
            // looks at all programs and explores its part of the pairs.
            for (size_t k = 0; k < P->size(); k++) {
                const Prog& p = (*P)[k]; beat(); text_reset(); text("alone: {%s} ", str(p).c_str()); if (!T || k % 8 == (size_t)sh || p.ops.size() < 3) {
                auto a = alone(p, 0); auto u = g_use; n++; { Hash h; for (auto x : a) h.u64(x); auto q = h.key(); outcome(q.a, q.b); }
                for (auto& x : u) if (!mine(x.first, 0)) { auto& l = touch[x.first]; l.push_back(k); if (x.second.w) written.insert(x.first); }
                if (k % 8 == (size_t)sh) { auto b = alone(p, 1); n++; size_t di = 0; while (di < a.size() && di < b.size() && a[di] == b[di]) di++; CHECK(a == b, "the results depend on where the objects are (result %zu of %zu: 0x%llx and 0x%llx)", di, a.size(), (unsigned long long)(di < a.size() ? a[di] : 0), (unsigned long long)(di < b.size() ? b[di] : 0)); }
                if (k < 3) maybe_sample(0); }
            }
            count_outcomes(g_acc, n); g_acc = 0; // pairs that commute need no further schedule
            uint64_t idx = 0;
            for (uintptr_t g : written) { // explore the shortest programs of every module that touch it, in pairs
                std::vector<size_t> c; std::map<int, int> per; for (size_t k : touch[g]) if (per[(*P)[k].m]++ < 14) c.push_back(k);
                for (size_t i = 0; i < c.size(); i++) for (size_t j = i; j < c.size(); j++) if (idx++ % 8 == (uint64_t)sh) pair((*P)[c[i]], (*P)[c[j]]);
            }
        });
    });
}
