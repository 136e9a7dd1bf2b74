// zy.hpp - helpers shared by the explorers: checking allocator, guarded buffers, object images.
#pragma once
#include "mc.hpp"
#include <exception>
#include <unordered_map>
#include <Zycore/Zycore.h>
#include <Zycore/Status.h>
#include "st.hpp"
#include <Zycore/Types.h>
#include <Zycore/Allocator.h>
#include <Zycore/Vector.h>
#include <Zycore/String.h>
#include <Zycore/Bitset.h>
#include <Zycore/List.h>
#include <Zycore/Format.h>
#include <Zycore/ArgParse.h>
#include <Zycore/Comparison.h>
#ifdef __SIZEOF_INT128__
typedef unsigned __int128 wide_t; // wider than a size
#else
typedef unsigned long long wide_t;
static_assert(sizeof(wide_t) > sizeof(size_t), "");
#endif
// 2^k; with 32-bit sizes the boundary at the same distance from the largest size or its square root
inline constexpr size_t p2(int k) { return (size_t)1 << (sizeof(size_t) == 8 || k < 32 ? k : k >= 48 ? k - 32 : k == 32 ? 16 : 30); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#endif
#ifdef MC_ASAN
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#endif

// Memory in pages that can be write-protected as a whole: objects under exploration, their storage and the arguments of
// operations live there when sealing is enabled (otherwise: the ordinary heap). Zones are protected independently.
namespace pg {
enum { OBJ, ARG, OTHER, ZONES };
struct Zone { uint8_t* base = nullptr; size_t top = 0; int sealed = 0; std::unordered_map<size_t, std::vector<void*>> idle; };
inline Zone& zone(int z) { static Zone zs[ZONES]; return zs[z]; }
static const size_t ROOM = (size_t)1 << 30, HEAD = 16, RED = 32;
inline int& current() { static int z = OBJ; return z; }
struct In { int old; In(int z) : old(current()) { current() = z; } ~In() { current() = old; } };
inline void on_fault(int, siginfo_t* i, void*) {
    for (int z = 0; z < ZONES; z++) { Zone& q = zone(z); uint8_t* a = (uint8_t*)i->si_addr; if (q.base && q.sealed && a >= q.base && a < q.base + q.top) mc::fail("%s written", z == ARG ? "an argument that is only read was" : "an object that is only read, or its storage, was"); }
    signal(SIGSEGV, SIG_DFL); // another kind of fault: let it happen again
}
inline void protect(Zone& q, int prot) { if (q.top && mprotect(q.base, (q.top + 4095) & ~(size_t)4095, prot)) mc::fail("internal: mprotect"); }
inline void seal(int z) { Zone& q = zone(z); if (q.sealed++ == 0) protect(q, PROT_READ); }
inline void unseal(int z) { Zone& q = zone(z); if (--q.sealed == 0) protect(q, PROT_READ | PROT_WRITE); }
struct Seal { int a, b; Seal(int a_ = OBJ, int b_ = -1) : a(a_), b(b_) { if (!mc::E().seal) a = b = -1; if (a >= 0) seal(a); if (b >= 0) seal(b); } ~Seal() { if (a >= 0) unseal(a); if (b >= 0) unseal(b); } };
struct Open { int z, n = 0; Open(int z_) : z(z_) { if (!mc::E().seal) return; n = zone(z).sealed; if (n) { zone(z).sealed = 0; protect(zone(z), PROT_READ | PROT_WRITE); } } ~Open() { if (n) { zone(z).sealed += n; protect(zone(z), PROT_READ); } } };
inline void* get(int z, size_t n) {
    if (!mc::E().seal) return malloc(n);
    Zone& q = zone(z); size_t r = (n + 15) & ~(size_t)15; Open o(z);
    if (!q.base) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr);
        q.base = (uint8_t*)mmap(nullptr, ROOM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q.base == MAP_FAILED) mc::fail("internal: mmap");
    }
    uint8_t* p; auto& l = q.idle[r];
    if (!l.empty()) { p = (uint8_t*)l.back(); l.pop_back(); }
    else { p = q.base + q.top + HEAD; q.top += HEAD + r + RED; if (q.top > ROOM) mc::fail("internal: zone full"); memcpy(p - HEAD, &r, sizeof r); }
#ifdef MC_ASAN
    __asan_unpoison_memory_region(p, n); __asan_poison_memory_region(p + n, r - n + RED);
#endif
    return p;
}
inline void put(int z, void* p) {
    if (!mc::E().seal || !p) { free(p); return; }
    size_t r; memcpy(&r, (uint8_t*)p - HEAD, sizeof r); zone(z).idle[r].push_back(p);
#ifdef MC_ASAN
    __asan_poison_memory_region(p, r);
#endif
}
// memory of one object
template <class T> struct Mem {
    alignas(16) uint8_t own[sizeof(T)]; uint8_t* p; int z;
    Mem(int z_ = current()) : z(z_) { p = mc::E().seal ? (uint8_t*)get(z, sizeof(T)) : own; }
    Mem(const Mem&) = delete;
    ~Mem() { if (p != own) put(z, p); }
    uint8_t (&arr())[sizeof(T)] { return *(uint8_t(*)[sizeof(T)])p; }
};
// bytes handed over as an argument
struct Arg { uint8_t* p; size_t n; Arg(const void* q, size_t k) : n(k) { Open o(ARG); p = (uint8_t*)get(ARG, k ? k : 1); memcpy(p, q, k); if (mc::E().seal) seal(ARG); } Arg(Arg&& a) : p(a.p), n(a.n) { a.p = nullptr; } ~Arg() { if (!p) return; if (mc::E().seal) unseal(ARG); put(ARG, p); } const uint8_t* data() const { return p; } };
}

// The library objects are linked with their heap functions redirected here (objcopy).
namespace heap {
struct Blk { void* p; size_t n; int z = pg::OBJ; };
inline std::vector<Blk>& live() { static std::vector<Blk> l; return l; }
inline std::function<bool()>& refuse() { static std::function<bool()> f; return f; }
inline uint64_t& calls() { static uint64_t c; return c; }
inline uint64_t& failed() { static uint64_t c; return c; }
inline bool& forbidden() { static bool b; return b; } // any use is a violation
inline void use() { calls()++; if (forbidden()) mc::fail("the default heap was used by an object that has its own allocator or buffer"); }
inline void reset() { for (auto& b : live()) pg::put(b.z, b.p); live().clear(); refuse() = nullptr; calls() = failed() = 0; forbidden() = false; }
inline size_t size_of(const void* p) { for (auto& b : live()) if (b.p == p) return b.n; return 0; }
inline void expect_none(const char* when) { if (!live().empty()) mc::fail("leak: %zu default-heap block(s) still allocated %s", live().size(), when); }
static const size_t LIMIT = (size_t)1 << 26;
}
#ifndef ZY_NO_HEAP_HOOKS
extern "C" {
__attribute__((weak)) void* zyv_malloc(size_t n) {
    heap::use();
    if (n > heap::LIMIT) return nullptr;
    if (heap::refuse() && heap::refuse()()) { heap::failed()++; return nullptr; }
    int z = pg::current(); void* p = pg::get(z, n); memset(p, mc::junk(0xCD), n); heap::live().push_back({p, n, z}); return p;
}
__attribute__((weak)) void* zyv_calloc(size_t a, size_t b) {
    wide_t t = (wide_t)a * b;
    if (t > heap::LIMIT) { heap::use(); return nullptr; }
    void* p = zyv_malloc((size_t)t); if (p) memset(p, 0, (size_t)t); return p;
}
__attribute__((weak)) void zyv_free(void* p) {
    if (!p) return;
    heap::use();
    auto& l = heap::live();
    for (size_t i = 0; i < l.size(); i++) if (l[i].p == p) { pg::put(l[i].z, p); l.erase(l.begin() + i); return; }
    mc::fail("release of a block that is not allocated from the default heap (double release or foreign block)");
}
__attribute__((weak)) void* zyv_realloc(void* p, size_t n) {
    if (!p) return zyv_malloc(n);
    heap::use();
    auto& l = heap::live(); size_t i = 0; for (; i < l.size(); i++) if (l[i].p == p) break;
    if (i == l.size()) mc::fail("reallocation of a block that is not allocated from the default heap");
    if (n > heap::LIMIT) return nullptr;
    if (heap::refuse() && heap::refuse()()) { heap::failed()++; return nullptr; }
    if (n == 0) { zyv_free(p); return nullptr; }
    int z = l[i].z; void* q = pg::get(z, n); memset(q, mc::junk(0xCD), n); memcpy(q, p, std::min(n, l[i].n)); pg::put(z, p); l[i] = {q, n, z}; return q;
}
}
#endif

// Checking allocator. Every block is a separate exact-size heap block (so the sanitizer sees any
// overrun), reallocation always moves, fresh memory has a fixed pattern (determinism).
struct Tracker {
    ZyanAllocator base; // must be first: callbacks receive a pointer to it
    struct Blk { void* p; size_t es, n; };
    std::vector<Blk> live;
    bool check_sizes = true; int z = pg::current();
    uint64_t calls = 0, allocs = 0, reallocs = 0, frees = 0, failed = 0;
    size_t last_n = 0, last_es = 0;
    size_t refuse_above = (size_t)1 << 26; // bytes
    bool refused_big = false;
    std::function<bool()> refuse;          // fault injection
    // what a released/failed pointer slot is left with
    static Tracker* self(ZyanAllocator* a) { return (Tracker*)a; }
    static uint64_t& trace() { static uint64_t t; return t; } // everything requested, in order
    static void tr(uint64_t x) { uint64_t& t = trace(); t ^= x + 0x9E3779B97F4A7C15ull; t *= 0xff51afd7ed558ccdull; t ^= t >> 29; }
    static ZyanStatus A(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) {
        Tracker* t = self(a); t->calls++; tr(1); tr(es); tr(n);
        if (!p) mc::fail("allocator: null result pointer");
        if (!es || !n) mc::fail("allocator: allocation of zero bytes requested (element_size %zu, n %zu)", es, n);
        wide_t tot = (wide_t)es * n;
        if (tot > t->refuse_above) { t->refused_big = true; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
        if (t->refuse && t->refuse()) { t->failed++; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
        t->allocs++; t->last_n = n; t->last_es = es;
        void* q = pg::get(t->z, (size_t)tot); memset(q, mc::junk(0xCD), (size_t)tot);
        t->live.push_back({q, es, n}); *p = q;
        return ZYAN_STATUS_SUCCESS;
    }
    static ZyanStatus R(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) {
        Tracker* t = self(a); t->calls++; tr(2); tr(es); tr(n);
        if (!p) mc::fail("allocator: null block reference in reallocation");
        if (!es || !n) mc::fail("allocator: reallocation to zero bytes requested (element_size %zu, n %zu)", es, n);
        size_t i = 0; for (; i < t->live.size(); i++) if (t->live[i].p == *p) break;
        if (i == t->live.size()) mc::fail("allocator: reallocation of a block this allocator does not own");
        if (t->check_sizes && t->live[i].es != es) mc::fail("allocator: element size changed from %zu to %zu on reallocation", t->live[i].es, es);
        wide_t tot = (wide_t)es * n;
        if (tot > t->refuse_above) { t->refused_big = true; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
        if (t->refuse && t->refuse()) { t->failed++; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
        t->reallocs++; t->last_n = n; t->last_es = es;
        void* q = pg::get(t->z, (size_t)tot); memset(q, mc::junk(0xCD), (size_t)tot);
        memcpy(q, *p, std::min<size_t>((size_t)tot, t->live[i].es * t->live[i].n));
        pg::put(t->z, *p);
        t->live[i] = {q, es, n}; *p = q;
        return ZYAN_STATUS_SUCCESS;
    }
    static ZyanStatus F(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n) {
        Tracker* t = self(a); t->calls++; tr(3); tr(es); tr(n);
        for (size_t i = 0; i < t->live.size(); i++) if (t->live[i].p == p) {
            if (t->check_sizes && (t->live[i].es != es || t->live[i].n != n))
                mc::fail("allocator: block of element size %zu, count %zu released with element size %zu, count %zu", t->live[i].es, t->live[i].n, es, n);
            pg::put(t->z, p); t->live.erase(t->live.begin() + i); t->frees++;
            return ZYAN_STATUS_SUCCESS;
        }
        mc::fail("allocator: release of a block this allocator does not own (double release or foreign block)");
    }
    Tracker() { ZyanAllocatorInit(&base, A, R, F); }
    void reset() { for (auto& b : live) pg::put(z, b.p); live.clear(); calls = allocs = reallocs = frees = failed = 0; refused_big = false; refuse = nullptr; }
    ~Tracker() { reset(); }
    void expect_no_leak(const char* when) { if (!live.empty()) mc::fail("leak: %zu block(s) still allocated %s", live.size(), when); }
};

// Exact-size guarded caller buffer: a heap block of exactly n bytes under the sanitizer, and
// additionally guard words in non-sanitized builds.
struct Guarded {
    uint8_t* p = nullptr; size_t n = 0; uint8_t* raw = nullptr; int z;
    static const int G = 64;
    Guarded(int z_ = pg::current()) : z(z_) {}
    void init(size_t k, size_t misalign = 0) {
        release(); n = k; raw = (uint8_t*)pg::get(z, k + 2 * G + misalign + 16); memset(raw, 0xA5, k + 2 * G + misalign + 16);
        p = raw + G + misalign; memset(p, mc::junk(0xCD), k);
#ifdef MC_ASAN
        __asan_poison_memory_region(raw, G + misalign);
        __asan_poison_memory_region(p + k, G + 16);
#endif
    }
    void release() {
        if (!raw) return;
#ifdef MC_ASAN
        __asan_unpoison_memory_region(raw, (p - raw) + n + G + 16);
#endif
        bool before = false, after = false;
        for (uint8_t* q = raw; q < p; q++) before |= *q != 0xA5;
        for (int i = 0; i < G; i++) after |= p[n + i] != 0xA5;
        pg::put(z, raw); raw = nullptr; p = nullptr;
        if (std::uncaught_exceptions()) return; // another failure is being reported
        if (before) mc::fail("byte before the caller-supplied buffer was overwritten");
        if (after) mc::fail("byte after the caller-supplied buffer was overwritten");
    }
    ~Guarded() { bool t = mc::E().throwing; mc::E().throwing = false; release(); mc::E().throwing = t; }
};

// Opaque canonical image of an object graph: object bytes, with words that point into known
// regions replaced by (region number in discovery order, offset), followed by those regions.
struct Image {
    struct Reg { const uint8_t* p; size_t n; int id; };
    std::vector<Reg> regs; std::vector<int> order;
    void add(const void* p, size_t n) { regs.push_back({(const uint8_t*)p, n, -1}); }
    void add(Tracker& t) { add(&t.base, sizeof t.base); for (auto& b : t.live) add(b.p, b.es * b.n); }
    void add_heap() { for (auto& b : heap::live()) add(b.p, b.n); }
    void scan(mc::Hash& h, const uint8_t* p, size_t n) {
        size_t lo = ~(size_t)0, hi = 0; for (auto& r : regs) { lo = std::min(lo, (size_t)r.p); hi = std::max(hi, (size_t)r.p + r.n); }
        size_t i = 0, raw = 0; // [raw, i): bytes that are not part of a pointer
        while (i + sizeof(size_t) <= n) { // at every offset: fixed buffers may hold unaligned nodes
            size_t w; memcpy(&w, p + i, sizeof w);
            bool hit = false;
            if (w >= lo && w <= hi) for (auto& r : regs) if (w >= (size_t)r.p && w <= (size_t)r.p + r.n) {
                if (r.id < 0) { r.id = (int)order.size(); order.push_back((int)(&r - &regs[0])); }
                if (i > raw) h.bytes(p + raw, i - raw);
                h.u64(0x5050000000000000ull + r.id); h.u64(w - (size_t)r.p); hit = true; break;
            }
            if (hit) { i += sizeof(size_t); raw = i; } else i++;
        }
        if (n > raw) h.bytes(p + raw, n - raw);
    }
    void hash(mc::Hash& h, const void* obj, size_t n) {
        scan(h, (const uint8_t*)obj, n);
        for (size_t k = 0; k < order.size(); k++) { Reg r = regs[order[k]]; h.u64(r.n); scan(h, r.p, r.n); }
        h.u64(order.size()); h.u64(regs.size());
    }
};
