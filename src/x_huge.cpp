// Explorer for C38: objects beyond the 31- and 32-bit boundaries. Storage is sparse (untouched pages
// of a reserved range cost nothing), so that operations which touch little of an object of more than
// four gibibytes are cheap. Every one- and two-step history of the listed operations is executed.
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include "mc.hpp"
#include "st.hpp"
extern "C" {
#include <Zycore/Vector.h>
#include <Zycore/String.h>
#include <Zycore/Bitset.h>
#include <Zycore/List.h>
#include <Zycore/Format.h>
#include <Zycore/API/Memory.h>
void* nl_memchr(const void*, int, ZyanUSize); int nl_memcmp(const void*, const void*, ZyanUSize); void* nl_memcpy(void*, const void*, ZyanUSize); void* nl_memmove(void*, const void*, ZyanUSize);
void* nl_memset(void*, int, ZyanUSize); ZyanUSize nl_strlen(const char*); int nl_strcmp(const char*, const char*); int nl_strncmp(const char*, const char*, ZyanUSize); char* nl_strchr(const char*, int); char* nl_strrchr(const char*, int);
}
using namespace mc;
typedef uint64_t U;
static const U PS = 4096, G1 = (U)1 << 30, G2 = (U)1 << 31, G4 = (U)1 << 32, CH = (U)1 << 26; // CH: one chunk of repeated memory
static U up(U n) { return (n + PS - 1) / PS * PS; }
static bool ok(ZyanStatus s) { return s == ZYAN_STATUS_SUCCESS; }
#define OK(x) do { ZyanStatus s__ = (x); CHECK(ok(s__), #x ": %s", st_name(s__)); } while (0)
#define ST(x, w) do { ZyanStatus s__ = (x); CHECK(s__ == (w), #x ": %s instead of %s", st_name(s__), st_name(w)); } while (0)
// ---- sparse memory -----------------------------------------------------------------------------
static uint8_t* reserve(U n) { // zeros, followed by a page that cannot be accessed
    void* p = mmap(nullptr, up(n) + 2 * PS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) fail("internal: cannot reserve %llu bytes", (unsigned long long)n);
    if (n && mmap((char*)p + PS, up(n), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) fail("internal: cannot map %llu bytes", (unsigned long long)n);
    return (uint8_t*)p + PS;
}
static void release(uint8_t* p, U n) { munmap(p - PS, up(n) + 2 * PS); }
struct Zone { // a block with a canary between its end and the inaccessible page
    uint8_t* p = nullptr; U n = 0;
    void init(U k) { n = k; p = reserve(n); for (U i = n; i < up(n); i++) p[i] = 0xC3; }
    void check() const { for (U i = n; i < up(n); i++) if (p[i] != 0xC3) fail("memory behind a block of %llu bytes was written", (unsigned long long)n); }
    void done() { if (p) { check(); release(p, n); p = nullptr; } }
};
// Repeated memory: chunks of the same 64 MiB, the last pages private. Large contents without large memory.
static int chunk() {
    static int fd = -1; if (fd >= 0) return fd;
    fd = memfd_create("chunk", 0); if (fd < 0 || ftruncate(fd, CH)) fail("internal: no chunk");
    char* m = (char*)mmap(nullptr, CH, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); for (U i = 0; i < CH; i++) m[i] = (char)('a' + i % 16); munmap(m, CH);
    return fd;
}
static int scratch() { static int fd = -1; if (fd >= 0) return fd; fd = memfd_create("scratch", 0); if (fd < 0 || ftruncate(fd, CH)) fail("internal: no chunk"); return fd; }
static char letter(U i) { return (char)('a' + i % 16); }
static char* repeated(U n, bool out = false) { // out: writable, all chunks the same memory except the last 64 KiB
    char* p = (char*)mmap(nullptr, up(n) + PS + CH, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if ((void*)p == MAP_FAILED) fail("internal: cannot reserve");
    for (U o = 0; o < up(n); o += CH) { U k = std::min(CH, up(n) - o); if (mmap(p + o, k, PROT_READ | PROT_WRITE, (out ? MAP_SHARED : MAP_PRIVATE | MAP_NORESERVE) | MAP_FIXED, out ? scratch() : chunk(), 0) == MAP_FAILED) fail("internal: cannot map"); }
    if (out) { U o = up(n) - std::min(up(n), 16 * PS); if (mmap(p + o, up(n) - o, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) fail("internal: cannot map"); memset(p + o, 0xEE, up(n) - o); }
    return p;
}
static void unrepeat(char* p, U n) { munmap(p, up(n) + PS + CH); }
// An allocator of sparse blocks; growing moves the pages instead of copying them.
struct Alloc {
    ZyanAllocator base; std::map<void*, Zone> live; U calls = 0; bool alias = false; std::map<void*, U> al;
    static U bytes(ZyanUSize es, ZyanUSize n) { if (es && n > ((U)1 << 44) / es) fail("an allocation of %llu elements of %llu bytes was requested", (unsigned long long)n, (unsigned long long)es); return (U)es * n; }
    static ZyanStatus alloc(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { Alloc& t = *(Alloc*)a; t.calls++; U b = bytes(es, n); if (t.alias) { char* q = repeated(b, true); t.al[q] = b; *p = q; return ZYAN_STATUS_SUCCESS; } Zone z; z.init(b); t.live[z.p] = z; *p = z.p; return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus re(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) {
        Alloc& t = *(Alloc*)a; t.calls++; U b = bytes(es, n); auto old = t.al.find(*p);
        if (old != t.al.end()) { char *q = repeated(b, true), *from = (char*)*p; for (U i = 0, m = std::min(b, old->second); i < m; i += CH) { memcpy(q + i, from + i, std::min(CH, m - i)); beat(); } unrepeat(from, old->second); t.al.erase(old); t.al[q] = b; *p = q; return ZYAN_STATUS_SUCCESS; }
        auto it = t.live.find(*p); CHECK(it != t.live.end(), "reallocation of a block that is not allocated"); Zone o = it->second; o.check(); t.live.erase(it);
        for (U i = o.n; i < up(o.n); i++) o.p[i] = 0;
        Zone z; z.init(b); U k = std::min(up(o.n), up(b));
        if (k) { if (mremap(o.p, k, k, MREMAP_MAYMOVE | MREMAP_FIXED, z.p) == MAP_FAILED) fail("internal: cannot move pages"); for (U i = b; i < up(b); i++) z.p[i] = 0xC3; }
        release(o.p, o.n); t.live[z.p] = z; *p = z.p; return ZYAN_STATUS_SUCCESS;
    }
    static ZyanStatus dealloc(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n) {
        Alloc& t = *(Alloc*)a; t.calls++; auto q = t.al.find(p); if (q != t.al.end()) { CHECK(bytes(es, n) == q->second, "released with another size"); unrepeat((char*)p, q->second); t.al.erase(q); return ZYAN_STATUS_SUCCESS; }
        auto it = t.live.find(p); CHECK(it != t.live.end(), "release of a block that is not allocated"); CHECK(bytes(es, n) == it->second.n, "released with %llu elements of %llu bytes instead of %llu bytes", (unsigned long long)n, (unsigned long long)es, (unsigned long long)it->second.n);
        it->second.done(); t.live.erase(it); return ZYAN_STATUS_SUCCESS;
    }
    Alloc() { ZyanAllocatorInit(&base, alloc, re, dealloc); }
    ~Alloc() { for (auto& z : live) release(z.second.p, z.second.n); for (auto& q : al) unrepeat((char*)q.first, q.second); }
    void none() { CHECK(live.empty() && al.empty(), "memory still allocated after destruction"); }
    U size_of(void* p) { auto it = live.find(p); return it == live.end() ? 0 : it->second.n; }
};
// ---- the reference sequence: runs of equal elements, -1: unspecified ------------------------------
struct Runs {
    struct R { U n; int64_t v; }; std::vector<R> r;
    U size() const { U s = 0; for (auto& x : r) s += x.n; return s; }
    size_t cut(U at) { U o = 0; for (size_t i = 0; i < r.size(); i++) { if (o == at) return i; if (at < o + r[i].n) { U k = at - o; R tail{r[i].n - k, r[i].v}; r[i].n = k; r.insert(r.begin() + (long)i + 1, tail); return i + 1; } o += r[i].n; } return r.size(); }
    void insert(U at, U n, int64_t v) { if (!n) return; size_t i = cut(at); r.insert(r.begin() + (long)i, R{n, v}); }
    void erase(U at, U n) { if (!n) return; size_t i = cut(at), j = cut(at + n); r.erase(r.begin() + (long)i, r.begin() + (long)j); }
    void set(U at, int64_t v) { erase(at, 1); insert(at, 1, v); }
    int64_t at(U i) const { for (auto& x : r) { if (i < x.n) return x.v; i -= x.n; } return -2; }
    void resize(U n, int64_t v) { U s = size(); if (n < s) erase(n, s - n); else insert(s, n - s, v); }
    std::vector<U> points() const { // the ends of every run and the places around the boundaries
        std::vector<U> p; U o = 0, s = size();
        for (auto& x : r) { for (U k : {(U)0, (U)1, x.n / 2, x.n - 1}) if (k < x.n) p.push_back(o + k); o += x.n; }
        for (U b : {(U)255, (U)65535, G2 - 1, G4 - 1, G4 + G2 - 1}) for (U k : {(U)0, (U)1}) if (b + k < s) p.push_back(b + k);
        for (U b : {G2, G4}) for (U k = 1; k < 4; k++) if (s > b + k) { p.push_back(s - b - k); } // the same places with higher bits cut off
        return p;
    }
};
static std::vector<U> marks(U n) { // where the initial objects hold values of their own
    std::vector<U> m; for (U x : {(U)0, (U)1, n / 2, n - 1, n - 2, n - 3, n - 9, n & (G4 - 1), (n - 1) & (G4 - 1), (n - 2) & (G2 - 1), (n - 9) & (G4 - 1), (U)65536, G2 - 1, G2, G4 - 1, G4}) if (x < n && std::find(m.begin(), m.end(), x) == m.end()) m.push_back(x);
    return m;
}
static void zero(void* p, U n) { // fresh zero pages inside, zeros at the ends
    U a = ((U)p + PS - 1) / PS * PS, e = ((U)p + n) / PS * PS; if (e <= a) { memset(p, 0, n); return; }
    memset(p, 0, a - (U)p); memset((void*)e, 0, (U)p + n - e);
    if (mmap((void*)a, e - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) fail("internal: cannot clear");
}
// ---- vectors -----------------------------------------------------------------------------------
static std::vector<int64_t> g_dead; static U g_es;
static void put(uint8_t* e, U es, int64_t v) { memset(e, 0, es); if (es < 16) memset(e, (int)v, es); else { memcpy(e, &v, 8); int64_t w = v * 3; memcpy(e + es - 8, &w, 8); } }
static int64_t get(const uint8_t* e, U es) { if (es < 16) { for (U i = 1; i < es; i++) if (e[i] != e[0]) return -3; return e[0]; } int64_t v, w; memcpy(&v, e, 8); memcpy(&w, e + es - 8, 8); return w == v * 3 ? v : -3; }
static void dtor(void* p) { g_dead.push_back(get((uint8_t*)p, g_es)); }
static ZyanI32 cmp(const void* a, const void* b) { int64_t x = get((const uint8_t*)a, g_es), y = get((const uint8_t*)b, g_es); return x < y ? -1 : x > y; }
static ZyanBool eq(const void* a, const void* b) { return (ZyanBool)(cmp(a, b) == 0); }
struct Vec {
    ZyanVector v; Alloc t; Zone buf; Runs m; U es; bool fixed, dt; int64_t x = 100; uint8_t tmp[1 << 16];
    int64_t next() { return es < 16 ? (x = x >= 250 ? 101 : x + 1) : ++x; }
    void start(U e, U n, bool fx, int g, bool d, U c0) {
        es = e; g_es = e; fixed = fx; dt = d; g_dead.clear(); text("vector of %llu elements of %llu bytes, %s%s: ", (unsigned long long)n, (unsigned long long)es, fx ? "fixed buffer" : g == 1 ? "growth 1" : "growth 2", d ? ", destructor" : "");
        if (fx) { buf.init((n + 5) * es); OK(ZyanVectorInitCustomBuffer(&v, es, buf.p, n + 5, d ? dtor : nullptr)); }
        else OK(ZyanVectorInitEx(&v, es, c0, d ? dtor : nullptr, &t.base, (ZyanU8)g, (ZyanU8)(g == 1 ? 1 : 4)));
        OK(ZyanVectorResize(&v, n)); m.resize(n, -1); verify(); void* p = ZyanVectorGetMutable(&v, 0); CHECK(p, "no element 0"); zero(p, n * es); m.r.clear(); m.resize(n, 0);
        for (U i : marks(n)) set(i);
        verify();
    }
    void set(U i) { int64_t y = next(); put(tmp, es, y); text("set(%llu) ", (unsigned long long)i); if (dt) { g_dead.clear(); } OK(ZyanVectorSet(&v, i, tmp)); if (dt) gone({m.at(i)}); m.set(i, y); }
    void gone(std::vector<int64_t> w) { CHECK(g_dead.size() == w.size(), "%zu elements destroyed instead of %zu", g_dead.size(), w.size()); std::sort(w.begin(), w.end()); std::sort(g_dead.begin(), g_dead.end()); for (size_t i = 0; i < w.size(); i++) CHECK(w[i] < 0 || g_dead[i] == w[i], "the wrong element was destroyed"); g_dead.clear(); }
    void verify() {
        U n = 0, c = 0; OK(ZyanVectorGetSize(&v, &n)); OK(ZyanVectorGetCapacity(&v, &c)); CHECK(n == m.size(), "size %llu instead of %llu", (unsigned long long)n, (unsigned long long)m.size()); CHECK(c >= n, "capacity %llu is less than the size %llu", (unsigned long long)c, (unsigned long long)n);
        const uint8_t* b = fixed ? buf.p : t.live.empty() ? nullptr : t.live.begin()->second.p; CHECK(b && t.live.size() == (fixed ? 0u : 1u), "no storage"); U have = fixed ? buf.n : t.live.begin()->second.n;
        CHECK(c * es <= have, "the capacity of %llu elements does not fit the %llu bytes of storage", (unsigned long long)c, (unsigned long long)have);
        for (U i : m.points()) {
            const void* p = nullptr; ST(ZyanVectorGetPointer(&v, i, &p), ZYAN_STATUS_SUCCESS); CHECK(p == b + i * es, "element %llu is not where it belongs", (unsigned long long)i); int64_t w = m.at(i);
            CHECK(w < 0 || get((const uint8_t*)p, es) == w, "element %llu is %lld instead of %lld", (unsigned long long)i, (long long)get((const uint8_t*)p, es), (long long)w);
        }
        for (U i : {n, n + 1, n + G4, n + G2}) { const void* p; ST(ZyanVectorGetPointer(&v, i, &p), ZYAN_STATUS_OUT_OF_RANGE); CHECK(!ZyanVectorGet(&v, i) && !ZyanVectorGetMutable(&v, i), "element %llu of %llu", (unsigned long long)i, (unsigned long long)n); }
        if (fixed) buf.check(); else t.live.begin()->second.check();
    }
    bool fits(U k) { return !fixed || m.size() + k <= buf.n / es; }
    void step() {
        U n = m.size(); std::vector<U> P; for (U q : {n, n - 1, n - 4}) if (q <= n) P.push_back(q);
        switch (choose(12)) {
        case 0: { text("push "); int64_t y = next(); put(tmp, es, y); if (!fits(1)) { ST(ZyanVectorPushBack(&v, tmp), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); break; } OK(ZyanVectorPushBack(&v, tmp)); m.insert(n, 1, y); break; }
        case 1: if (!n) throw Abort(); text("pop "); OK(ZyanVectorPopBack(&v)); if (dt) gone({m.at(n - 1)}); m.erase(n - 1, 1); break;
        case 2: { U p = P[choose((int)P.size())]; text("insert(%llu) ", (unsigned long long)p); int64_t y = next(); put(tmp, es, y); if (!fits(1)) { ST(ZyanVectorInsert(&v, p, tmp), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); break; } OK(ZyanVectorInsert(&v, p, tmp)); m.insert(p, 1, y); break; }
        case 3: { U p = P[choose((int)P.size())]; text("insert 3 at %llu ", (unsigned long long)p); std::vector<uint8_t> z(3 * es); int64_t y[3]; for (int k = 0; k < 3; k++) { y[k] = next(); put(&z[(size_t)k * es], es, y[k]); } if (!fits(3)) { ST(ZyanVectorInsertRange(&v, p, z.data(), 3), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); break; } OK(ZyanVectorInsertRange(&v, p, z.data(), 3)); for (int k = 0; k < 3; k++) m.insert(p + (U)k, 1, y[k]); break; }
        case 4: { U p = P[choose((int)P.size())]; text("emplace at %llu ", (unsigned long long)p); void* e = nullptr; if (!fits(1)) { ST(ZyanVectorEmplaceEx(&v, p, &e, nullptr), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); break; } OK(ZyanVectorEmplaceEx(&v, p, &e, nullptr)); m.insert(p, 1, -1); const void* q = ZyanVectorGet(&v, p); CHECK(q == e, "the emplaced element is not element %llu", (unsigned long long)p); int64_t y = next(); put((uint8_t*)e, es, y); m.set(p, y); break; }
        case 5: { if (n < 5) throw Abort(); U p = P[1 + choose(2)]; text("delete %llu ", (unsigned long long)p); OK(ZyanVectorDelete(&v, p)); if (dt) gone({m.at(p)}); m.erase(p, 1); break; }
        case 6: { if (n < 20) throw Abort(); U a[6] = {n - 4, n - 9, 5, 0, n / 2, 7}, k[6] = {2, 9, n - 14, n, n - n / 2, n - 8}; int z = choose(6); if (dt && k[z] > 100) throw Abort(); text("delete %llu at %llu ", (unsigned long long)k[z], (unsigned long long)a[z]);
            std::vector<int64_t> w; if (dt) for (U i = 0; i < k[z]; i++) w.push_back(m.at(a[z] + i)); OK(ZyanVectorDeleteRange(&v, a[z], k[z])); if (dt) gone(w); m.erase(a[z], k[z]); break; }
        case 7: { U L[7] = {n + 1, n - 1, n - 3, n + G2, n + G4, G4 + 5, 3}; int z = choose(7); U w = L[z]; if (w > n + G4 || (dt && w + 100 < n) || (es > 16 && w > n + 70000)) throw Abort(); text("resize(%llu) ", (unsigned long long)w); std::vector<int64_t> d; if (dt) for (U i = w; i < n; i++) d.push_back(m.at(i));
            if (w > n && !fits(w - n)) { ST(ZyanVectorResize(&v, w), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); break; } OK(ZyanVectorResize(&v, w)); if (dt) gone(d); m.resize(w, -1); break; }
        case 8: { int64_t y = next(); put(tmp, es, y); U w = n + 3; text("resize(%llu, init) ", (unsigned long long)w); if (!fits(3)) { ST(ZyanVectorResizeEx(&v, w, tmp), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); break; } OK(ZyanVectorResizeEx(&v, w, tmp)); m.resize(w, y); break; }
        case 9: { U L[5] = {0, n, n + 1, n + G4, n + G2 + 7}; int z = choose(5); if (es > 16 && z > 2) L[z] = n + 70000 * (U)(z - 2); text("reserve(%llu) ", (unsigned long long)L[z]); U c = 0; ZyanVectorGetCapacity(&v, &c); U calls = t.calls; if (fixed && L[z] > c) { ST(ZyanVectorReserve(&v, L[z]), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); break; }
            OK(ZyanVectorReserve(&v, L[z])); U c2 = 0; ZyanVectorGetCapacity(&v, &c2); CHECK(c2 >= L[z] && c2 >= c, "capacity %llu after reserving %llu", (unsigned long long)c2, (unsigned long long)L[z]); CHECK(L[z] > c || t.calls == calls, "storage requested although %llu elements fit", (unsigned long long)L[z]); break; }
        case 10: { text("shrink "); OK(ZyanVectorShrinkToFit(&v)); U c = 0; ZyanVectorGetCapacity(&v, &c); CHECK(fixed || c == std::max<U>(n, 1), "capacity %llu after shrinking to %llu elements", (unsigned long long)c, (unsigned long long)n); break; }
        default: { if (n < 5) throw Abort(); U a[4] = {0, n / 2, n - 1, n - 3}, b[4] = {n - 1, n - 2, 0, 1}; int z = choose(4); text("swap(%llu,%llu) ", (unsigned long long)a[z], (unsigned long long)b[z]); U c = 0; ZyanVectorGetCapacity(&v, &c); ZyanStatus s = ZyanVectorSwapElements(&v, a[z], b[z]);
            CHECK(ok(s) || (c == n && s == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE), "swap: %s", st_name(s)); if (ok(s)) { int64_t p = m.at(a[z]), q = m.at(b[z]); m.set(a[z], q); m.set(b[z], p); } break; }
        }
        verify(); n = m.size(); if (n > 0) { set(n - 1); if (n > 9) set(n - 9); verify(); }
    }
    void finish() { if (dt) { g_dead.clear(); } OK(ZyanVectorDestroy(&v)); if (dt) CHECK(g_dead.size() == m.size(), "%zu elements destroyed instead of %llu", g_dead.size(), (unsigned long long)m.size()); t.none(); buf.done(); }
    ~Vec() { if (buf.p) release(buf.p, buf.n); }
};
static void vectors(U es, U n, bool fixed, int g, bool d, int depth) {
    char nm[120]; snprintf(nm, sizeof nm, "vector es=%llu n=%llu %s growth=%d dtor=%d", (unsigned long long)es, (unsigned long long)n, fixed ? "fixed" : "dynamic", g, d);
    task(nm, [=] { dfs([=] { Vec x; x.start(es, n, fixed, g, d, g == 1 ? n : 0); for (int k = 0; k < depth; k++) x.step(); x.finish(); }); });
}
static void searches(U es, U n) {
    task("vector search es=" + std::to_string(es) + " n=" + std::to_string(n), [=] { dfs([=] {
        Vec x; x.start(es, n, choose(2), 2, false, 0); // ascending at the end, zeros in front
        for (U i : marks(n)) { memset(x.tmp, 0, es); OK(ZyanVectorSet(&x.v, i, x.tmp)); } x.m.r.clear(); x.m.resize(n, 0);
        for (U i = 0; i < 20; i++) { put(x.tmp, es, (int64_t)(10 + i / 2 * 2)); OK(ZyanVectorSet(&x.v, n - 20 + i, x.tmp)); x.m.set(n - 20 + i, (int64_t)(10 + i / 2 * 2)); }
        U a[5] = {0, n - 20, n - 25, n - 7, n > G2 + 50 ? n - G2 - 30 : n / 2}; int z = choose(5); U i = a[z], c = n - i - (choose(2) ? 3 : 0); int key = 1 + choose(40); put(x.tmp, es, key); text("search for %d in (%llu,%llu) ", key, (unsigned long long)i, (unsigned long long)c);
        U at = 777; ZyanStatus s = z == 0 && c == n ? ZyanVectorBinarySearch(&x.v, x.tmp, &at, cmp) : ZyanVectorBinarySearchEx(&x.v, x.tmp, &at, cmp, i, c); U lo = i; bool found = false;
        for (U k = std::max(i, n - 20); k < i + c; k++) if (x.m.at(k) == key) found = true;
        lo = std::max(i, n - 20); while (lo < i + c && x.m.at(lo) < key) lo++;
        if (found) CHECK(s == ZYAN_STATUS_TRUE && at >= i && at < i + c && x.m.at(at) == key, "binary search: %s, index %llu", st_name(s), (unsigned long long)at); else CHECK(s == ZYAN_STATUS_FALSE && at == lo, "binary search: %s, index %llu instead of %llu", st_name(s), (unsigned long long)at, (unsigned long long)lo);
        if (z && z != 4) { ZyanISize f = -5; s = ZyanVectorFindEx(&x.v, x.tmp, &f, eq, i, c); ZyanISize w = -1; for (U k = i; k < i + c && w < 0; k++) if (x.m.at(k) == key) w = (ZyanISize)k; CHECK(f == w && s == (w < 0 ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE), "search: %s, index %lld instead of %lld", st_name(s), (long long)f, (long long)w); }
        ST(ZyanVectorBinarySearchEx(&x.v, x.tmp, &at, cmp, i, n - i + 1), ZYAN_STATUS_OUT_OF_RANGE); x.verify(); x.finish();
    }); });
}
// ---- strings -----------------------------------------------------------------------------------
static ZyanStringView sv(const char* p, U n) { ZyanStringView w; OK(ZyanStringViewInsideBufferEx(&w, p, n)); return w; }
static U vsize(const ZyanStringView& w) { U n = 0; OK(ZyanStringViewGetSize(&w, &n)); return n; }
static const char* vdata(const ZyanStringView& w) { const char* p = nullptr; OK(ZyanStringViewGetData(&w, &p)); return p; }
struct Str {
    ZyanString s; Alloc t; Zone buf; Runs m; bool fixed; char* big = nullptr; U bn = G4 + 100;
    void start(U n, bool fx, int g) {
        fixed = fx; text("string of %llu characters, %s: ", (unsigned long long)n, fx ? "fixed buffer" : g == 1 ? "growth 1" : "growth 2"); big = repeated(bn);
        if (fx) { buf.init(n + 6); OK(ZyanStringInitCustomBuffer(&s, (char*)buf.p, n + 6)); } else OK(ZyanStringInitEx(&s, g == 1 ? n : 0, &t.base, (ZyanU8)g, (ZyanU8)(g == 1 ? 1 : 4)));
        OK(ZyanStringResize(&s, n)); m.resize(n, -1); verify(); zero(fx ? buf.p : t.live.begin()->second.p, n); m.r.clear(); m.resize(n, 0); int c = 0; for (U i : marks(n)) set(i, (char)('A' + c++ % 26)); verify();
    }
    void set(U i, char c) { OK(ZyanStringSetChar(&s, i, c)); m.set(i, c); }
    uint8_t* data() { return fixed ? buf.p : t.live.begin()->second.p; }
    void verify() {
        U n = 0, c = 0; OK(ZyanStringGetSize(&s, &n)); OK(ZyanStringGetCapacity(&s, &c)); CHECK(n == m.size(), "size %llu instead of %llu", (unsigned long long)n, (unsigned long long)m.size()); CHECK(c >= n, "capacity %llu is less than the size %llu", (unsigned long long)c, (unsigned long long)n);
        CHECK(t.live.size() == (fixed ? 0u : 1u), "no storage"); const char* p = nullptr; OK(ZyanStringGetData(&s, &p)); CHECK(p == (char*)data(), "the characters are not in the storage"); U have = fixed ? buf.n : t.live.begin()->second.n; CHECK(c + 1 <= have, "capacity %llu in %llu bytes", (unsigned long long)c, (unsigned long long)have);
        CHECK(p[n] == 0, "not terminated"); for (U i : m.points()) { char k = 1; ST(ZyanStringGetChar(ZYAN_STRING_TO_VIEW(&s), i, &k), ZYAN_STATUS_SUCCESS); int64_t w = m.at(i); CHECK(k == p[i] && (w < 0 || k == (char)w), "character %llu is 0x%02x instead of 0x%02x", (unsigned long long)i, (unsigned char)k, (unsigned)w); }
        for (U i : {n, n + 1, n + G4, n + G2}) { char k; char* q; if (i > n) ST(ZyanStringGetChar(ZYAN_STRING_TO_VIEW(&s), i, &k), ZYAN_STATUS_OUT_OF_RANGE); ST(ZyanStringSetChar(&s, i, 'x'), ZYAN_STATUS_OUT_OF_RANGE); if (i > n) ST(ZyanStringGetCharMutable(&s, i, &q), ZYAN_STATUS_OUT_OF_RANGE); }
        if (fixed) buf.check(); else t.live.begin()->second.check();
    }
    bool fits(U k) { return !fixed || m.size() + k + 1 <= buf.n; }
    void put(U at, const std::string& x) { for (size_t i = 0; i < x.size(); i++) m.insert(at + i, 1, (unsigned char)x[i]); }
    void step() {
        U n = m.size(); std::vector<U> P; for (U q : {n, n - 1, n - 7}) if (q <= n) P.push_back(q);
        static const U SI[4] = {G4 + 3, G2 + 1, 17, G4 - 2}; auto piece = [&](U i, U k) { std::string x; while (k--) x += letter(i++); return x; };
#define FIT(k, call) if (!fits(k)) { ST(call, ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); break; } OK(call);
        switch (choose(12)) {
        case 0: { ZyanStringView w = sv("xyz", 3); text("append "); FIT(3, ZyanStringAppend(&s, &w)) put(n, "xyz"); break; }
        case 1: { ZyanStringView w = sv(big, bn); U i = SI[choose(4)]; text("append 4 from %llu ", (unsigned long long)i); FIT(4, ZyanStringAppendEx(&s, &w, i, 4)) put(n, piece(i, 4)); break; }
        case 2: { ZyanStringView w = sv("UV", 2); U p = P[choose((int)P.size())]; text("insert at %llu ", (unsigned long long)p); FIT(2, ZyanStringInsert(&s, p, &w)) put(p, "UV"); break; }
        case 3: { ZyanStringView w = sv(big, bn); U i = SI[choose(4)], p = P[choose((int)P.size())]; text("insert 3 from %llu at %llu ", (unsigned long long)i, (unsigned long long)p); FIT(3, ZyanStringInsertEx(&s, p, &w, i, 3)) put(p, piece(i, 3)); break; }
        case 4: { if (n < 30) throw Abort(); U a[6] = {n - 4, n - 9, 5, 0, n / 2, n - 1}, k[6] = {2, 9, n - 14, n, n - n / 2, 1}; int z = choose(6); text("delete %llu at %llu ", (unsigned long long)k[z], (unsigned long long)a[z]); OK(ZyanStringDelete(&s, a[z], k[z])); m.erase(a[z], k[z]); break; }
        case 5: { U a[5] = {n, n - 1, n / 2, G4 - 1, G2 + 1}; int z = choose(5); if (a[z] > n) throw Abort(); text("truncate at %llu ", (unsigned long long)a[z]); ZyanStatus r = ZyanStringTruncate(&s, a[z]); CHECK(ok(r) || (a[z] == n && r == ZYAN_STATUS_INVALID_ARGUMENT), "truncate: %s", st_name(r)); m.resize(a[z], 0); break; }
        case 6: { U a[6] = {n + 1, n - 1, n + G2, n + G4, G4 + 5, 3}; int z = choose(6); if (a[z] > n + G4) throw Abort(); text("resize(%llu) ", (unsigned long long)a[z]); if (a[z] > n) { FIT(a[z] - n, ZyanStringResize(&s, a[z])) } else OK(ZyanStringResize(&s, a[z])); m.resize(a[z], -1); break; }
        case 7: { U L[4] = {0, n, n + 1, n + G4}; U k = L[choose(4)]; text("reserve(%llu) ", (unsigned long long)k); U c = 0; ZyanStringGetCapacity(&s, &c); if (fixed && k > c) { ST(ZyanStringReserve(&s, k), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); break; } OK(ZyanStringReserve(&s, k)); U c2 = 0; ZyanStringGetCapacity(&s, &c2); CHECK(c2 >= k, "capacity %llu after reserving %llu", (unsigned long long)c2, (unsigned long long)k); break; }
        case 8: text("shrink "); OK(ZyanStringShrinkToFit(&s)); { U c = 0; ZyanStringGetCapacity(&s, &c); CHECK(fixed || c == n, "capacity %llu after shrinking to %llu characters", (unsigned long long)c, (unsigned long long)n); } break;
        case 9: if (choose(2)) { text("append hex "); FIT(9, ZyanStringAppendHexU(&s, 0x1ABCDEF23ull, 0, ZYAN_TRUE)) put(n, "1ABCDEF23"); } else { text("append format "); FIT(5, ZyanStringAppendFormat(&s, "%s-%d", "ab", 42)) put(n, "ab-42"); } break;
        case 10: { if (n < 10) throw Abort(); for (U k = 0; k < 8; k++) set(n - 8 + k, "aZ@[`{zQ"[k]); bool up = choose(2); text("%s case of the end ", up ? "upper" : "lower"); OK(up ? ZyanStringToUpperCaseEx(&s, n - 7, 6) : ZyanStringToLowerCaseEx(&s, n - 7, 6)); for (U k = 1; k < 7; k++) { char c = "aZ@[`{zQ"[k]; m.set(n - 8 + k, up ? (c >= 'a' && c <= 'z' ? c - 32 : c) : c >= 'A' && c <= 'Z' ? c + 32 : c); } break; }
        default: { if (n < 40) throw Abort(); for (U k = 0; k < 6; k++) { set(n - 12 + k, "needle"[k]); set(n - 30 + k, "NEEDLE"[k]); } ZyanStringView w = sv("needle", 6); const ZyanStringView* h = ZYAN_STRING_TO_VIEW(&s); ZyanISize f = -9; text("search near the end ");
            ST(ZyanStringLPosEx(h, &w, &f, n - 35, 35), ZYAN_STATUS_TRUE); CHECK(f == (ZyanISize)(n - 12), "found at %lld", (long long)f); ST(ZyanStringLPosIEx(h, &w, &f, n - 35, 34), ZYAN_STATUS_TRUE); CHECK(f == (ZyanISize)(n - 30), "found at %lld", (long long)f);
            ST(ZyanStringRPos(h, &w, &f), ZYAN_STATUS_TRUE); CHECK(f == (ZyanISize)(n - 12), "found at %lld", (long long)f); ST(ZyanStringRPosIEx(h, &w, &f, n - 10, 25), ZYAN_STATUS_TRUE); CHECK(f == (ZyanISize)(n - 30), "found at %lld", (long long)f); ST(ZyanStringRPosI(h, &w, &f), ZYAN_STATUS_TRUE); CHECK(f == (ZyanISize)(n - 12), "found at %lld", (long long)f);
            ST(ZyanStringLPosEx(h, &w, &f, n - 11, 11), ZYAN_STATUS_FALSE); CHECK(f == -1, "found at %lld", (long long)f); ST(ZyanStringLPosEx(h, &w, &f, n - 1, 2), ZYAN_STATUS_OUT_OF_RANGE); ST(ZyanStringRPosEx(h, &w, &f, n - 1, n), ZYAN_STATUS_OUT_OF_RANGE); break; }
        }
        verify(); n = m.size(); if (n) { set(n - 1, '#'); if (n > 5) set(n - 5, '+'); verify(); }
    }
    void finish() { OK(ZyanStringDestroy(&s)); t.none(); buf.done(); unrepeat(big, bn); big = nullptr; }
    ~Str() { if (buf.p) release(buf.p, buf.n); if (big) unrepeat(big, bn); }
};
static void strings(U n, bool fixed, int g, int depth) {
    task("string n=" + std::to_string(n) + (fixed ? " fixed" : g == 1 ? " growth=1" : " growth=2"), [=] { dfs([=] { Str x; x.start(n, fixed, g); for (int k = 0; k < depth; k++) x.step(); x.finish(); }); });
}
static void views(U L) {
    task("views of " + std::to_string(L) + " characters", [=] { dfs([=] {
        char* b = repeated(L + 1); b[L] = 0; ZyanStringView v = sv(b, L); text("view of %llu characters: ", (unsigned long long)L); CHECK(vsize(v) == L && vdata(v) == b, "the view has %llu characters", (unsigned long long)vsize(v));
        ZyanStringView w; U a[8] = {0, 1, 17, L / 2, L - 5, L - 1, L, L > G4 + 3 ? G4 + 3 : L > G2 + 3 ? G2 + 3 : L > 65539 ? 65539 : L > 259 ? 259 : 131}; U i = a[choose(8)]; if (i > L) throw Abort(); U ks[7] = {0, 1, 4, L - i, L - i + 1, (L - i) / 2, L - i + G4}; U k = ks[choose(7)]; text("inside view (%llu,%llu) ", (unsigned long long)i, (unsigned long long)k);
        ZyanStatus s = ZyanStringViewInsideViewEx(&w, &v, i, k);
        if (k > L - i) CHECK(s == ZYAN_STATUS_OUT_OF_RANGE, "range outside the view: %s", st_name(s));
        else { CHECK(ok(s), "inside view: %s", st_name(s)); CHECK(vsize(w) == k && (!k || vdata(w) == b + i), "the view has %llu characters from %lld", (unsigned long long)vsize(w), (long long)(vdata(w) - b)); char c = 0; if (k) { OK(ZyanStringGetChar(&w, k - 1, &c)); CHECK(c == letter(i + k - 1), "wrong last character"); }
            // compared with its own beginning, whose length differs only in the high bits
            for (U cut : {(U)128, (U)256, (U)32768, (U)65536, G2, G4}) if (k > cut && k - cut < 200) { ZyanStringView q = sv(b + i, k - cut); ZyanI32 r = 7; ST(ZyanStringCompare(&w, &q, &r), ZYAN_STATUS_FALSE); CHECK(r > 0, "a longer string is not greater"); ST(ZyanStringCompare(&q, &w, &r), ZYAN_STATUS_FALSE); CHECK(r < 0, "a shorter string is not less"); ST(ZyanStringCompareI(&w, &q, &r), ZYAN_STATUS_FALSE); CHECK(r > 0, "a longer string is not greater"); ST(ZyanStringCompareI(&q, &w, &r), ZYAN_STATUS_FALSE); CHECK(r < 0, "a shorter string is not less");
                ZyanISize f = -9; ST(ZyanStringLPos(&q, &w, &f), ZYAN_STATUS_FALSE); CHECK(f == -1, "a longer string was found in a shorter one"); ST(ZyanStringRPos(&q, &w, &f), ZYAN_STATUS_FALSE); CHECK(f == -1, "a longer string was found in a shorter one"); }
            // a copy into a buffer that is large enough only for the low bits of the length
            char small[512]; memset(small, 0x55, sizeof small); ZyanString d; if (k > 300) { ST(ZyanStringDuplicateCustomBuffer(&d, &w, small, 200), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); ZyanStringView e = sv("x", 1); ST(ZyanStringConcatCustomBuffer(&d, &w, &e, small, 200), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); ST(ZyanStringConcatCustomBuffer(&d, &e, &w, small, 200), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); OK(ZyanStringInitCustomBuffer(&d, small, 200)); ST(ZyanStringAppend(&d, &w), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); ST(ZyanStringInsert(&d, 0, &w), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); U z = 9; OK(ZyanStringGetSize(&d, &z)); CHECK(z == 0, "content after a failed append"); }
            else { OK(ZyanStringDuplicateCustomBuffer(&d, &w, small, 512 - 1)); for (U j = 0; j < k; j++) CHECK(small[j] == letter(i + j), "copied the wrong characters"); CHECK(!small[k], "not terminated"); } }
        unrepeat(b, L + 1);
    }); });
}
// ---- whole passes over more than four gibibytes ---------------------------------------------------
static const U LL = G4 + 77;
static void whole() {
    auto each = [](const char* nm, std::function<void()> f) { task(std::string("whole: ") + nm, [=] { E().s->patience = 240; dfs([=] { text("%s ", nm); f(); }); E().s->patience = 0; }); };
    static char* b; static char* c; auto two = [](std::function<void()> f) { b = repeated(LL + 1); b[LL] = 0; c = repeated(LL + 1); c[LL] = 0; f(); unrepeat(b, LL + 1); unrepeat(c, LL + 1); };
    for (int ci = 0; ci < 2; ci++) {
        each(ci ? "case-insensitive comparison" : "comparison", [=] { two([=] { ZyanStringView x = sv(b, LL), y = sv(c, LL); ZyanI32 r = 9; c[LL - 1] = '~'; c[LL - 3] = ci ? (char)(letter(LL - 3) - 32) : letter(LL - 3); auto f = ci ? ZyanStringCompareI : ZyanStringCompare; ST(f(&x, &y, &r), ZYAN_STATUS_FALSE); CHECK(r < 0, "result %d", r); beat(); c[LL - 1] = letter(LL - 1); ST(f(&y, &x, &r), ZYAN_STATUS_TRUE); CHECK(r == 0, "result %d", r); }); });
        each(ci ? "case-insensitive left search" : "left search", [=] { two([=] { ZyanStringView x = sv(b, LL), y = sv("nEedLe", 6); memcpy(b + LL - 20, ci ? "NEEdlE" : "nEedLe", 6); ZyanISize f = -9; ST(ci ? ZyanStringLPosI(&x, &y, &f) : ZyanStringLPos(&x, &y, &f), ZYAN_STATUS_TRUE); CHECK(f == (ZyanISize)(LL - 20), "found at %lld", (long long)f); }); });
        each(ci ? "case-insensitive right search" : "right search", [=] { two([=] { ZyanStringView x = sv(b, LL), y = sv("nEedLe", 6); memcpy(b + 40, ci ? "NEEdlE" : "nEedLe", 6); ZyanISize f = -9; ST(ci ? ZyanStringRPosI(&x, &y, &f) : ZyanStringRPos(&x, &y, &f), ZYAN_STATUS_TRUE); CHECK(f == 40, "found at %lld", (long long)f); }); });
    }
    auto copied = [](const char* p, U n) { CHECK(p[n] == 0, "not terminated"); for (U i = n - 500; i < n; i++) if (p[i] != letter(i)) fail("character %llu is wrong", (unsigned long long)i); for (U i = 0; i < CH; i += 97) if (p[i] != letter(i)) fail("character %llu is wrong", (unsigned long long)i); };
    each("duplicate", [=] { two([=] { ZyanStringView x = sv(b, LL); Alloc t; t.alias = true; ZyanString d; OK(ZyanStringDuplicateEx(&d, &x, 0, &t.base, 1, 1)); CHECK(vsize(*ZYAN_STRING_TO_VIEW(&d)) == LL, "size"); copied(vdata(*ZYAN_STRING_TO_VIEW(&d)), LL); OK(ZyanStringDestroy(&d)); t.none(); }); });
    each("concatenation", [=] { two([=] { U h = (U)G2 + 48; ZyanStringView x = sv(b, h), y = sv(b + h, LL - h); Alloc t; t.alias = true; ZyanString d; OK(ZyanStringConcatEx(&d, &x, &y, 0, &t.base, 1, 1)); CHECK(vsize(*ZYAN_STRING_TO_VIEW(&d)) == LL, "size"); copied(vdata(*ZYAN_STRING_TO_VIEW(&d)), LL); OK(ZyanStringDestroy(&d)); t.none(); }); });
    each("append", [=] { two([=] { ZyanStringView x = sv(b, LL); Alloc t; t.alias = true; ZyanString d; OK(ZyanStringInitEx(&d, LL, &t.base, 1, 0)); OK(ZyanStringAppend(&d, &x)); CHECK(vsize(*ZYAN_STRING_TO_VIEW(&d)) == LL, "size"); copied(vdata(*ZYAN_STRING_TO_VIEW(&d)), LL); beat(); OK(ZyanStringToUpperCaseEx(&d, LL - 900, 900)); CHECK(vdata(*ZYAN_STRING_TO_VIEW(&d))[LL - 1] == letter(LL - 1) - 32, "case"); OK(ZyanStringDestroy(&d)); t.none(); }); });
    each("vector copy and range insertion", [=] { two([=] { ZyanVector v, w; Alloc t; t.alias = true; OK(ZyanVectorInitEx(&v, 1, LL + 1, nullptr, &t.base, 1, 0)); OK(ZyanVectorInsertRange(&v, 0, b, LL + 1)); U n = 0; OK(ZyanVectorGetSize(&v, &n)); CHECK(n == LL + 1, "size"); copied((char*)ZyanVectorGet(&v, 0), LL); beat(); OK(ZyanVectorDuplicateEx(&w, &v, 0, &t.base, 1, 0)); OK(ZyanVectorGetSize(&w, &n)); CHECK(n == LL + 1, "size"); copied((char*)ZyanVectorGet(&w, 0), LL); OK(ZyanVectorDestroy(&v)); OK(ZyanVectorDestroy(&w)); t.none(); }); });
    each("case conversion", [=] { char* d = repeated(LL + 1, true); ZyanString s; OK(ZyanStringInitCustomBuffer(&s, d, LL + 1)); OK(ZyanStringResize(&s, LL)); for (U i = LL - 300; i < LL; i++) d[i] = letter(i); d[LL - 301] = '?'; OK(ZyanStringToUpperCase(&s)); for (U i = LL - 300; i < LL; i++) CHECK(d[i] == letter(i) - 32, "character %llu not converted", (unsigned long long)i); beat(); OK(ZyanStringToLowerCase(&s)); for (U i = LL - 300; i < LL; i++) CHECK(d[i] == letter(i), "character %llu not converted", (unsigned long long)i); unrepeat(d, LL + 1); });
    each("view of a terminated buffer", [=] { two([=] { ZyanStringView x; OK(ZyanStringViewInsideBuffer(&x, b)); CHECK(vsize(x) == LL, "%llu characters", (unsigned long long)vsize(x)); }); });
    for (int part = 0; part < 3; part++) each(part == 0 ? "bitset bits" : part == 1 ? "bitset in a buffer" : "bitset aggregates", [=] {
        bool fx = part == 1; U n = fx ? G4 + 8 : G4 + 75; ZyanBitset x; Alloc t; Zone z; if (fx) { z.init(n / 8); OK(ZyanBitsetInitBuffer(&x, n, z.p, n / 8)); } else OK(ZyanBitsetInitEx(&x, n, &t.base, 1, 1)); beat(); text("bitset of %llu bits ", (unsigned long long)n);
        U k = 9; OK(ZyanBitsetGetSize(&x, &k)); CHECK(k == n, "%llu bits", (unsigned long long)k); OK(ZyanBitsetGetSizeBytes(&x, &k)); CHECK(k == (n + 7) / 8, "%llu bytes", (unsigned long long)k); OK(ZyanBitsetGetCapacity(&x, &k)); CHECK(k >= n, "capacity %llu", (unsigned long long)k);
        U at[8] = {0, 1, n - 1, n - 9, G4 + 5, G4 - 1, G2, n / 2}; std::map<U, bool> m; auto test = [&] { for (U q : at) for (U d : {(U)0, (U)1}) if (q + d < n) ST(ZyanBitsetTest(&x, q + d), m[q + d] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE); ST(ZyanBitsetTestMSB(&x), m[n - 1] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE); ST(ZyanBitsetTestLSB(&x), m[0] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE); for (U q : {n, n + G4, n + G2}) ST(ZyanBitsetTest(&x, q), ZYAN_STATUS_OUT_OF_RANGE); };
        test();
        if (part < 2) { // single bits
            for (U q : {n - 1, G4 + 5, G2}) { OK(ZyanBitsetSet(&x, q)); m[q] = true; test(); } for (U q : {n - 9, G4 - 1, n - 1}) { OK(ZyanBitsetToggle(&x, q)); m[q] = !m[q]; test(); } for (U q : {G4 + 5, n / 2}) { OK(ZyanBitsetAssign(&x, q, ZYAN_TRUE)); m[q] = true; test(); } OK(ZyanBitsetReset(&x, G4 + 5)); m[G4 + 5] = false; OK(ZyanBitsetAssign(&x, G2, ZYAN_FALSE)); m[G2] = false; test();
            for (U q : {n, n + G4}) { ST(ZyanBitsetSet(&x, q), ZYAN_STATUS_OUT_OF_RANGE); ST(ZyanBitsetReset(&x, q), ZYAN_STATUS_OUT_OF_RANGE); ST(ZyanBitsetToggle(&x, q), ZYAN_STATUS_OUT_OF_RANGE); } test();
            if (!fx) { for (int j = 0; j < 12; j++) { OK(ZyanBitsetPush(&x, ZYAN_TRUE)); } U n0 = n; n += 12; for (U q = n0; q < n; q++) m[q] = true; test(); for (int j = 0; j < 20; j++) { OK(ZyanBitsetPop(&x)); m.erase(--n); } OK(ZyanBitsetGetSize(&x, &k)); CHECK(k == n, "%llu bits", (unsigned long long)k); for (U q = n - 3; q < n; q++) ST(ZyanBitsetTest(&x, q), m[q] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE); OK(ZyanBitsetReserve(&x, G4 * 3)); OK(ZyanBitsetGetCapacity(&x, &k)); CHECK(k >= G4 * 3, "capacity %llu", (unsigned long long)k); OK(ZyanBitsetShrinkToFit(&x)); OK(ZyanBitsetGetCapacity(&x, &k)); CHECK(k >= n && k < n + 8, "capacity %llu for %llu bits", (unsigned long long)k, (unsigned long long)n); test(); }
            else { ST(ZyanBitsetPush(&x, ZYAN_TRUE), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); OK(ZyanBitsetGetSize(&x, &k)); CHECK(k == n, "%llu bits after a failed push", (unsigned long long)k); }
        } else {
            U ones = 0; for (U q : {n - 9, G4 - 1, G4 + 5}) { OK(ZyanBitsetSet(&x, q)); m[q] = true; ones++; } OK(ZyanBitsetCount(&x, &k)); CHECK(k == ones, "%llu bits are set instead of %llu", (unsigned long long)k, (unsigned long long)ones); beat(); for (U q : {n - 9, G4 - 1}) { OK(ZyanBitsetReset(&x, q)); m[q] = false; } ST(ZyanBitsetAny(&x), ZYAN_STATUS_TRUE); beat(); ST(ZyanBitsetNone(&x), ZYAN_STATUS_FALSE); beat();
            OK(ZyanBitsetSetAll(&x)); OK(ZyanBitsetReset(&x, n - 2)); m.clear(); for (U q : at) { m[q] = true; if (q + 1 < n) m[q + 1] = true; } m[n - 2] = false; test(); beat(); ST(ZyanBitsetAll(&x), ZYAN_STATUS_FALSE); beat(); OK(ZyanBitsetCount(&x, &k)); CHECK(k == n - 1, "%llu bits are set instead of %llu", (unsigned long long)k, (unsigned long long)(n - 1)); beat();
            OK(ZyanBitsetFlip(&x)); for (auto& e : m) e.second = !e.second; test(); beat(); OK(ZyanBitsetXOR(&x, &x)); m.clear(); test(); beat();
        }
        OK(ZyanBitsetDestroy(&x)); t.none(); z.done();
    });
    each("list of large elements", [=] {
        U es = G4 + 24; ZyanList l; Alloc t; OK(ZyanListInitEx(&l, es, nullptr, &t.base)); uint8_t* p[3];
        for (int i = 0; i < 3; i++) { void* q = nullptr; OK(i == 1 ? ZyanListEmplaceFront(&l, &q, nullptr) : ZyanListEmplaceBack(&l, &q, nullptr)); p[i] = (uint8_t*)q; bool in = false; for (auto& z : t.live) in |= p[i] > z.second.p && p[i] + es <= z.second.p + z.second.n; CHECK(in, "the element does not fit its node"); p[i][0] = (uint8_t)(i + 1); p[i][es - 1] = (uint8_t)(i + 11); }
        const ZyanListNode* nd; OK(ZyanListGetHeadNode(&l, &nd)); int order[3] = {1, 0, 2}; for (int k = 0; k < 3; k++) { const uint8_t* e = (const uint8_t*)ZyanListGetNodeData(nd); CHECK(e == p[order[k]] && e[0] == order[k] + 1 && e[es - 1] == order[k] + 11, "element %d", k); OK(ZyanListGetNextNode(&nd)); } CHECK(!nd, "a fourth node"); OK(ZyanListPopFront(&l)); OK(ZyanListClear(&l)); OK(ZyanListDestroy(&l)); t.none();
        Zone z; z.init((es + 32) * 2 + 5); ZyanListNode* probe = nullptr; (void)probe; OK(ZyanListInitCustomBuffer(&l, es, nullptr, z.p, z.n)); void *a = nullptr, *c = nullptr, *d = nullptr; OK(ZyanListEmplaceBack(&l, &a, nullptr)); OK(ZyanListEmplaceBack(&l, &c, nullptr)); CHECK((uint8_t*)a >= z.p && (uint8_t*)c >= z.p && (uint8_t*)a + es <= z.p + z.n && (uint8_t*)c + es <= z.p + z.n, "an element outside the buffer"); U dist = a < c ? (U)((uint8_t*)c - (uint8_t*)a) : (U)((uint8_t*)a - (uint8_t*)c); CHECK(dist >= es, "elements overlap");
        ST(ZyanListEmplaceBack(&l, &d, nullptr), ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE); U n = 0; OK(ZyanListGetSize(&l, &n)); CHECK(n == 2, "size %llu", (unsigned long long)n); OK(ZyanListPopBack(&l)); OK(ZyanListEmplaceFront(&l, &d, nullptr)); OK(ZyanListClear(&l)); OK(ZyanListDestroy(&l)); z.done();
    });
    each("page protection", [=] { U n = LL / PS * PS + PS; uint8_t* p = reserve(n); OK(ZyanMemoryVirtualProtect(p, n, ZYAN_PAGE_READONLY)); int fd[2]; if (pipe(fd)) fail("internal: no pipe"); auto wr = [&](U i) { return read(fd[0], p + i, 1) == 1; }; // the kernel refuses to write to a read-only page
        for (U i : {(U)0, G2, G4, n - 1}) { if (write(fd[1], "x", 1) != 1) fail("internal"); CHECK(!wr(i), "page %llu is still writable", (unsigned long long)(i / PS)); char c; if (read(fd[0], &c, 1) != 1) fail("internal"); }
        OK(ZyanMemoryVirtualProtect(p, n, ZYAN_PAGE_READWRITE)); for (U i : {(U)0, G2, G4, n - 1}) { if (write(fd[1], "x", 1) != 1) fail("internal"); CHECK(wr(i) && p[i] == 'x', "page %llu is not writable", (unsigned long long)(i / PS)); }
        OK(ZyanMemoryVirtualFree(p, n)); unsigned char vec; for (U i : {(U)0, G2, G4, n - PS}) CHECK(mincore(p + i / PS * PS, PS, &vec) < 0 && errno == ENOMEM, "page %llu is still mapped", (unsigned long long)(i / PS)); close(fd[0]); close(fd[1]); });
    // the library's own routines
    each("nolibc memchr", [=] { two([=] { b[LL - 7] = '!'; CHECK(nl_memchr(b, '!', LL) == b + LL - 7, "memchr"); beat(); CHECK(!nl_memchr(b, '!', LL - 7), "memchr beyond the end"); }); });
    each("nolibc memcmp", [=] { two([=] { c[LL - 7] = '~'; CHECK(nl_memcmp(b, c, LL) < 0, "memcmp"); beat(); CHECK(nl_memcmp(b, c, LL - 7) == 0, "memcmp beyond the end"); }); });
    each("nolibc memcpy", [=] { two([=] { char* d = repeated(LL + 64, true); CHECK(nl_memcpy(d, b, LL) == d, "memcpy"); for (U i = LL - 900; i < LL; i++) CHECK(d[i] == letter(i), "character %llu", (unsigned long long)i); CHECK((uint8_t)d[LL] == 0xEE, "memcpy beyond the end"); unrepeat(d, LL + 64); }); });
    each("nolibc memmove", [=] { two([=] { char* d = repeated(LL + 64, true); CHECK(nl_memmove(d, b, LL) == d, "memmove"); for (U i = LL - 900; i < LL; i++) CHECK(d[i] == letter(i), "character %llu", (unsigned long long)i); CHECK((uint8_t)d[LL] == 0xEE, "memmove beyond the end"); unrepeat(d, LL + 64); }); });
    each("nolibc memset", [=] { char* d = repeated(LL + 64, true); CHECK(nl_memset(d, 'k', LL) == d, "memset"); for (U i = LL - 900; i < LL; i++) CHECK(d[i] == 'k', "character %llu", (unsigned long long)i); CHECK((uint8_t)d[LL] == 0xEE, "memset beyond the end"); unrepeat(d, LL + 64); });
    each("nolibc strlen", [=] { two([=] { CHECK(nl_strlen(b) == LL, "strlen %llu", (unsigned long long)nl_strlen(b)); }); });
    each("nolibc strcmp", [=] { two([=] { c[LL - 7] = '~'; CHECK(nl_strcmp(b, c) < 0, "strcmp"); }); });
    each("nolibc strncmp", [=] { two([=] { c[LL - 7] = '~'; CHECK(nl_strncmp(b, c, LL) < 0, "strncmp"); beat(); CHECK(nl_strncmp(b, c, LL - 7) == 0, "strncmp beyond the end"); }); });
    each("nolibc strchr", [=] { two([=] { b[LL - 7] = '!'; CHECK(nl_strchr(b, '!') == b + LL - 7, "strchr"); }); });
    each("nolibc strrchr", [=] { two([=] { b[13] = '!'; b[LL - 7] = '!'; CHECK(nl_strrchr(b, '!') == b + LL - 7, "strrchr"); }); });
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough; int D = T ? 3 : 2;
        whole();
        for (U n : {G4 + 70, G4, G2, G4 - 1, G4 + 1, G2 + 1, G2 - 1}) for (int k = 0; k < 3; k++) { vectors(1, n, k == 2, k == 1 ? 1 : 2, false, D); strings(n, k == 2, k == 1 ? 1 : 2, D); }
        for (U n : {G2 + 5, G4 / 3 + 2, G4 + 5}) for (int k = 0; k < 3; k++) vectors(3, n, k == 2, k == 1 ? 1 : 2, false, D);
        for (U n : {(U)32769, (U)65539, (U)65537, (U)65535}) for (int k = 0; k < 3; k++) vectors(65536, n, k == 2, k == 1 ? 1 : 2, k == 0, 1 + T);
        // sizes at which an 8-bit or 16-bit count would wrap around
        for (U n : {(U)127, (U)128, (U)129, (U)255, (U)256, (U)257, (U)300, (U)32767, (U)32768, (U)32769, (U)65535, (U)65536, (U)65537, (U)70000}) {
            for (int k = 0; k < 3; k++) { vectors(1, n, k == 2, k == 1 ? 1 : 2, false, D); vectors(12, n, k == 2, k == 1 ? 1 : 2, false, 1 + T); strings(n, k == 2, k == 1 ? 1 : 2, D); } searches(1, n); searches(3, n); views(n);
        }
        for (U n : {G4 + 70, G2 + 3, G4 - 1}) { searches(1, n); searches(3, n); } searches(65536, 65539);
        for (U L : {G4 + 77, G4, G4 - 1, G2 + 9, G2, G2 - 1}) views(L);
    });
}
