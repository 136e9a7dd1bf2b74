// Explorer for C07: linear and binary search in vectors.
#include "vec.hpp"
#include <set>
using namespace mc;

// element: key in the first byte, serial number (position) behind it when there is room
struct Mon { const uint8_t *lo, *hi; const void* needle; size_t es; int mag; uint64_t calls; const char* err; };
static Mon M;
static const uint8_t* other(const void* l, const void* r, bool& left) {
    const void* e; M.calls++;
    if (r == M.needle) { e = l; left = true; } else if (l == M.needle) { e = r; left = false; } else { M.err = "neither argument of the comparison is the searched element"; return nullptr; }
    const uint8_t* p = (const uint8_t*)e;
    if (p < M.lo || p >= M.hi || (size_t)(p - M.lo) % M.es) { M.err = "an element outside the range was compared"; return nullptr; }
    return p;
}
static ZyanBool eqf(const void* l, const void* r) { bool a; const uint8_t* p = other(l, r, a); if (!p) return ZYAN_FALSE; return *p == *(const uint8_t*)M.needle; }
static ZyanI32 cmpf(const void* l, const void* r) {
    bool a; const uint8_t* p = other(l, r, a); if (!p) return 0;
    int d = (int)*p - (int)*(const uint8_t*)M.needle; if (!a) d = -d; if (!d) return 0;
    switch (M.mag) { case 0: return d < 0 ? -1 : 1; case 1: return d; default: return d < 0 ? INT32_MIN : INT32_MAX; }
}
struct Vec {
    pg::Mem<ZyanVector> store; ZyanVector& v = *(ZyanVector*)store.p; Guarded buf, needle; std::vector<uint8_t> keys, img, vimg; size_t es; Tracker t; int kind;
    Vec(size_t es_, int kind_, const std::vector<uint8_t>& k) : needle(pg::OTHER), keys(k), es(es_), kind(kind_) {
        ZyanStatus s; size_t n = k.size(), cp = n ? n + (kind == 2) : 1;
        if (kind == 0) { s = ZyanVectorInitEx(&v, es, n, nullptr, &t.base, 1, 0); } else { buf.init(es * cp); s = ZyanVectorInitCustomBuffer(&v, es, buf.p, cp, nullptr); }
        CHECK(s == ZYAN_STATUS_SUCCESS, "initialization failed: %s", st_name(s));
        std::vector<uint8_t> e(es);
        for (size_t i = 0; i < n; i++) { e[0] = k[i]; for (size_t j = 1; j < es; j++) e[j] = (uint8_t)(i * 31 + j); s = ZyanVectorPushBack(&v, e.data()); CHECK(s == ZYAN_STATUS_SUCCESS, "push failed: %s", st_name(s)); }
        img.assign((uint8_t*)&v, (uint8_t*)(&v + 1)); if (n) vimg.assign((uint8_t*)ZyanVectorGet(&v, 0), (uint8_t*)ZyanVectorGet(&v, 0) + n * es);
        needle.init(es);
    }
    ~Vec() { ZyanVectorDestroy(&v); }
    void show() { text("keys=["); for (auto k : keys) text("%d ", k); text("] "); }
    void prep(int key, size_t i, size_t n) {
        const uint8_t* d = (const uint8_t*)v.data; memset(needle.p, 0xE7, es); needle.p[0] = (uint8_t)key;
        M.lo = d + i * es; M.hi = d + (i + n) * es; M.needle = needle.p; M.es = es; M.calls = 0; M.err = nullptr;
    }
    void same() {
        CHECK(!M.err, "%s", M.err);
        CHECK(!memcmp(&v, img.data(), img.size()) && (vimg.empty() || !memcmp(v.data, vimg.data(), vimg.size())), "the search modified the vector");
        CHECK(needle.p[es - 1] == (es > 1 ? 0xE7 : needle.p[0]), "the search modified the searched element");
    }
    void find(int key, size_t i, size_t n, bool whole) {
        bool bad = i > keys.size() || n > keys.size() - i;
        prep(key, i, bad ? 0 : n); ZyanISize at = -77;
        ZyanStatus s = whole ? ZyanVectorFind(&v, needle.p, &at, eqf) : ZyanVectorFindEx(&v, needle.p, &at, eqf, i, n);
        same();
        if (bad) { CHECK(s == ZYAN_STATUS_OUT_OF_RANGE && !M.calls, "search in [%zu,+%zu) not refused: %s", i, n, st_name(s)); return; }
        // an index equal to the size: refusal and "not found" are both in line with the documentation
        if (i == keys.size() && s == ZYAN_STATUS_OUT_OF_RANGE) { CHECK(!M.calls, "refused search compared elements"); return; }
        ZyanISize want = -1; for (size_t k = i; k < i + n; k++) if (keys[k] == key) { want = (ZyanISize)k; break; }
        CHECK(s == (want < 0 ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE) && at == want, "find key %d in [%zu,+%zu): %s index %td, expected %td", key, i, n, st_name(s), at, want);
    }
    void bin(int key, size_t i, size_t n, bool whole, int mag) {
        bool bad = i > keys.size() || n > keys.size() - i; M.mag = mag;
        prep(key, i, bad ? 0 : n); ZyanUSize at = 7777777;
        ZyanStatus s = whole ? ZyanVectorBinarySearch(&v, needle.p, &at, cmpf) : ZyanVectorBinarySearchEx(&v, needle.p, &at, cmpf, i, n);
        same();
        if (bad) { CHECK(s == ZYAN_STATUS_OUT_OF_RANGE && !M.calls, "binary search in [%zu,+%zu) not refused: %s", i, n, st_name(s)); return; }
        size_t want = i + n; bool found = false;
        for (size_t k = i; k < i + n; k++) if (keys[k] >= key) { want = k; found = keys[k] == key; break; }
        CHECK(s == (found ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && at == want, "binary search for key %d in [%zu,+%zu): %s index %zu, expected %s index %zu", key, i, n, st_name(s), at, found ? "found," : "not found,", want);
    }
    bool sorted(size_t i, size_t n) { for (size_t k = i + 1; k < i + n; k++) if (keys[k] < keys[k - 1]) return false; return true; }
};
// ---- vectors of 32-bit keys, sizes around every power of two an index type could be cut to ----
struct Wide {
    pg::Mem<ZyanVector> store; ZyanVector& v = *(ZyanVector*)store.p; Tracker t; std::vector<uint32_t> keys;
    static inline const uint8_t *lo, *hi; static inline const void* nd; static inline const char* err;
    static const uint32_t* in(const void* l, const void* r, bool& left) {
        const void* e = r == nd ? (left = true, l) : (left = false, r);
        if (l != nd && r != nd) { err = "neither argument of the comparison is the searched element"; return nullptr; }
        const uint8_t* p = (const uint8_t*)e; if (p < lo || p >= hi || (p - lo) % 4) { err = "an element outside the range was compared"; return nullptr; }
        return (const uint32_t*)p;
    }
    static ZyanBool eq(const void* l, const void* r) { bool a; auto p = in(l, r, a); return p && *p == *(const uint32_t*)nd; }
    static ZyanI32 cmp(const void* l, const void* r) { bool a; auto p = in(l, r, a); if (!p) return 0; uint32_t k = *(const uint32_t*)nd; ZyanI32 d = *p < k ? -1 : *p > k; return a ? d : -d; }
    Wide(const std::vector<uint32_t>& k) : keys(k) {
        ZyanStatus s = ZyanVectorInitEx(&v, 4, k.size(), nullptr, &t.base, 1, 0); CHECK(s == ZYAN_STATUS_SUCCESS, "initialization failed: %s", st_name(s));
        for (uint32_t e : k) { s = ZyanVectorPushBack(&v, &e); CHECK(s == ZYAN_STATUS_SUCCESS, "push failed: %s", st_name(s)); }
        CHECK(v.size == k.size(), "%zu elements after %zu pushes", (size_t)v.size, k.size());
    }
    ~Wide() { ZyanVectorDestroy(&v); }
    void find(uint32_t key, size_t i, size_t n, bool whole) {
        nd = &key; lo = (const uint8_t*)v.data + 4 * i; hi = lo + 4 * n; err = nullptr; ZyanISize at = -77;
        ZyanStatus s = whole ? ZyanVectorFind(&v, &key, &at, eq) : ZyanVectorFindEx(&v, &key, &at, eq, i, n); CHECK(!err, "%s", err);
        if (i == keys.size() && s == ZYAN_STATUS_OUT_OF_RANGE) return;
        ZyanISize want = -1; for (size_t k = i; k < i + n; k++) if (keys[k] == key) { want = (ZyanISize)k; break; }
        CHECK(s == (want < 0 ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE) && at == want, "find key %u in [%zu,+%zu) of %zu elements: %s index %td, expected %td", key, i, n, keys.size(), st_name(s), at, want);
    }
    void bin(uint32_t key, size_t i, size_t n, bool whole) {
        nd = &key; lo = (const uint8_t*)v.data + 4 * i; hi = lo + 4 * n; err = nullptr; ZyanUSize at = 7777777;
        ZyanStatus s = whole ? ZyanVectorBinarySearch(&v, &key, &at, cmp) : ZyanVectorBinarySearchEx(&v, &key, &at, cmp, i, n); CHECK(!err, "%s", err);
        size_t want = std::lower_bound(keys.begin() + i, keys.begin() + i + n, key) - keys.begin(); bool f = want < i + n && keys[want] == key;
        CHECK(s == (f ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && at == want, "binary search for key %u in [%zu,+%zu) of %zu elements: %s index %zu, expected %s index %zu", key, i, n, keys.size(), st_name(s), (size_t)at, f ? "found," : "not found,", want);
    }
};
static void wide(size_t n) {
    std::set<size_t> ps; for (size_t c : {(size_t)0, n / 4, n / 2, n / 2 + n / 4, n, (size_t)127, (size_t)255, (size_t)32767, (size_t)65535}) for (int d = -2; d <= 2; d++) if (c + d <= n) ps.insert(c + d);
    if (n <= 1100) for (size_t i = 0; i <= n; i++) ps.insert(i);
    // a run of equal keys that starts at each of some positions, of several lengths
    size_t as[] = {0, n / 3, n - 1, n > 256 ? (size_t)254 : n / 2}, lens[] = {1, 3, n / 2, n}, a = as[choose(4)], len = lens[choose(4)];
    if (a + len > n) throw Abort();
    {
        std::vector<uint32_t> k; for (size_t i = 0; i < n; i++) k.push_back((uint32_t)(2 * (i >= a && i < a + len ? a : i) + 2));
        Wide x(k); pg::Seal sealed; text("%zu elements, %zu equal ones from %zu: ", n, len, a);
        for (size_t p : ps) {
            for (uint32_t key : {(uint32_t)(2 * p + 1), (uint32_t)(2 * p + 2)}) {
                x.find(key, 0, n, true); x.bin(key, 0, n, true);
                for (size_t q : {p, p ? p - 1 : 0, (size_t)1}) { if (q <= n) { x.find(key, q, n - q, false); x.bin(key, q, n - q, false); x.find(key, 0, q, false); x.bin(key, 0, q, false); } }
            }
            if (p <= n) { x.bin((uint32_t)(2 * p + 2), 0, p, false); x.find((uint32_t)(2 * p), 0, p, false); }
        }
    }
}
static const size_t HUGE_[] = {(size_t)-1, (size_t)-2, p2(63), (p2(63)) - 1, p2(32)};
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough; int N = T ? 7 : 6;
        size_t ess[] = {1, 4, 8, 12, 3};
        for (int ei = 0; ei < 5; ei++) for (int kind = 0; kind < 3; kind++) {
            size_t es = ess[ei]; int lim = ei == 1 ? N : 4;
            task("all contents es=" + std::to_string(es) + " kind=" + std::to_string(kind), [=]() { dfs([&]() {
                int n = choose(lim + 1); std::vector<uint8_t> k; for (int i = 0; i < n; i++) k.push_back((uint8_t)(10 * choose(3) + 10));
                Vec x(es, kind, k); x.show(); pg::Seal sealed;
                for (int key : {5, 10, 15, 20, 30, 35}) {
                    x.find(key, 0, (size_t)n, true); if (x.sorted(0, (size_t)n)) for (int m = 0; m < 3; m++) x.bin(key, 0, (size_t)n, true, m);
                    for (size_t i = 0; i <= (size_t)n + 1; i++) {
                        for (size_t c = 0; c + i <= (size_t)n + 2; c++) { x.find(key, i, c, false); if (i + c > (size_t)n || x.sorted(i, c)) for (int m = 0; m < 3; m++) x.bin(key, i, c, false, m); }
                        if (key == 20) for (size_t h : HUGE_) { x.find(key, i, h, false); x.find(key, h, i, false); x.find(key, i, h - i, false); x.find(key, h, 0 - h, false); x.find(key, h, 1 - h, false); x.bin(key, i, h, false, 0); x.bin(key, h, i, false, 0); x.bin(key, h, 0 - h, false, 0); x.bin(key, h, 1 - h, false, 0); }
                    }
                }
            }); });
        }
        for (size_t n : {127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 1000, 1025, 32767, 32769, 65535, 65536, 65537, 70000}) task("wide " + std::to_string(n), [n] { dfs([n] { wide(n); }); });
        // each element of a long vector, wherever it is, and each gap
        for (size_t n : {2048, 4099, 5003, 65600, 70001}) for (int st = 0; st < 2; st++) task("every place " + std::to_string(n) + (st ? " sorted" : ""), [=] { dfs([=] {
            std::vector<uint32_t> k; for (size_t i = 0; i < n; i++) k.push_back(st ? (uint32_t)(2 * i + 2) : (uint32_t)(2 * (i * 7919 % n) + 2)); Wide x(k); pg::Seal sealed;
            for (size_t i = 0; i < n; i++) { if (!(i & 255)) { beat(); text_reset(); text("%zu elements, from %zu: ", n, i); } if (st) { x.bin(k[i], 0, n, true); x.bin(k[i] + 1, 0, n, true); if (i % 61 == 0) { x.bin(k[i], i, n - i, false); x.bin(k[i], 0, i, false); } } else if (n < 6000 || i % 4096 < 2 || i % 4096 == 4095 || i % 997 == 0 || i + 3 > n) x.find(k[i], 0, n, true); }
            x.find(1, 0, n, true); }); });
        // longer sorted vectors: one run of duplicates anywhere
        int L = T ? 80 : 34;
        for (int sh = 0; sh < 4; sh++) task("long sorted " + std::to_string(sh), [=]() { dfs([&]() {
            int n = choose(L + 1), a = choose(n + 1), len = choose(n - a + 1); if (len == 1 || (len == 0 && a)) throw Abort();
            std::vector<uint8_t> k; for (int i = 0; i < n; i++) k.push_back((uint8_t)(2 * (i >= a && i < a + len ? a : i) + 2));
            Vec x(4, 0, k); x.show(); pg::Seal sealed;
            for (int key = 1; key <= 2 * n + 3; key++) {
                x.bin(key, 0, (size_t)n, true, key % 3); x.find(key, 0, (size_t)n, true);
                for (size_t i : {(size_t)0, (size_t)1, (size_t)n / 2, (size_t)a}) for (size_t e : {(size_t)n, (size_t)(n ? n - 1 : 0), (size_t)(a + len), (size_t)(a + len / 2)}) if (i <= e && e <= (size_t)n) { x.bin(key, i, e - i, false, 0); x.find(key, i, e - i, false); }
            }
        }, sh, 4); });
    });
}
