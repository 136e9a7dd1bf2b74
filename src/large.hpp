// large.hpp - histories on large objects: bring the object to a size, then every sequence of one or
// more operations (ends, middle, bulk), optionally with an allocation failure in the last one.
#pragma once
#include "vec.hpp"
#include "str.hpp"
#include "bits.hpp"
#include "list.hpp"
// An explorer may run every history in a way of its own (C32, C33: once per build).
inline std::function<void(const std::function<void()>&)> g_history;
inline void histories(const std::function<void()>& f) { mc::dfs([&]() { if (g_history) g_history(f); else f(); }); }
// "Large" histories: bring the vector to a size, then one or two operations, then verify. Covers
// sizes, element sizes and growth parameters far beyond the closures.
inline void vec_large(VecCfg c, const std::vector<size_t>& sizes, int ck, int depth, bool faults = false, bool failctor = false) {
    size_t cap0 = c.fixcap; bool fixed = c.fixed;
    mc::task("large " + c.str(), [=]() { using namespace mc;
        histories([&]() {
            VecObj o; o.c = c; o.ck = ck; o.init();
            size_t n = sizes[choose((int)sizes.size())];
            if (fixed && n > cap0) throw Abort();
            int how = choose(4); if (n > 300 && how % 2 == 0) throw Abort();
            uint32_t x = 1000;
            if (how == 0) for (size_t i = 0; i < n; i++) o.push(x++);
            else if (how == 1) { std::vector<uint32_t> xs; for (size_t i = 0; i < n; i++) xs.push_back(x++); if (n) o.insert(0, xs, false); }
            else if (how == 2) { if (n > 64) throw Abort(); for (size_t i = 0; i < n; i++) o.insert(0, {x++}, true); }
            else { o.resize(n, 5); for (size_t i = 0; i < n; i += 1 + n / 9) o.set(i, x++); }
            for (int d = 0; d < (n > 1000 ? 1 : depth); d++) {
                n = o.m.size();
                size_t pos[4] = {0, n / 2, n ? n - 1 : 0, n}; size_t p = 0;
                int k = choose(10); bool f = faults && d == depth - 1 && k != 9 && choose(2);
                if (k >= 2 && k <= 5) { int z = choose(4); if (z && pos[z] == pos[z - 1]) throw Abort(); p = pos[z]; }
                switch (k) {
                case 0: o.push(x++, f); break;
                case 1: o.pop(f); break;
                case 2: o.insert(p, {x++}, true, f); break;
                case 3: { size_t ks[4] = {2, 3, 9, 70}; size_t kk = ks[choose(4)]; std::vector<uint32_t> xs; for (size_t i = 0; i < kk; i++) xs.push_back(x++); o.insert(p, xs, false, f); break; }
                case 4: o.emplace(p, x++, failctor && !f ? choose(3) : 1, true, f); break;
                case 5: { if (p >= n) { o.del(p, 1, true, f); break; } size_t ks[4] = {1, 2, n / 2, n - p}; int z = choose(4); size_t kk = ks[z]; if (kk == 0 || kk > n - p || (z == 3 && kk <= 2)) throw Abort(); o.del(p, kk, kk == 1, f); break; }
                case 6: { size_t ks[6] = {0, 1, n / 4, n / 2, n + 1, 2 * n + 3}; size_t kk = ks[choose(6)]; o.resize(kk, choose(2) ? 9 : -1, f); break; }
                case 7: { size_t ks[4] = {0, n, n + 1, 3 * n + 2}; o.reserve(ks[choose(4)], f); break; }
                case 8: o.shrink(f); break;
                case 9: if (n < 2) throw Abort(); o.swap(0, n - 1); o.set(n / 2, x++); break;
                }
                if (f && !o.fault_hit) throw Abort();
                if (f) E().sh->faults++;
                if (fixed && o.m.size() > cap0) fail("vector larger than its buffer");
            }
            o.destroy();
        });
    });
}

inline std::string seq(size_t n, unsigned k) { std::string s; for (size_t i = 0; i < n; i++) s += (char)(33 + (i * 7 + k * 13) % 94); return s; }
inline void str_large(StrCfg c, const std::vector<size_t>& sizes, int ck, int depth, bool faults = false) {
    mc::task("large " + c.str(), [=]() { using namespace mc;
        histories([&]() {
            StrObj o; o.c = c; o.ck = ck; o.init();
            size_t n = sizes[choose((int)sizes.size())];
            if (c.fixed && n + 1 > c.fixcap) throw Abort();
            int how = choose(3); if (how == 1 && n > 700) throw Abort();
            switch (how) {
            case 0: o.append(seq(n, 1)); break;
            case 1: for (size_t i = 0; i < n; i += 5) o.append(seq(std::min<size_t>(5, n - i), (unsigned)i)); break;
            case 2: o.resize(n); for (size_t i = 0; i < n; i += 1 + n / 7) o.set(i, (char)('A' + i % 50)); break;
            }
            if (choose(2)) o.shrink();
            unsigned k = 5;
            for (int d = 0; d < (n > 1000 ? 1 : depth); d++) {
                n = o.m.size(); size_t pos[4] = {0, n / 2, n ? n - 1 : 0, n}; size_t p = 0; k++;
                int op = choose(11); bool f = faults && d == depth - 1 && op != 9 && choose(2);
                if (op <= 3) { int z = choose(4); if (z && pos[z] == pos[z - 1]) throw Abort(); p = pos[z]; }
                switch (op) {
                case 0: { size_t L[4] = {1, 2, 15, 70}; o.insert(p, seq(L[choose(4)], k), f); break; }
                case 1: { std::string x = seq(20, k); switch (choose(4)) { case 0: o.insert_ex(p, x, 0, 20, f); break; case 1: o.insert_ex(p, x, 19, 1, f); break; case 2: o.insert_ex(p, x, 5, 9, f); break; default: o.insert_ex(p, x, 5, 16, f); } break; }
                case 2: { size_t L[5] = {1, 2, (n - p) / 2, n - p, n - p + 1}; int z = choose(5); if (!L[z] || (z == 2 && L[z] < 3) || (z == 3 && L[z] < 3)) throw Abort(); o.del(p, L[z], f); break; }
                case 3: o.truncate(p, f); break;
                case 4: { size_t L[4] = {1, 31, 33, 200}; o.append(seq(L[choose(4)], k), f); break; }
                case 5: { std::string x = seq(20, k); switch (choose(4)) { case 0: o.append_ex(x, 0, 20, f); break; case 1: o.append_ex(x, 19, 1, f); break; case 2: o.append_ex(x, 5, 9, f); break; default: o.append_ex(x, 21, 0, f); } break; }
                case 6: { size_t L[6] = {0, 1, n / 5, n, n + 1, 2 * n + 3}; o.resize(L[choose(6)], f); break; }
                case 7: { size_t L[5] = {0, n, n + 1, o.cap() + 1, 3 * n + 100}; o.reserve(L[choose(5)], f); break; }
                case 8: if (choose(2)) o.shrink(f); else o.clear(f); break;
                case 9: if (n) { o.set(n - 1, 'Q', choose(2)); o.conv(true, 0, 0, true); o.conv(false, n / 3, n - n / 3); } else throw Abort(); break;
                case 10: { std::string pf = "0x"; switch (choose(4)) { case 0: o.fmt(0, 18446744073709551615ull, 0, false, false, nullptr, f); break; case 1: o.fmt(1, (uint64_t)-1234567, 40, false, true, &pf, f); break; case 2: o.fmt(2, 0xDEADBEEFCAFEull, 255, true, false, nullptr, f); break; default: o.fmt(3, (uint64_t)INT64_MIN, 5, true, true, &pf, f); } break; }
                }
                if (f && !o.fault_hit) throw Abort();
                if (f) E().sh->faults++;
            }
            o.destroy();
        });
    });
}
// ---- bitsets of many sizes: every history "create, fill, one or two operations" ---------------
inline void bits_large(BitCfg c0, const std::vector<size_t>& sizes, int ck, int dmax, bool faults = false) {
    for (size_t n0 : sizes) mc::task("bits " + c0.str() + " size " + std::to_string(n0), [=]() { using namespace mc;
        histories([&]() {
            BitObj o; o.c = c0; o.ck = ck; int how = choose(2);
            if (c0.fixed && B8(n0) > c0.fixcap) throw Abort();
            int depth = n0 > 100 ? 1 : dmax; o.building = n0 > 20;
            if (how == 0) { o.c.n0 = n0; o.init(); } else { if (n0 > 70) throw Abort(); o.c.n0 = 0; o.init(); for (size_t i = 0; i < n0; i++) o.push((int)(i * 5 % 3 == 0)); }
            switch (choose(4)) { case 0: break; case 1: o.all(0); break; case 2: for (size_t i = 0; i < n0; i += 3) o.one(4, i); break; default: for (size_t i = 0; i < n0; i += 1 + n0 / 40) o.one((int)(i % 5), i); }
            o.building = false; o.verify();
            for (int d = 0; d < depth; d++) {
                size_t n = o.m.size(); size_t ps[6] = {0, 7, 8, n / 2, n ? n - 1 : 0, n};
                int k9 = choose(9); bool f = faults && d == depth - 1 && (k9 <= 1 || (k9 >= 4 && k9 <= 6)) && choose(2);
                switch (k9) {
                case 0: o.push(choose(2), f); break;
                case 1: if (choose(2)) o.pop(); o.pop(f); break;
                case 2: { int k = choose(6); o.one(choose(5), ps[k]); break; }
                case 3: o.all(choose(3)); break;
                case 4: o.clear(f); break;
                case 5: { size_t k = (size_t)choose(4); size_t L[4] = {0, n, n + 1, 2 * n + 17}; o.reserve(L[k], f); break; }
                case 6: o.shrink(f); break;
                case 7: { // down to (and past) the previous byte
                    size_t k = n % 8 + 1 + (size_t)choose(2) * 8; for (size_t i = 0; i < k && !o.m.empty(); i++) o.pop(); if (choose(2)) for (size_t i = 0; i < k; i++) o.push((int)(i & 1)); break; }
                case 8: {
                    BitObj p; p.building = n0 > 70; size_t pn[7] = {n, n ? n - 1 : 0, n + 1, n / 2, n + 8, 0, 2 * n}; size_t k = pn[choose(7)]; p.c.n0 = k; p.ck = 0; p.init();
                    int pat = choose(3); if (pat == 1) p.all(0); if (pat == 2) for (size_t i = 0; i < k; i += 2) p.one(0, i);
                    o.bulk(choose(6), p); p.destroy(); break; }
                }
                if (f && !o.fault_hit) throw Abort();
                if (f) E().sh->faults++;
            }
            o.destroy();
        });
    });
}
// lists of larger sizes: build in some order, then remove/insert at the ends and the middle
inline void list_large(ListCfg c, std::vector<size_t> sizes, int ck, int dmax, bool faults = false) {
    mc::task("large " + c.str(), [=]() { using namespace mc;
        histories([&]() {
            ListObj o; o.c = c; o.ck = ck; o.init();
            size_t n0 = sizes[choose((int)sizes.size())]; if (c.fixed && n0 > c.slots) throw Abort();
            uint32_t x = 1000; int depth = n0 > 100 ? 1 : dmax; o.building = n0 > 20;
            switch (choose(3)) { case 0: for (size_t i = 0; i < n0; i++) o.push(false, x++); break; case 1: for (size_t i = 0; i < n0; i++) o.push(i % 3 == 1, x++); break; default: o.resize(n0, 7); if (n0) { o.building = false; o.verify(); o.set(n0 / 2, x++); } }
            o.building = false; o.verify();
            for (int d = 0; d < depth; d++) {
                size_t n = o.m.size(); size_t ps[4] = {0, n / 2, n ? n - 1 : 0, (size_t)(n > 2 ? 1 : 0)};
                int k8 = choose(8); bool f = faults && d == depth - 1 && (k8 == 0 || k8 == 5 || k8 == 6) && choose(2);
                switch (k8) {
                case 0: o.push(choose(2), x++, f); break;
                case 1: o.pop(choose(2)); break;
                case 2: { int k = choose(4); if (!n) throw Abort(); o.remove(ps[k], ps[k], choose(2)); break; }
                case 3: { if (n < 2) throw Abort(); size_t a[4] = {0, n / 2, 0, 0}, b[4] = {n / 2, n - 1, n - 1, 1}; int k = choose(4); o.remove(a[k], b[k], true); break; }
                case 4: { if (!n) throw Abort(); o.set(ps[choose(4)], x++); break; }
                case 5: { size_t k[5] = {0, n / 2, n + 1, 2 * n + 3, n ? n - 1 : 0}; size_t w = k[choose(5)]; int sk = f && w > n ? (int)((w - n) / 2) * choose(2) : 0; o.resize(w, choose(2) ? 9 : -1, f, sk); break; }
                case 6: { int e = choose(2); o.emplace(e, x++, f ? 1 : choose(3), f); } break;
                case 7: { size_t k = 1 + (size_t)choose(2) * 3; for (size_t i = 0; i < k; i++) { o.pop(i & 1); } for (size_t i = 0; i < k + 2; i++) o.push(i & 1, x++); break; }
                }
                if (f && !o.fault_hit) throw Abort();
                if (f) E().sh->faults++;
            }
            o.destroy();
        });
    });
}
// Long runs of single growing operations: with a growth factor above one, n of them cause at most
// logarithmically many reallocations.
struct Runs {
    static size_t bound(size_t n) { size_t l = 0; while ((1ull << l) < n) l++; return 3 * l + 12; }
    Tracker t;
    uint64_t requests() const { return t.allocs + t.reallocs + heap::calls(); }
    void check(const char* what, size_t n, int g) {
        uint64_t k = requests();
        CHECK(k <= bound(n), "%s: %zu single growing operations with growth factor %d (0: default) caused %llu (re)allocations", what, n, g, (unsigned long long)k);
    }
};
inline void long_runs(bool T) {
    // growth 0 stands for objects initialised with the documented defaults (default heap)
    mc::task("long runs of growing operations", [=]() { using namespace mc;
        dfs([&]() {
            static const int G[] = {2, 3, 4, 16, 255, 0}; int gi = choose(6), g = G[gi]; bool df = gi == 5; int th = df ? 0 : choose(3); th = th == 0 ? 0 : th == 1 ? g : 255; heap::reset(); // what other executions in this worker requested does not count
            size_t c0 = choose(2) ? 100 : 0; int what = choose(10); size_t N = T ? 100000 : 20000, n = 0; Runs r; Tracker& t = r.t; ZyanStatus s = 0;
            static const char* nm[] = {"push", "insert in front", "emplace", "resize by one", "range insert", "string append", "string insert", "string number formatting", "string resize by one", "bitset push"};
            if (df) text("%zu times %s, default parameters, initial capacity %zu ", N, nm[what], c0); else text("%zu times %s, growth %d, threshold %d, initial capacity %zu ", N, nm[what], g, th, c0);
            uint64_t seen = 0; auto tick = [&]() { n++; if ((n & 1023) == 0) beat(); if (r.requests() > seen) { seen = r.requests(); r.check(nm[what], n, g); } };
            if (what < 5) {
                ZyanVector v; CHECK((df ? ZyanVectorInit(&v, 4, c0, nullptr) : ZyanVectorInitEx(&v, 4, c0, nullptr, &t.base, (ZyanU8)g, (ZyanU8)th)) == ZYAN_STATUS_SUCCESS, "initialization failed");
                uint32_t x = 7, xs[3] = {1, 2, 3}; void* e;
                size_t m = what == 1 ? 2000 : N;
                while (n < m) {
                    switch (what) { case 0: s = ZyanVectorPushBack(&v, &x); break; case 1: s = ZyanVectorInsert(&v, 0, &x); break; case 2: s = ZyanVectorEmplace(&v, &e, nullptr); break; case 3: s = ZyanVectorResize(&v, n + 1); break; default: s = ZyanVectorInsertRange(&v, n * 3, xs, 3); }
                    CHECK(s == ZYAN_STATUS_SUCCESS, "operation failed: %s", st_name(s)); tick();
                }
                r.check(nm[what], n, g); ZyanVectorDestroy(&v);
            } else if (what < 9) {
                ZyanString q; CHECK((df ? ZyanStringInit(&q, c0) : ZyanStringInitEx(&q, c0, &t.base, (ZyanU8)g, (ZyanU8)th)) == ZYAN_STATUS_SUCCESS, "initialization failed"); SrcView a("a");
                size_t m = what == 6 ? 2000 : N;
                while (n < m) {
                    switch (what) { case 5: s = ZyanStringAppend(&q, &a.v); break; case 6: s = ZyanStringInsert(&q, 0, &a.v); break; case 7: s = ZyanStringAppendDecU(&q, 7, 0); break; default: s = ZyanStringResize(&q, n + 1); }
                    CHECK(s == ZYAN_STATUS_SUCCESS, "operation failed: %s", st_name(s)); tick();
                }
                r.check(nm[what], n, g); ZyanStringDestroy(&q);
            } else {
                ZyanBitset b; CHECK((df ? ZyanBitsetInit(&b, c0) : ZyanBitsetInitEx(&b, c0, &t.base, (ZyanU8)g, (ZyanU8)th)) == ZYAN_STATUS_SUCCESS, "initialization failed");
                while (n < N) { s = ZyanBitsetPush(&b, (ZyanBool)(n & 1)); CHECK(s == ZYAN_STATUS_SUCCESS, "operation failed: %s", st_name(s)); tick(); }
                r.check(nm[what], n, g); ZyanBitsetDestroy(&b);
            }
            t.expect_no_leak("after destruction"); heap::expect_none("after destruction");
        });
    });
}
