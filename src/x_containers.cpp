// Explorer for the properties that concern every container type:
//   C03 destruction, C04 fixed buffers, C05 allocation failures, C06 allocator protocol,
//   C16/C17 bitsets, C18/C19 lists, C30 failed construction (list part).
#include "large.hpp"
using namespace mc;
static std::string prop;

static VecCfg vdyn(size_t es, int g, int t, size_t cap0, bool dtor = false) { VecCfg q; q.es = es; q.growth = g; q.thr = t; q.cap0 = cap0; q.dtor = dtor; return q; }
static VecCfg vfix(size_t es, size_t n, bool dtor = false) { VecCfg q; q.es = es; q.fixed = true; q.fixcap = n; q.dtor = dtor; return q; }
static StrCfg sdyn(int g, int t, size_t c) { StrCfg q; q.growth = g; q.thr = t; q.cap0 = c; return q; }
static StrCfg sfix(size_t n) { StrCfg q; q.fixed = true; q.fixcap = n; return q; }
static BitCfg bdyn(size_t n, int g, int t) { BitCfg q; q.n0 = n; q.growth = g; q.thr = t; return q; }
static BitCfg bfix(size_t n, size_t b) { BitCfg q; q.n0 = n; q.fixed = true; q.fixcap = b; return q; }
static ListCfg ldyn(size_t es, bool dtor) { ListCfg q; q.es = es; q.dtor = dtor; return q; }
static ListCfg lfix(size_t es, size_t n, size_t extra, bool dtor) { ListCfg q; q.es = es; q.fixed = true; q.slots = n; q.extra = extra; q.dtor = dtor; return q; }

static void vec(VecCfg c, int ck, size_t maxn, bool faults, bool fc, int depth = 99, int nval = 2) { task("closure " + c.str() + " max=" + std::to_string(maxn), [=]() { VecSys y(c, ck, maxn, faults, fc, nval); bfs(y, depth); }); }
static void str(StrCfg c, int ck, size_t maxn, bool faults, bool fmt, int depth = 99) { task("closure " + c.str() + " max=" + std::to_string(maxn), [=]() { StrSys y(c, ck, maxn, faults, fmt); bfs(y, depth); }); }
static void bits(BitCfg c, int ck, size_t maxn, bool faults, bool bulk, std::vector<size_t> pos, int depth = 99) { task("closure " + c.str() + " max=" + std::to_string(maxn), [=]() { BitSys y(c, ck, maxn, faults, bulk, pos); bfs(y, depth); }); }
static void list(ListCfg c, int ck, size_t maxn, bool faults, bool fc, int depth = 99, int nval = 2) { task("closure " + c.str() + " max=" + std::to_string(maxn), [=]() { ListSys y(c, ck, maxn, faults, fc, nval); bfs(y, depth); }); }

// one-shot constructions with an allocation failure at every allocation, and their protocol
static void constructions() {
    task("constructions", []() {
        dfs([&]() {
            Tracker t, t2; heap::forbidden() = true;
            int what = choose(6), fail_at = choose(4), k = 0, sz = choose(4); size_t sizes[4] = {0, 1, 5, 40}; size_t n = sizes[sz];
            t.refuse = [&]() { return k++ == fail_at - 1; };
            text("construct kind %d of %zu elements, failing allocation %d ", what, n, fail_at);
            VecObj sv; sv.c = vdyn(4, 2, 4, 1); sv.init(); for (size_t i = 0; i < n; i++) sv.push((uint32_t)i);
            SrcView s1(std::string(n, 'x')), s2("tail");
            ZyanStatus st = ZYAN_STATUS_FAILED; ZyanVector v; ZyanString s; ZyanBitset b; bool ok = false;
            memset(&v, junk(0xEE), sizeof v); memset(&s, junk(0xEE), sizeof s); memset(&b, junk(0xEE), sizeof b);
            switch (what) {
            case 0: st = ZyanVectorInitEx(&v, 8, n, nullptr, &t.base, 2, 4); break;
            case 1: st = ZyanVectorDuplicateEx(&v, sv.v, n / 2, &t.base, 2, 4); break;
            case 2: st = ZyanStringInitEx(&s, n, &t.base, 2, 4); break;
            case 3: st = ZyanStringDuplicateEx(&s, &s1.v, n / 2, &t.base, 2, 4); break;
            case 4: st = ZyanStringConcatEx(&s, &s1.v, &s2.v, n / 2, &t.base, 2, 4); break;
            case 5: st = ZyanBitsetInitEx(&b, n * 3, &t.base, 2, 2); break;
            }
            ok = st == ZYAN_STATUS_SUCCESS;
            CHECK(ok == (t.failed == 0), "construction reported %s although %llu of its allocations failed", st_name(st), (unsigned long long)t.failed);
            if (t.failed) { E().sh->faults++; CHECK(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "construction reported %s on an allocation failure", st_name(st)); t.expect_no_leak("after a failed construction"); }
            else { t.refuse = nullptr; st = what < 2 ? ZyanVectorDestroy(&v) : what < 5 ? ZyanStringDestroy(&s) : ZyanBitsetDestroy(&b); CHECK(st == ZYAN_STATUS_SUCCESS, "destruction failed: %s", st_name(st)); t.expect_no_leak("after destruction"); }
            sv.verify(); sv.destroy(); s1.unchanged();
        });
    });
}
// two containers with different allocators interleaved: every block goes back to its own allocator
static void two_allocators(int depth) {
    task("two allocators", [=]() {
        dfs([&]() {
            VecObj a; a.c = vdyn(4, 2, 2, 0); a.ck = CK_CONTENT | CK_ALLOC; StrObj s; s.c = sdyn(1, 2, 0); ListObj l; l.c = ldyn(8, false); BitObj b; b.c = bdyn(3, 2, 2);
            a.init(); s.init(); l.init(); b.init(); s.shrink();
            for (int d = 0; d < depth; d++) switch (choose(8)) {
                case 0: a.push((uint32_t)d); break; case 1: if (a.m.empty()) throw Abort(); a.pop(); break;
                case 2: s.append("abc"); break; case 3: if (s.m.empty()) throw Abort(); s.truncate(0); break;
                case 4: l.push(d & 1, (uint32_t)d); break; case 5: if (l.m.empty()) throw Abort(); l.pop(d & 1); break;
                case 6: for (int i = 0; i < 9; i++) b.push(i & 1); break; case 7: b.clear(); break;
            }
            a.destroy(); s.destroy(); l.destroy(); b.destroy();
        });
    });
}
#include <Zycore/Allocator.h>
static void default_allocator() {
    task("default allocator", []() {
        dfs([&]() {
            heap::reset();
            ZyanAllocator* al = ZyanAllocatorDefault(); CHECK(al && al->allocate && al->reallocate && al->deallocate, "the default allocator is incomplete");
            static const size_t es[] = {1, 3, 8, 255, 4096, p2(31), (p2(32)) + 1, p2(33), p2(62), p2(63), ~(size_t)0};
            static const size_t ns[] = {1, 2, 7, 255, 4097, p2(31), p2(32), (p2(32)) + 1, p2(61), p2(63), ~(size_t)0};
            size_t e = es[choose(11)], n = ns[choose(11)], n2 = ns[choose(11)]; bool oom1 = choose(2), oom2 = choose(2); bool lib = choose(2);
            text("default allocator: %zu x %zu, then x %zu%s%s ", e, n, n2, oom1 ? " (allocation refused)" : "", oom2 ? " (reallocation refused)" : "");
            void* p = (void*)0x77; wide_t tot = (wide_t)e * n, tot2 = (wide_t)e * n2;
            heap::refuse() = [&]() { return oom1; };
            ZyanStatus s = al->allocate(al, &p, e, n);
            if (tot > heap::LIMIT || oom1) { CHECK(s == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "allocation of %zu x %zu bytes reported %s", e, n, st_name(s)); heap::expect_none("after a failed allocation"); return; }
            CHECK(s == ZYAN_STATUS_SUCCESS && heap::size_of(p) >= (size_t)tot, "allocation of %zu x %zu bytes: %s, block of %zu bytes", e, n, st_name(s), heap::size_of(p));
            memset(p, junk(0x3C), (size_t)tot);
            heap::refuse() = [&]() { return oom2; };
            void* o = p; s = al->reallocate(al, &p, e, n2); size_t keep = (size_t)tot;
            if (tot2 > heap::LIMIT || oom2) { CHECK(s == ZYAN_STATUS_NOT_ENOUGH_MEMORY && p == o && heap::size_of(p) >= (size_t)tot, "failed reallocation to %zu x %zu bytes reported %s or lost the block", e, n2, st_name(s)); n2 = n; }
            else { CHECK(s == ZYAN_STATUS_SUCCESS && heap::size_of(p) >= (size_t)tot2, "reallocation to %zu x %zu bytes: %s, block of %zu bytes", e, n2, st_name(s), heap::size_of(p)); keep = std::min(keep, (size_t)tot2); }
            for (size_t i = 0; i < keep; i += 1 + keep / 64) CHECK(((uint8_t*)p)[i] == 0x3C, "reallocation lost the contents");
            s = al->deallocate(al, p, e, n2); CHECK(s == ZYAN_STATUS_SUCCESS, "release failed: %s", st_name(s)); heap::expect_none("after release");
            (void)lib;
        });
    });
}

// Lists of many elements, around the sizes at which an 8-bit or 16-bit count would wrap around; linear checks only.
#include <deque>
#include <unordered_set>
struct Many { // an allocator with many blocks
    ZyanAllocator base; std::unordered_set<void*> live;
    static ZyanStatus A(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { *p = malloc(es * n); memset(*p, 0xCD, es * n); ((Many*)a)->live.insert(*p); return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus R(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { if (!((Many*)a)->live.erase(*p)) fail("reallocation of a block that is not allocated"); *p = realloc(*p, es * n); ((Many*)a)->live.insert(*p); return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus F(ZyanAllocator* a, void* p, ZyanUSize, ZyanUSize) { if (!((Many*)a)->live.erase(p)) fail("release of a block that is not allocated"); free(p); return ZYAN_STATUS_SUCCESS; }
    Many() { ZyanStatus s = ZyanAllocatorInit(&base, A, R, F); CHECK(s == ZYAN_STATUS_SUCCESS, "allocator: %s", st_name(s)); }
    ~Many() { for (void* p : live) free(p); }
};
static void list_long(bool fixed, bool dtor, const std::vector<size_t>& sizes = {100, 255, 256, 257, 1000, 4097, 32768, 65535, 65536, 65537, 70000}) {
    for (size_t n : sizes) if (fixed || E().thorough || n <= 4097 || n == (dtor ? 65537 : 65536) || n == (dtor ? 65535 : 70000)) for (int sh = 0; sh < (n > 5000 && !fixed ? 4 : 1); sh++) task(std::string("long list") + (fixed ? " in a buffer" : "") + (dtor ? " with destructor " : " ") + std::to_string(n) + " part " + std::to_string(sh), [=] { dfs([=] {
        static std::vector<uint32_t> dead; dead.clear(); Many t; Guarded g(pg::OTHER); ZyanList l; ZyanStatus s; std::deque<uint32_t> m; uint32_t x = 1; size_t slot = sizeof(ZyanListNode) + 4, cap = n + 3; ZyanMemberProcedure dt = dtor ? (ZyanMemberProcedure)[](void* p) { dead.push_back(*(uint32_t*)p); } : nullptr;
        if (fixed) { g.init(slot * cap); s = ZyanListInitCustomBuffer(&l, 4, dt, g.p, g.n); } else s = ZyanListInitEx(&l, 4, dt, &t.base); CHECK(s == ZYAN_STATUS_SUCCESS, "initialization failed: %s", st_name(s)); text("list of %zu elements: ", n);
        auto push = [&](bool front) { s = front ? ZyanListPushFront(&l, &x) : ZyanListPushBack(&l, &x); if (fixed && m.size() == cap) { CHECK(s == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "push onto a full list: %s", st_name(s)); return false; } CHECK(s == ZYAN_STATUS_SUCCESS, "push of element %zu: %s", m.size(), st_name(s)); if (front) m.push_front(x); else m.push_back(x); x++; if (!(x & 1023)) beat(); return true; };
        auto gone = [&](std::vector<uint32_t> w) { if (!dtor) return; std::sort(dead.begin(), dead.end()); std::sort(w.begin(), w.end()); CHECK(dead == w, "%zu elements were destroyed, %zu left the list, or not the same ones", dead.size(), w.size()); dead.clear(); };
        auto node = [&](size_t i) { const ZyanListNode* p = nullptr; if (i < m.size() / 2) { ZyanListGetHeadNode(&l, &p); while (i--) { CHECK(p, "the list ends early"); ZyanListGetNextNode(&p); } } else { ZyanListGetTailNode(&l, &p); for (size_t k = m.size() - 1; k > i; k--) { CHECK(p, "the list ends early"); ZyanListGetPrevNode(&p); } } CHECK(p, "element %zu is missing", i); return p; };
        auto same = [&] { beat(); ZyanUSize z = 9; CHECK(ZyanListGetSize(&l, &z) == ZYAN_STATUS_SUCCESS && z == m.size(), "size %zu, expected %zu", (size_t)z, m.size()); const ZyanListNode *p = nullptr, *b = nullptr; ZyanListGetHeadNode(&l, &p); for (size_t i = 0; i < m.size(); i++) { CHECK(p, "the list ends after %zu of %zu elements", i, m.size()); const uint32_t* d = (const uint32_t*)ZyanListGetNodeData(p); CHECK(!fixed || ((const uint8_t*)p >= g.p && (const uint8_t*)(d + 1) <= g.p + g.n), "a node outside the buffer"); CHECK(*d == m[i], "element %zu is %u, expected %u", i, *d, m[i]); ZyanListGetNextNode(&p); } CHECK(!p, "more elements than expected"); ZyanListGetTailNode(&l, &b); for (size_t i = m.size(); i--;) { CHECK(b, "the list ends early, backwards"); CHECK(*(const uint32_t*)ZyanListGetNodeData(b) == m[i], "element %zu differs, backwards", i); ZyanListGetPrevNode(&b); } CHECK(!b, "more elements than expected, backwards"); CHECK(fixed || t.live.size() == m.size(), "%zu nodes are allocated for %zu elements", t.live.size(), m.size()); };
        int order = choose(4); if (order == 3) { uint32_t e = 7; s = choose(2) ? ZyanListResizeEx(&l, n, &e) : ZyanListResize(&l, n); CHECK(s == ZYAN_STATUS_SUCCESS, "resize to %zu: %s", n, st_name(s)); const ZyanListNode* p; ZyanListGetHeadNode(&l, &p); while (p) { *(uint32_t*)ZyanListGetNodeData(p) = x; m.push_back(x++); ZyanListGetNextNode(&p); } } else for (size_t i = 0; i < n; i++) push(order == 1 || (order == 2 && i % 3 == 1)); text("built in order %d, ", order); same();
        std::vector<uint32_t> out; int op = choose(7); static const char* nm[] = {"pop half", "remove every other element", "shrink to one", "clear", "remove a range", "pop and push", "grow"}; text("%s ", nm[op]);
        switch (op) {
        case 0: for (size_t i = 0; i < n / 2; i++) { bool f = i % 3 == 0; out.push_back(f ? m.front() : m.back()); s = f ? ZyanListPopFront(&l) : ZyanListPopBack(&l); CHECK(s == ZYAN_STATUS_SUCCESS, "pop %zu: %s", i, st_name(s)); if (f) m.pop_front(); else m.pop_back(); } break;
        case 1: { const ZyanListNode* p; ZyanListGetHeadNode(&l, &p); std::deque<uint32_t> keep; for (size_t i = 0; i < n; i++) { const ZyanListNode* q = p; CHECK(p, "the list ends early"); ZyanListGetNextNode(&q); if (i & 1) { s = ZyanListRemove(&l, p); CHECK(s == ZYAN_STATUS_SUCCESS, "remove %zu: %s", i, st_name(s)); out.push_back(m[i]); } else keep.push_back(m[i]); p = q; } m = keep; break; }
        case 2: s = ZyanListResize(&l, 1); CHECK(s == ZYAN_STATUS_SUCCESS, "resize: %s", st_name(s)); out.assign(m.begin() + 1, m.end()); m.resize(1); break;
        case 3: s = ZyanListClear(&l); CHECK(s == ZYAN_STATUS_SUCCESS, "clear: %s", st_name(s)); out.assign(m.begin(), m.end()); m.clear(); break;
        case 4: { size_t as[] = {0, 1, n / 3, n > 70 ? n - 70 : 0}, bs[] = {n - 1, n - 2, n / 2, n > 300 ? (size_t)256 : n - 1}; size_t a = as[choose(4)], b = bs[choose(4)]; if (a > b) throw Abort(); text("%zu to %zu ", a, b); s = ZyanListRemoveRange(&l, node(a), node(b)); CHECK(s == ZYAN_STATUS_SUCCESS, "remove range: %s", st_name(s)); out.assign(m.begin() + (long)a, m.begin() + (long)b + 1); m.erase(m.begin() + (long)a, m.begin() + (long)b + 1); break; }
        case 5: for (size_t i = 0; i < n; i++) { out.push_back(m.front()); s = ZyanListPopFront(&l); CHECK(s == ZYAN_STATUS_SUCCESS, "pop: %s", st_name(s)); m.pop_front(); push(false); } break;
        default: if (fixed) { s = ZyanListResize(&l, cap + 1); CHECK(ZYAN_FAILED(s), "grown beyond the buffer: %s", st_name(s)); ZyanUSize z; ZyanListGetSize(&l, &z); CHECK(z >= n && z <= cap, "size %zu", (size_t)z); s = ZyanListResize(&l, n); CHECK(s == ZYAN_STATUS_SUCCESS, "resize: %s", st_name(s)); dead.clear(); } else { s = ZyanListResize(&l, n + 300); CHECK(s == ZYAN_STATUS_SUCCESS, "resize: %s", st_name(s)); const ZyanListNode* p; ZyanListGetTailNode(&l, &p); for (int i = 0; i < 300; i++) { *(uint32_t*)ZyanListGetNodeData(p) = x; m.insert(m.begin() + (long)n, x++); ZyanListGetPrevNode(&p); } } break;
        }
        same(); gone(out); size_t more = fixed ? cap + 1 - m.size() : 300; for (size_t i = 0; i < more; i++) push(i & 1); if (fixed) CHECK(m.size() == cap, "%zu elements in a buffer for %zu", m.size(), cap); same();
        out.assign(m.begin(), m.end()); s = ZyanListDestroy(&l); CHECK(s == ZYAN_STATUS_SUCCESS, "destruction failed: %s", st_name(s)); gone(out); CHECK(t.live.empty(), "%zu nodes are still allocated after destruction of the list", t.live.size()); if (fixed) g.release();
    }, sh, n > 5000 && !fixed ? 4 : 1); });
}
// long vectors with a destructor: each element that leaves is destroyed exactly once
static void vec_long_dtor() {
    for (size_t n : {300, 1000, 4097, 5003, 65535, 65536, 65537, 70001}) for (int kind = 0; kind < 3; kind++) task("destroyed elements of " + std::to_string(n) + "." + std::to_string(kind), [=] { dfs([=] {
        static std::vector<uint32_t> dead; dead.clear(); Many t; Guarded g; ZyanVector v; ZyanStatus s; uint32_t x = 1; std::vector<uint32_t> m, out; ZyanMemberProcedure dt = [](void* p) { dead.push_back(*(uint32_t*)p); };
        if (kind == 2) { g.init(4 * (n + 400)); s = ZyanVectorInitCustomBuffer(&v, 4, g.p, n + 400, dt); } else s = ZyanVectorInitEx(&v, 4, kind ? n : 1, dt, &t.base, 2, kind ? 0 : 4); CHECK(s == ZYAN_STATUS_SUCCESS, "initialization failed: %s", st_name(s)); text("vector of %zu elements: ", n);
        for (size_t i = 0; i < n; i++) { s = ZyanVectorPushBack(&v, &x); CHECK(s == ZYAN_STATUS_SUCCESS, "push %zu: %s", i, st_name(s)); m.push_back(x++); } beat(); CHECK(dead.empty(), "an element was destroyed by a push");
        auto gone = [&] { std::sort(dead.begin(), dead.end()); std::sort(out.begin(), out.end()); if (dead != out) { size_t i = 0; while (i < dead.size() && i < out.size() && dead[i] == out[i]) i++; fail("%zu elements were destroyed, %zu left the vector; the first difference is at element %u", dead.size(), out.size(), i < out.size() ? out[i] : dead[i]); } dead.clear(); out.clear(); beat(); };
        auto leave = [&](size_t a, size_t c) { out.insert(out.end(), m.begin() + (long)a, m.begin() + (long)(a + c)); m.erase(m.begin() + (long)a, m.begin() + (long)(a + c)); };
        size_t AT[] = {0, 1, n / 3, n - 300, n - 1}, CN[] = {1, 255, 256, 257, n / 2, n - 1, n, 65536}; int op = choose(6); uint32_t e = 0;
        if (op == 0) { size_t a = AT[choose(5)], c = CN[choose(8)]; if (a > n || c > n - a) throw Abort(); text("delete %zu at %zu ", c, a); s = ZyanVectorDeleteRange(&v, a, c); CHECK(s == ZYAN_STATUS_SUCCESS, "%s", st_name(s)); leave(a, c); gone(); }
        else if (op == 1) { size_t z[] = {0, 1, n / 2, n - 1, n - 256, n - 300, n > 65536 ? n - 65536 : 2, n}, k = z[choose(8)]; int ex = choose(2); text("resize to %zu ", k); s = ex ? ZyanVectorResizeEx(&v, k, &e) : ZyanVectorResize(&v, k); CHECK(s == ZYAN_STATUS_SUCCESS, "%s", st_name(s)); leave(k, n - k); gone(); }
        else if (op == 2) { text("clear "); s = ZyanVectorClear(&v); CHECK(s == ZYAN_STATUS_SUCCESS, "%s", st_name(s)); leave(0, n); gone(); }
        else if (op == 3) { text("set "); for (size_t i = 0; i < n; i += (i < 300 || i + 300 > n ? 1 : 97)) { s = ZyanVectorSet(&v, i, &x); CHECK(s == ZYAN_STATUS_SUCCESS, "%s", st_name(s)); out.push_back(m[i]); m[i] = x++; } gone(); }
        else if (op == 4) { text("pop and delete "); for (int i = 0; i < 260; i++) { s = ZyanVectorPopBack(&v); CHECK(s == ZYAN_STATUS_SUCCESS, "%s", st_name(s)); leave(m.size() - 1, 1); size_t a = m.size() / 2; s = m.size() ? ZyanVectorDelete(&v, a) : s; CHECK(s == ZYAN_STATUS_SUCCESS, "%s", st_name(s)); if (m.size()) leave(a, 1); if (m.empty()) break; } gone(); }
        else { text("insert "); std::vector<uint32_t> w; for (int i = 0; i < 300; i++) w.push_back(x++); size_t a = AT[choose(4)]; s = ZyanVectorInsertRange(&v, a, w.data(), 300); CHECK(s == ZYAN_STATUS_SUCCESS, "%s", st_name(s)); m.insert(m.begin() + (long)a, w.begin(), w.end()); gone(); }
        ZyanUSize z = 0; ZyanVectorGetSize(&v, &z); CHECK(z == m.size(), "size %zu, expected %zu", (size_t)z, m.size()); for (size_t i = 0; i < m.size(); i++) { const uint32_t* d = (const uint32_t*)ZyanVectorGet(&v, i); CHECK(d && *d == m[i], "element %zu is wrong", i); }
        text("destroy "); leave(0, m.size()); s = ZyanVectorDestroy(&v); CHECK(s == ZYAN_STATUS_SUCCESS, "%s", st_name(s)); gone(); CHECK(t.live.empty(), "%zu blocks left", t.live.size()); if (kind == 2) g.release();
    }); });
}
// large fixed buffers: everything that fits succeeds, nothing else, and nothing changes then
static void fixed_long() {
    for (size_t n : {300, 1000, 4097, 5003, 65535, 65536, 65537, 70001, 131073}) task("filling a buffer for " + std::to_string(n), [=] { dfs([=] {
        int kind = choose(3), how = choose(kind == 2 ? 2 : 5), left = choose(3); ZyanStatus s; Guarded g; const ZyanStatus FULL = ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE; text("kind %d, way %d, %d left: ", kind, how, left); beat(); heap::forbidden() = true;
        auto ok = [&](const char* w) { CHECK(s == ZYAN_STATUS_SUCCESS, "%s that fits: %s", w, st_name(s)); }; auto no = [&](const char* w) { CHECK(s == FULL, "%s that does not fit: %s", w, st_name(s)); };
        if (kind == 0) {
            ZyanVector v; g.init(4 * n); s = ZyanVectorInitCustomBuffer(&v, 4, g.p, n, nullptr); ok("initialization"); std::vector<uint32_t> m; uint32_t x = 1; std::vector<uint32_t> w(n + 1); for (auto& e : w) e = x++; void* e;
            auto same = [&] { ZyanUSize z = 0, c = 0; ZyanVectorGetSize(&v, &z); ZyanVectorGetCapacity(&v, &c); CHECK(z == m.size() && c == n, "size %zu, capacity %zu, expected %zu and %zu", (size_t)z, (size_t)c, m.size(), n); CHECK(!z || !memcmp(ZyanVectorGet(&v, 0), m.data(), 4 * z), "the contents are wrong"); };
            size_t k = n - (size_t)left; if (how == 0) for (size_t i = 0; i < k; i++) { s = ZyanVectorPushBack(&v, &w[i]); ok("push"); m.push_back(w[i]); } else if (how == 1) { s = ZyanVectorInsertRange(&v, 0, w.data(), k); ok("insertion"); m.assign(w.begin(), w.begin() + (long)k); } else if (how == 2) { s = ZyanVectorResizeEx(&v, k, &x); ok("resize"); m.assign(k, x); } else if (how == 3) { for (size_t i = 0; i < k; i++) { s = ZyanVectorEmplace(&v, &e, nullptr); ok("construction"); *(uint32_t*)e = w[i]; m.push_back(w[i]); } } else { s = ZyanVectorInsertRange(&v, 0, w.data(), k - 1); ok("insertion"); s = ZyanVectorInsert(&v, k / 2, &x); ok("insertion"); m.assign(w.begin(), w.begin() + (long)k - 1); m.insert(m.begin() + (long)(k / 2), x); }
            same(); for (int i = 0; i <= left; i++) { bool fit = i < left; size_t free_ = (size_t)(left - i); s = ZyanVectorInsertRange(&v, m.size() / 2, w.data(), free_ + 1); no("insertion"); s = ZyanVectorResizeEx(&v, m.size() + free_ + 1, &x); no("resize"); s = ZyanVectorReserve(&v, n + 1); no("reservation"); s = ZyanVectorReserve(&v, n); ok("reservation"); same(); if (!fit) { s = ZyanVectorPushBack(&v, &x); no("push"); s = ZyanVectorInsert(&v, 0, &x); no("insertion"); s = ZyanVectorEmplace(&v, &e, nullptr); no("construction"); s = ZyanVectorEmplaceEx(&v, 1, &e, nullptr); no("construction"); same(); } else if (i & 1) { s = ZyanVectorInsert(&v, 0, &x); ok("insertion"); m.insert(m.begin(), x); } else { s = ZyanVectorPushBack(&v, &x); ok("push"); m.push_back(x); } same(); }
            s = ZyanVectorDestroy(&v); ok("destruction");
        } else if (kind == 1) {
            ZyanString v; g.init(n + 1); s = ZyanStringInitCustomBuffer(&v, (char*)g.p, n + 1); ok("initialization"); std::string m, w; for (size_t i = 0; i <= n; i++) w += (char)('a' + i % 26); size_t k = n - (size_t)left; auto view = [&](const std::string& t) { ZyanStringView q; ZyanStringViewInsideBufferEx(&q, t.data(), t.size()); return q; };
            auto same = [&] { ZyanUSize z = 0, c = 0; const char* d = nullptr; ZyanStringGetSize(&v, &z); ZyanStringGetCapacity(&v, &c); ZyanStringGetData(&v, &d); CHECK(z == m.size() && c == n, "length %zu, capacity %zu, expected %zu and %zu", (size_t)z, (size_t)c, m.size(), n); CHECK(!memcmp(d, m.c_str(), z + 1), "the contents are wrong"); };
            ZyanStringView one = view(w.substr(0, 0) + "#"); std::string sh = "#"; one = view(sh); std::string body = w.substr(0, k); ZyanStringView all = view(body), part = view(w);
            if (how == 0) { s = ZyanStringAppend(&v, &all); ok("append"); m = body; } else if (how == 1) { s = ZyanStringInsert(&v, 0, &all); ok("insertion"); m = body; } else if (how == 2) { s = ZyanStringAppendEx(&v, &part, 1, k); ok("append"); m = w.substr(1, k); } else if (how == 3) { for (size_t i = 0; i < k; i++) { s = ZyanStringAppend(&v, &one); ok("append"); } m = std::string(k, '#'); } else { s = ZyanStringResize(&v, k); ok("resize"); for (size_t i = 0; i < k; i++) ZyanStringSetChar(&v, i, w[i]); m = body; }
            same(); for (int i = 0; i <= left; i++) { size_t free_ = (size_t)(left - i); std::string big(free_ + 1, '!'); ZyanStringView b = view(big); s = ZyanStringAppend(&v, &b); no("append"); s = ZyanStringInsert(&v, m.size() / 2, &b); no("insertion"); s = ZyanStringAppend(&v, &part); no("append"); s = ZyanStringResize(&v, n + 1); no("resize"); s = ZyanStringReserve(&v, n + 1); no("reservation"); s = ZyanStringReserve(&v, n); ok("reservation"); s = ZyanStringAppendHexU(&v, 0x1234, 4, ZYAN_FALSE); no("number"); s = ZyanStringAppendFormat(&v, "%d%d", 12, 34); no("text"); same(); if (free_) { if (i & 1) { s = ZyanStringInsert(&v, 0, &one); m = "#" + m; } else { s = ZyanStringAppend(&v, &one); m += '#'; } ok("one more character"); same(); } }
            s = ZyanStringDestroy(&v); ok("destruction");
        } else {
            ZyanBitset b; g.init(n); size_t bits = 8 * n - (size_t)left; s = ZyanBitsetInitBuffer(&b, bits, g.p, n); ok("initialization"); if (how) { s = ZyanBitsetClear(&b); ok("clear"); for (size_t i = 0; i < bits; i++) { s = ZyanBitsetPush(&b, i % 3 == 0); ok("push"); if (!(i & 4095)) beat(); } } else for (size_t i = 0; i < bits; i += 3) { s = ZyanBitsetSet(&b, i); ok("set"); } beat();
            for (size_t i = bits; i < 8 * n; i++) { s = ZyanBitsetPush(&b, i % 3 == 0); ok("push"); } s = ZyanBitsetPush(&b, ZYAN_TRUE); no("push"); s = ZyanBitsetReserve(&b, 8 * n + 1); no("reservation"); s = ZyanBitsetReserve(&b, 8 * n); ok("reservation"); ZyanUSize z = 0; ZyanBitsetGetSize(&b, &z); CHECK(z == 8 * n, "%zu bits in %zu bytes", (size_t)z, n); for (size_t i = 0; i < 8 * n; i++) CHECK(ZyanBitsetTest(&b, i) == (i % 3 == 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "bit %zu is wrong", i); beat(); ZyanBitset q; s = ZyanBitsetInitBuffer(&q, 8 * n + 1, g.p, n); no("bitset"); s = ZyanBitsetDestroy(&b); ok("destruction");
        }
        heap::forbidden() = false; g.release(); }); });
}
// a constructor that fails anywhere in a long vector
static void emplace_long() {
    for (size_t n : {300, 1000, 4097, 5003, 65536, 70001}) for (int kind = 0; kind < 3; kind++) task("refusing constructor in " + std::to_string(n) + "." + std::to_string(kind), [=] { dfs([=] {
        Many t; Guarded g; ZyanVector v; ZyanStatus s; std::vector<uint32_t> m; if (kind == 2) { g.init(4 * (n + 2)); s = ZyanVectorInitCustomBuffer(&v, 4, g.p, n + 2, nullptr); } else s = ZyanVectorInitEx(&v, 4, kind ? n + 2 : n, nullptr, &t.base, kind ? 2 : 1, 0); CHECK(s == ZYAN_STATUS_SUCCESS, "initialization: %s", st_name(s));
        for (uint32_t i = 0; i < n; i++) m.push_back(i * 3 + 1); s = ZyanVectorInsertRange(&v, 0, m.data(), n); CHECK(s == ZYAN_STATUS_SUCCESS, "insertion: %s", st_name(s)); auto same = [&] { ZyanUSize z = 0; ZyanVectorGetSize(&v, &z); CHECK(z == m.size(), "size %zu, expected %zu", (size_t)z, m.size()); const uint32_t* d = (const uint32_t*)ZyanVectorGet(&v, 0); for (size_t i = 0; i < m.size(); i++) CHECK(d[i] == m[i], "element %zu of %zu is %u, expected %u", i, m.size(), d[i], m[i]); beat(); };
        size_t at[] = {0, 1, 255, 256, 257, n / 2, n - 1, n, 4096, 65535, 65536, n - 256}; size_t a = at[choose(12)]; if (a > n) throw Abort(); text("%zu elements, at %zu: ", n, a); void* e; s = ZyanVectorEmplaceEx(&v, a, &e, [](void* p) -> ZyanStatus { *(uint32_t*)p = 7777; return ZYAN_STATUS_OUT_OF_RESOURCES; }); CHECK(s == ZYAN_STATUS_OUT_OF_RESOURCES, "status %s", st_name(s)); same();
        s = ZyanVectorEmplaceEx(&v, a, &e, [](void* p) -> ZyanStatus { *(uint32_t*)p = 8888; return ZYAN_STATUS_SUCCESS; }); CHECK(s == ZYAN_STATUS_SUCCESS, "status %s", st_name(s)); m.insert(m.begin() + (long)a, 8888); same(); s = ZyanVectorDestroy(&v); CHECK(s == ZYAN_STATUS_SUCCESS && t.live.empty(), "destruction: %s, %zu blocks left", st_name(s), t.live.size()); if (kind == 2) g.release();
    }); });
}
// sets of many bits and bytes: every bulk operation, every aggregate with single bits at many places, partners of other sizes
static ZyanStatus op_true(ZyanU8* a, const ZyanU8* s) { *a = (ZyanU8)(*a ^ *s); return ZYAN_STATUS_TRUE; }
static ZyanStatus op_false(ZyanU8* a, const ZyanU8* s) { *a = (ZyanU8)(*a ^ *s); return ZYAN_STATUS_FALSE; }
static int op_left; static ZyanStatus op_refuse(ZyanU8* a, const ZyanU8* s) { if (!op_left--) return ZYAN_STATUS_NOT_ENOUGH_MEMORY; *a = (ZyanU8)(*a ^ *s); return ZYAN_STATUS_SUCCESS; }
static void bits_long(bool agg, int ck) {
    for (size_t n : {33, 300, 1025, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131072, 262145, 524287, 524288, 524289, 560003}) for (int kind = 0; kind < (n > 70001 && !E().thorough ? 1 : 2); kind++) task("many bits " + std::to_string(n) + (kind ? " in a buffer" : ""), [=] { dfs([=] {
        BitObj o; o.ck = ck; if (kind) o.c = bfix(n, n / 8 + 20); else o.c = bdyn(n, 2, 2); o.init(); beat(); int op = choose(agg ? 7 : 6); std::vector<size_t> at; for (size_t q : {(size_t)0, (size_t)8, (size_t)255, (size_t)4095, (size_t)32768, (size_t)65535, (size_t)65536, (size_t)131071, (size_t)262144, (size_t)524287, n / 2, n - 9, n - 1}) if (q < n) at.push_back(q);
        auto pat = [&](BitObj& x, size_t st) { x.building = true; for (size_t i = 0; i < x.m.size(); i += st) { CHECK(ZyanBitsetSet(x.b, i) == ZYAN_STATUS_SUCCESS, "set of bit %zu of %zu failed", i, x.m.size()); x.m[i] = 1; } x.building = false; beat(); };
        switch (op) {
        case 0: o.all(0); beat(); o.all(2); o.all(2); beat(); o.all(1); o.all(2); break;
        case 1: pat(o, 3); o.all(2); beat(); o.one(4, n - 1); o.shrink(); o.pop(); beat(); o.push(1); o.push(0); break;
        case 2: for (size_t q : at) { o.one(0, q); beat(); } for (size_t q : at) { o.one(4, q); beat(); } break;
        case 3: o.all(0); for (size_t q : at) { o.one(1, q); beat(); } for (size_t q : at) { o.one(3, q); beat(); } break;
        case 4: pat(o, 5); for (int i = 0; i < (n > 70001 ? 9 : 18); i++) { o.push(i % 3); beat(); } for (int i = 0; i < (n > 70001 ? 11 : 30); i++) { o.pop(); beat(); } break;
        case 5: pat(o, 7); o.reserve(n + 100 - (kind ? 100 : 0)); o.clear(); o.push(1); o.push(0); break;
        default: { size_t sz[] = {n, n / 2, n - 1, n + 9, n > 65536 ? (size_t)65536 : (size_t)33}; int w = choose(5), f = choose(9); BitObj p; p.ck = CK_CONTENT; p.c = bdyn(sz[w], 2, 2); p.init(); pat(o, 3); pat(p, 2); if (f < 6) { o.bulk(f, p); break; }
            text("operation that returns %s ", f == 6 ? "true" : f == 7 ? "false" : "a failure"); size_t bytes = std::min(B8(n), B8(sz[w])), k = f == 8 ? bytes - 1 : bytes; op_left = (int)k; ZyanStatus s = ZyanBitsetPerformByteOperation(o.b, p.b, f == 6 ? op_true : f == 7 ? op_false : op_refuse); CHECK(f == 8 ? s == ZYAN_STATUS_NOT_ENOUGH_MEMORY : s == ZYAN_STATUS_SUCCESS, "status %s", st_name(s));
            for (size_t i = 0; i < std::min(n, sz[w]) && i < 8 * k; i++) o.m[i] ^= p.m[i]; for (size_t i = std::min(n, sz[w]); i < n && i < 8 * B8(sz[w]); i++) o.m[i] = ZyanBitsetTest(o.b, i) == ZYAN_STATUS_TRUE; if (f == 8) for (size_t i = 0; i < n && i < 8 * bytes; i++) o.m[i] = ZyanBitsetTest(o.b, i) == ZYAN_STATUS_TRUE; o.verify(); p.verify(); } }
        o.destroy(); }); });
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        prop = E().prop; bool T = E().thorough; size_t M = T ? 5 : 4;
        VecCfg vd; vd.deflt = true; vd.es = 8; vd.growth = 2; vd.thr = 4; vd.cap0 = 0;
        StrCfg sd; sd.deflt = true; BitCfg bd; bd.deflt = true; bd.growth = bd.thr = 2; ListCfg ld; ld.deflt = true;
        std::vector<size_t> P = {0, 3, 7, 8}, L = {0, 1, 2, 5, 8, 17, 33, 60, 130, 300};
        if (prop == "C03") {
            int ck = CK_DTOR; VecCfg v2 = vd; v2.dtor = true; ListCfg l2 = ld; l2.dtor = true;
            vec(vdyn(4, 2, 2, 0, true), ck, M, true, true); vec(vdyn(8, 1, 1, 2, true), ck, M, true, true); vec(vdyn(2, 3, 0, 1, true), ck, M, true, true); vec(vdyn(4, 2, 4, 5, true), ck, M, true, true); vec(v2, ck, M, true, true);
            vec(vfix(4, 3, true), ck, 4, false, true); vec(vfix(2, 1, true), ck, 2, false, true);
            list(ldyn(4, true), ck, M, true, true); list(ldyn(8, true), ck, M, true, true); list(l2, ck, M, true, true); list(lfix(4, 3, 0, true), ck, 4, false, true, T ? 7 : 5, 1);
            vec_large(vdyn(4, 2, 4, 0, true), L, ck, 2); vec_large(vdyn(12, 1, 1, 3, true), L, ck, T ? 2 : 1); vec_large(vdyn(200, 3, 0, 1, true), {0, 1, 2, 9}, ck, 2); vec_large(vfix(4, 40, true), L, ck, 2); vec_large(vdyn(4, 2, 2, 0, true), {0, 1, 7, 33}, ck, 1, true);
            list_large(ldyn(4, true), {0, 1, 2, 5, 17, 60, 200}, ck, T ? 3 : 2); list_large(ldyn(150, true), {0, 1, 9}, ck, 2, true); list_large(lfix(4, 17, 3, true), {0, 1, 2, 16, 17}, ck, T ? 3 : 2); vec_long_dtor(); list_long(false, true, {257, 1000, 65537}); list_long(true, true, {256, 65537});
        } else if (prop == "C04") {
            int ck = CK_CONTENT | CK_DTOR;
            for (size_t n : {1, 2, 3}) { vec(vfix(n == 2 ? 1 : 4, n), ck, n + 1, false, true); vec(vfix(3, n, true), ck, n + 1, false, true); }
            if (T) { vec(vfix(8, 4), ck, 5, false, true); vec(vfix(8, 5), ck, 6, false, true); }
            for (size_t n : {1, 2, 3, 4}) str(sfix(n), ck, n + 1, false, true);
            str(sfix(7), ck, 8, false, true, 3); if (T) str(sfix(5), ck, 6, false, true);
            for (size_t b : {1, 2, 3}) for (size_t n : {(size_t)0, 8 * b - 7, 8 * b - 1, 8 * b}) bits(bfix(n, b), CK_CONTENT, 8 * b + 2, false, false, P, T ? 7 : 5);
            for (size_t n : {1, 2, 3}) list(lfix(n == 2 ? 8 : 4, n, n == 3 ? 19 : 0, false), ck, n + 1, false, true, T ? 9 : 6, 1);
            list_large(lfix(8, 17, 5, false), {0, 1, 15, 16, 17}, ck, 2); list_large(lfix(300, 5, 299, true), {0, 1, 4, 5}, ck, 2); list_large(lfix(1, 70, 1, false), {0, 1, 69, 70}, ck, 1); list_large(lfix(4, 257, 3, true), {0, 1, 255, 256, 257}, ck, 1); vec_large(vfix(3, 257, true), {0, 1, 254, 255, 256, 257}, ck, 1);
            for (size_t n : {17, 64, 65}) { vec_large(vfix(n == 64 ? 4 : 3, n, n == 17), {0, 1, n / 2, n - 1, n}, ck, 2); str_large(sfix(n), {0, 1, n / 2, n - 2, n - 1}, ck, 2); } vec_large(vfix(150, 5), {0, 4, 5}, ck, 2);
            str_large(sfix(300), {0, 270, 298, 299}, ck, 2); bits_large(bfix(0, 40), {0, 255, 256, 257, 300, 312, 319, 320}, CK_CONTENT, 2);
            bits_large(bfix(0, 5), {0, 1, 7, 8, 31, 33, 38, 39, 40}, CK_CONTENT, 2);
            fixed_long();
            task("fixed buffers too small for their initial contents", []() { dfs([&]() {
                size_t bytes = 1 + (size_t)choose(4), n = (size_t)choose(45); Guarded g; g.init(bytes); ZyanBitset b; text("bitset of %zu bits in %zu bytes ", n, bytes);
                ZyanStatus s = ZyanBitsetInitBuffer(&b, n, g.p, bytes);
                if (B8(n) > bytes) CHECK(s == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "bitset of %zu bits in %zu bytes: %s", n, bytes, st_name(s));
                else { CHECK(s == ZYAN_STATUS_SUCCESS, "bitset of %zu bits in %zu bytes: %s", n, bytes, st_name(s)); for (size_t i = 0; i < n; i++) { CHECK(ZyanBitsetTest(&b, i) == ZYAN_STATUS_FALSE, "bit %zu of a new bitset is set", i); CHECK(ZyanBitsetSet(&b, i) == ZYAN_STATUS_SUCCESS, "bit %zu not settable", i); } }
                g.release(); }); });
        } else if (prop == "C05") {
            int ck = CK_CONTENT | CK_FAULT;
            vec(vdyn(4, 2, 2, 0, false), ck, M, true, true); vec(vdyn(8, 1, 1, 2, true), ck | CK_DTOR, M, true, true); vec(vdyn(1, 3, 0, 1), ck, M, true, false); vec(vdyn(4, 2, 4, 5, true), ck | CK_DTOR, M, true, true); vec(vd, ck, M, true, false);
            for (int i = 0; i < 3; i++) { int g[] = {1, 2, 3}, t[] = {0, 4, 3}; str(sdyn(g[i], t[i], 0), ck, M - 1, true, true); } str(sdyn(1, 1, 35), ck, M - 1, true, true); str(sd, ck, M - 1, true, true);
            int d = T ? 8 : 6;
            for (size_t n : {0, 7, 8, 15}) { bits(bdyn(n, 2, 2), ck | CK_CAP, n + 3, true, false, {0, n}, d); bits(bdyn(n, 1, 1), ck | CK_CAP, n + 3, true, false, {0, n}, d); } bits(bd, ck | CK_CAP, 10, true, false, {0, 8}, d);
            list(ldyn(4, false), ck, M, true, true); list(ldyn(8, true), ck | CK_DTOR, M, true, true); list(ld, ck, M, true, true);
            vec_large(vdyn(4, 2, 4, 0, true), L, ck | CK_DTOR, T ? 2 : 1, true); vec_large(vdyn(150, 1, 1, 2), {0, 1, 2, 9}, ck, 2, true); vec_large(vdyn(1, 3, 3, 30), L, ck, T ? 2 : 1, true);
            str_large(sdyn(2, 4, 0), L, ck, T ? 3 : 2, true); str_large(sdyn(1, 1, 33), L, ck, T ? 3 : 2, true); str_large(sdyn(3, 0, 3), {0, 1, 32, 33, 100}, ck, T ? 3 : 2, true);
            bits_large(bdyn(0, 2, 2), L, ck, T ? 2 : 1, true); bits_large(bdyn(0, 1, 1), {0, 7, 8, 9}, ck, 2, true); bits_large(bdyn(0, 1, 1), {63, 64, 65}, ck, T ? 2 : 1, true);
            list_large(ldyn(4, true), L, ck | CK_DTOR, T ? 3 : 2, true); list_large(ldyn(200, false), {0, 1, 5, 40}, ck, 2, true);
            constructions();
        } else if (prop == "C06") {
            int ck = CK_ALLOC;
            int g[] = {1, 2, 3, 2, 255}, t[] = {0, 4, 3, 1, 255}; size_t es[] = {1, 4, 3, 8, 2};
            for (int i = 0; i < 5; i++) { vec(vdyn(es[i], g[i], t[i], (size_t)i), ck, M, true, i == 1); str(sdyn(g[i], t[i], (size_t)i * 20), ck, M - 1, true, true); bits(bdyn((size_t)i * 4, g[i], t[i]), ck, (size_t)i * 4 + 3, true, false, {0}, T ? 8 : 6); }
            list(ldyn(4, false), ck, M, true, true); list(ldyn(1, true), ck, M, true, false); list(ld, ck, M, true, true); vec(vd, ck, M, true, true); str(sd, ck, M - 1, true, true); bits(bd, ck, 10, true, false, {0}, T ? 8 : 6);
            vec(vfix(4, 2), ck, 3, false, false); str(sfix(3), ck, 4, false, true); bits(bfix(8, 2), ck, 18, false, false, {0}, 5); list(lfix(4, 2, 0, false), ck, 3, false, false, 6, 1);
            for (size_t e : {1, 4, 24, 130, 300}) { vec_large(vdyn(e, e == 4 ? 1 : 2, e == 24 ? 0 : 2, e % 5, e == 4), L, ck, e == 4 || T ? 2 : 1); list_large(ldyn(e, e == 4), L, ck, T ? 3 : 2); }
            str_large(sdyn(2, 4, 0), L, ck, 2); str_large(sdyn(1, 1, 33), L, ck, 2); str_large(sdyn(3, 0, 100), L, ck, 2); str_large(sdyn(255, 255, 1), {0, 1, 33, 100}, ck, 2);
            bits_large(bdyn(0, 2, 2), L, ck, T ? 2 : 1); bits_large(bdyn(0, 1, 1), {0, 7, 8, 9}, ck, 2); bits_large(bdyn(0, 1, 1), {63, 64, 65, 200}, ck, T ? 2 : 1);
            constructions(); two_allocators(T ? 7 : 5); default_allocator();
        } else if (prop == "C16" || prop == "C17") {
            bool agg = prop == "C17"; int ck = agg ? CK_CAP : CK_CONTENT; int d = T ? 8 : 5;
            for (size_t n : {0, 1, 5, 7, 8, 9, 12, 15, 16, 17}) { bits(bdyn(n, n % 3 ? 2 : 1, n % 2 ? 2 : n % 4), ck, n + 2, false, agg, {0, n / 2, n ? n - 1 : 0, n}, agg && n > 8 ? d - 2 : agg && n > 5 ? d - 1 : d); }
            bits(bd, ck, 9, false, agg, P, d); bits(bdyn(0, 2, 2), ck, 3, false, agg, {0, 1, 2}); bits(bdyn(4, 1, 0), ck, 5, false, agg, {0, 1, 4}, T ? 99 : 6);
            std::vector<size_t> S; for (size_t i = 0; i <= 34; i++) S.push_back(i); for (size_t k : {63, 64, 65, 71, 127, 128, 129}) S.push_back(k); if (T) for (size_t k : {255, 256, 257, 1000, 2047, 2049}) S.push_back(k);
            bits_large(bdyn(0, 2, 4), {255, 256, 257, 1000, 2049}, ck, 1);
            bits_large(bdyn(0, 2, 2), S, ck, T ? 2 : 1); bits_large(bdyn(0, 1, 0), S, ck, 1); bits_large(bdyn(0, 3, 4), T ? S : std::vector<size_t>{7, 8, 9, 16, 17, 30}, ck, 2); bits_long(agg, ck);
        } else if (prop == "C18") {
            int ck = CK_CONTENT; size_t M2 = T ? 6 : 4;
            list(ldyn(4, false), ck, M2, false, true); list(ldyn(1, false), ck, M2, false, false); list(ldyn(12, true), ck, M2, false, true); list(ld, ck, M2, false, true); list(ldyn(40, false), ck, M2, false, false, 99, 1);
            for (size_t es : {1, 4, 8, 24, 129, 300}) list_large(ldyn(es, es == 8), {0, 1, 2, 3, 5, 8, 17, 60, 200, 300}, ck, T ? 3 : 2);
            list_large(ldyn(65537, false), {0, 1, 3}, ck, 1); list_large(ldyn(4, false), {255, 256, 257, 1025}, ck, 1); list_long(false, false); list_long(false, true);
        } else if (prop == "C19") {
            int ck = CK_CONTENT;
            for (size_t n : {1, 2, 3}) for (size_t es : {4, 8}) list(lfix(es, n, es == 4 ? 7 : 0, n == 3), ck, n + 1, false, true, n < 3 ? 99 : (T ? 9 : 7), 1);
            list(lfix(1, 4, 0, false), ck, 5, false, true, T ? 8 : 6, 1); list(lfix(16, 5, 31, false), ck, 6, false, false, T ? 6 : 4, 1);
            for (size_t es : {1, 3, 8, 40}) { list_large(lfix(es, 8, es - 1, false), {0, 1, 4, 7, 8}, ck, T ? 4 : 3); list_large(lfix(es, 40, 0, es == 8), {0, 1, 20, 39, 40}, ck, 2); }
            for (size_t n : {127, 128, 129, 255, 256, 257, 300}) list_large(lfix(4, n, 3, n == 300), {0, 1, 126, 127, 128, 254, 255, 256, n - 1, n}, ck, 1);
            list_long(true, false); list_long(true, true);
        } else if (prop == "C30") {
            int ck = CK_CONTENT | CK_DTOR;
            emplace_long();
            list(ldyn(4, false), ck, M, false, true); list(ldyn(8, true), ck, M, false, true); list(ld, ck, M, true, true); list(lfix(4, 2, 0, true), ck, 3, false, true, 99, 1); list(lfix(8, 3, 9, false), ck, 4, false, true, T ? 9 : 6, 1);
            list_large(ldyn(4, true), {0, 1, 5, 40}, ck, T ? 3 : 2); list_large(ldyn(200, false), {0, 1, 40}, ck, 2); list_large(lfix(12, 17, 3, true), {0, 1, 16, 17}, ck, 2);
        }
    });
}
