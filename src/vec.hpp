// vec.hpp - ZyanVector under exploration, with an ideal-sequence reference model.
#pragma once
#include "zy.hpp"
extern "C" { // macros.c, where it is linked
__attribute__((weak)) uint32_t mcm_vector_get(const ZyanVector*, size_t); __attribute__((weak)) size_t mcm_foreach(const ZyanVector*, uint32_t*, size_t);
__attribute__((weak)) size_t mcm_foreach_mutable(ZyanVector*, void**, size_t); __attribute__((weak)) size_t mcm_foreach_nested(const ZyanVector*);
__attribute__((weak)) uint32_t mcm_list_get(const ZyanListNode*); __attribute__((weak)) const ZyanStringView* mcm_view(int, const char**, size_t*);
}

inline void el_fill(uint8_t* p, size_t es, uint32_t v) {
    for (size_t j = 0; j < es; j++) p[j] = (uint8_t)((v >> (8 * (j % 4))) ^ (uint8_t)(j / 4 * 0x1D + (j >= 4 ? 0x40 : 0)));
}
inline bool el_is(const uint8_t* p, size_t es, uint32_t v) {
    for (size_t j = 0; j < es; j++) if (p[j] != (uint8_t)((v >> (8 * (j % 4))) ^ (uint8_t)(j / 4 * 0x1D + (j >= 4 ? 0x40 : 0)))) return false;
    return true;
}
inline uint32_t el_get(const uint8_t* p, size_t es) { // decode (low bytes); ~0u if the pattern is broken
    uint32_t v = 0; for (size_t j = 0; j < std::min<size_t>(es, 4); j++) v |= (uint32_t)p[j] << (8 * j);
    return el_is(p, es, v) ? v : ~0u;
}

enum { CK_CONTENT = 1, CK_CAP = 2, CK_DTOR = 4, CK_FIXED = 8, CK_FAULT = 16, CK_ALLOC = 32, CK_ALL = 63 };

struct VecCfg {
    size_t es = 4; int growth = 2, thr = 4; size_t cap0 = 1;
    bool fixed = false, dtor = false, deflt = false; // deflt: ZyanVectorInit (default allocator)
    size_t fixcap = 0;
    std::string str() const {
        char b[160];
        if (fixed) snprintf(b, sizeof b, "fixed(cap=%zu,es=%zu%s)", fixcap, es, dtor ? ",dtor" : "");
        else snprintf(b, sizeof b, "dyn(es=%zu,growth=%d,shrink=%d,cap0=%zu%s%s)", es, growth, thr, cap0, dtor ? ",dtor" : "", deflt ? ",default" : "");
        return b;
    }
};

struct VecObj;
inline VecObj*& g_vec() { static VecObj* v; return v; }

struct VecObj {
    VecCfg c; int ck = CK_CONTENT;
    Tracker t; Guarded buf;
    pg::Mem<ZyanVector> store; uint8_t (&mem)[sizeof(ZyanVector)] = store.arr();
    ZyanVector* v = (ZyanVector*)mem;
    std::vector<uint32_t> m;      // reference
    std::vector<uint32_t> dead;   // destructor log of the current operation
    int dtor_depth = 0;
    size_t lastcap = 0;
    uint64_t calls0 = 0;
    int ctor_calls = 0; bool ctor_fail = false; void* ctor_arg = nullptr; uint32_t ctor_val = 0;
    bool inited = false;
    size_t minreq = 0; // capacity requested so far that may not be lost (threshold 0 only)

    static void s_dtor(void* p) {
        VecObj* o = g_vec();
        if (p == nullptr) mc::fail("destructor called with null");
        uint32_t x = el_get((uint8_t*)p, o->c.es);
        o->dead.push_back(x);
        memset(p, mc::junk(0xDD), o->c.es);  // a destroyed element is garbage afterwards
    }
    static ZyanStatus s_ctor(void* p) {
        VecObj* o = g_vec(); o->ctor_calls++; o->ctor_arg = p;
        if (o->ctor_fail) { memset(p, mc::junk(0xBB), o->c.es); return ZYAN_STATUS_NOT_FOUND; }
        el_fill((uint8_t*)p, o->c.es, o->ctor_val);
        return ZYAN_STATUS_SUCCESS;
    }
    void init() {
        g_vec() = this; dispose();
        memset(mem, mc::junk(0xEE), sizeof mem); m.clear(); dead.clear(); t.reset(); heap::forbidden() = !c.deflt;
        ZyanStatus s;
        if (c.fixed) { buf.init(c.es * c.fixcap); s = ZyanVectorInitCustomBuffer(v, c.es, buf.p, c.fixcap, c.dtor ? s_dtor : nullptr); }
        else if (c.deflt) s = ZyanVectorInit(v, c.es, c.cap0, c.dtor ? s_dtor : nullptr);
        else s = ZyanVectorInitEx(v, c.es, c.cap0, c.dtor ? s_dtor : nullptr, &t.base, (ZyanU8)c.growth, (ZyanU8)c.thr);
        CHECK(s == ZYAN_STATUS_SUCCESS, "initialization failed: %s", st_name(s));
        inited = true; minreq = c.fixed ? c.fixcap : c.cap0;
        lastcap = cap();
        if (ck & CK_CAP) {
            CHECK(lastcap >= std::max<size_t>(1, minreq), "capacity %zu after initialization with capacity %zu", lastcap, minreq);
        }
        mc::text("%s ", c.str().c_str());
        verify();
    }
    void dispose() { // silent cleanup of a half-finished run
        if (inited) { c.dtor = c.dtor; inited = false; if (c.deflt) { heap::forbidden() = false; dead.clear(); ZyanVectorDestroy(v); } }
        t.reset(); buf.release();
    }
    void destroy() {
        g_vec() = this; dead.clear();
        mc::text("destroy");
        ZyanStatus s = ZyanVectorDestroy(v);
        inited = false;
        CHECK(s == ZYAN_STATUS_SUCCESS, "destruction failed: %s", st_name(s));
        if (ck & CK_DTOR) check_dead(m, "on destruction");
        if (c.deflt) heap::expect_none("after destruction of the vector");
        if (!c.fixed && !c.deflt) t.expect_no_leak("after destruction of the vector");
        if (c.fixed) buf.release();
    }
    size_t cap() { ZyanUSize x = 0; ZyanStatus s = ZyanVectorGetCapacity(v, &x); CHECK(s == ZYAN_STATUS_SUCCESS, "capacity query failed: %s", st_name(s)); return x; }
    size_t size() { ZyanUSize x = 0; ZyanStatus s = ZyanVectorGetSize(v, &x); CHECK(s == ZYAN_STATUS_SUCCESS, "size query failed: %s", st_name(s)); return x; }
    void check_dead(std::vector<uint32_t> want, const char* when) {
        if (!c.dtor) return;
        std::vector<uint32_t> got = dead;
        for (auto& x : want) { uint32_t mask = c.es >= 4 ? ~0u : (1u << (8 * c.es)) - 1; x &= mask; }
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        if (got == want) return;
        std::string g, w; for (auto x : got) g += x == ~0u ? " garbage" : " " + std::to_string(x); for (auto x : want) w += " " + std::to_string(x);
        mc::fail("destroyed elements%s: {%s } but exactly {%s } left the container", when[0] ? (std::string(" ") + when).c_str() : "", g.c_str(), w.c_str());
    }
    bool content_is(const std::vector<uint32_t>& w) {
        if (size() != w.size()) return false;
        for (size_t i = 0; i < w.size(); i++) { const uint8_t* p = (const uint8_t*)ZyanVectorGet(v, i); if (!p || !el_is(p, c.es, w[i])) return false; }
        return true;
    }
    std::string dump() {
        std::string o = "["; size_t n = size(); char b[40];
        for (size_t i = 0; i < n && i < 40; i++) { const uint8_t* p = (const uint8_t*)ZyanVectorGet(v, i); uint32_t x = p ? el_get(p, c.es) : ~0u; if (x == ~0u) snprintf(b, 40, "%s?", i ? "," : ""); else snprintf(b, 40, "%s%u", i ? "," : "", x); o += b; }
        return o + "]";
    }
    std::string dumpm(const std::vector<uint32_t>& w) { std::string o = "["; for (size_t i = 0; i < w.size() && i < 40; i++) o += (i ? "," : "") + std::to_string(w[i]); return o + "]"; }
    // complete agreement with the reference
    void verify() {
        if (mc::E().quiet) return;
        pg::Seal sealed;
        size_t n = size();
        CHECK(n == m.size(), "size is %zu, expected %zu", n, m.size());
        if (!content_is(m)) mc::fail("contents are %s, expected %s", dump().c_str(), dumpm(m).c_str());
        size_t cp = cap();
        CHECK(cp >= n && cp >= 1, "capacity %zu below size %zu", cp, n);
        if (ck & CK_CONTENT) {
            // all accessors agree; nothing is accessible past the end
            size_t st = n > 64 ? n / 16 : 1;
            for (size_t i = 0; i < n + 2; i += (i + st < n ? st : 1)) {
                const void* a = ZyanVectorGet(v, i); void* b = ZyanVectorGetMutable(v, i); const void* p = (void*)1; void* q = (void*)1;
                ZyanStatus s1 = ZyanVectorGetPointer(v, i, &p), s2 = ZyanVectorGetPointerMutable(v, i, &q);
                if (i < n) CHECK(a && a == b && s1 == ZYAN_STATUS_SUCCESS && s2 == ZYAN_STATUS_SUCCESS && p == a && q == a, "accessors disagree at index %zu", i);
                else CHECK(!a && !b && s1 == ZYAN_STATUS_OUT_OF_RANGE && s2 == ZYAN_STATUS_OUT_OF_RANGE && p == (void*)1 && q == (void*)1, "access at index %zu of a vector of size %zu not refused", i, n);
            }
        }
        if ((ck & CK_CONTENT) && c.es == 4 && &mcm_foreach && n <= 8) { // the access macros
            uint32_t o[16]; void* p[16]; size_t k = mcm_foreach(v, o, 16), k2 = mcm_foreach_mutable(v, p, 16); CHECK(k == n && k2 == n, "the loop macros visit %zu and %zu of %zu elements", k, k2, n);
            for (size_t i = 0; i < n; i++) { CHECK(el_is((uint8_t*)&o[i], 4, m[i]) && p[i] == ZyanVectorGet(v, i), "the loop macros visit something else than element %zu", i); uint32_t g = mcm_vector_get(v, i); CHECK(g == o[i], "ZYAN_VECTOR_GET disagrees at index %zu", i); }
            size_t w = 0; for (auto a : m) for (auto b : m) w += a == b; CHECK(mcm_foreach_nested(v) == w, "nested loop macros interfere");
        }
        if (c.fixed) CHECK(cp == c.fixcap, "capacity of a fixed buffer vector is %zu, expected %zu", cp, c.fixcap);
    }
    // ---- capacity law around one operation ----
    size_t cap_before; uint64_t req_before; size_t size_before;
    bool fault_now = false, fault_hit = false;
    void pre(bool fault = false) {
        g_vec() = this;
        dead.clear(); cap_before = cap(); size_before = m.size(); req_before = t.reallocs; ctor_calls = 0; fault_hit = false;
        std::function<bool()> r = nullptr; if (fault) r = [this]() { fault_hit = true; return true; };
        heap::forbidden() = !c.deflt; if (c.deflt) heap::refuse() = r; else t.refuse = r;
        t.refused_big = false;
    }
    void check_cap(char kind, size_t needed) { // kind: g grow, r removal, s shrink_to_fit, v reserve, n none
        size_t cp = cap();
        if (!(ck & CK_CAP) || c.fixed) return;
        CHECK(cp >= m.size() && cp >= 1, "capacity %zu below size %zu", cp, m.size());
        if (c.thr == 0 && kind != 's') CHECK(cp >= cap_before, "capacity dropped from %zu to %zu with shrinking disabled", cap_before, cp);
        switch (kind) {
        case 'n': CHECK(cp == cap_before && t.reallocs == req_before, "capacity changed from %zu to %zu by an operation that does not change the size", cap_before, cp); break;
        case 'g':
            if (needed <= cap_before) CHECK(cp == cap_before && t.reallocs == req_before, "storage reallocated (%zu to %zu) although %zu elements fit", cap_before, cp, needed);
            else if (c.growth == 1) CHECK(cp == needed, "growth factor 1: capacity %zu after growing to %zu elements", cp, needed);
            else CHECK(cp >= needed, "growth factor %d: capacity %zu after growing to %zu elements", c.growth, cp, needed);
            if (needed > cap_before && c.growth > 1 && needed * c.growth > cap_before) CHECK(cp >= std::min<size_t>(cap_before * c.growth, needed * c.growth), "growth factor %d did not enlarge the storage geometrically (%zu to %zu)", c.growth, cap_before, cp);
            break;
        case 'r': {
            if (c.thr == 0) { CHECK(cp == cap_before, "removal changed the capacity from %zu to %zu with shrinking disabled", cap_before, cp); break; }
            if (c.thr < c.growth) break; // policy not fixed by the documentation
            bool should = m.size() * c.thr < cap_before;
            if (!should) CHECK(cp == cap_before, "removal released storage (%zu to %zu) although size %zu x threshold %d is not below the capacity", cap_before, cp, m.size(), c.thr);
            else CHECK(cap_before == 1 || cp < cap_before, "removal kept capacity %zu although size %zu x threshold %d is below it", cp, m.size(), c.thr);
            break; }
        case 's': CHECK(cp == std::max<size_t>(1, m.size()), "capacity %zu after shrink-to-fit with size %zu", cp, m.size()); break;
        case 'v': CHECK(cp >= needed && cp >= cap_before, "capacity %zu (before %zu) after reserving %zu", cp, cap_before, needed); break;
        }
    }
    bool fits(size_t n) const { return !c.fixed || n <= c.fixcap; }
    // outcome of an operation that needs `needed` elements of capacity and would produce `want`
    // returns true if it took effect
    bool settle(ZyanStatus s, size_t needed, const std::vector<uint32_t>& want, const std::vector<uint32_t>& removed, char kind, const char* what) {
        t.refuse = nullptr; heap::refuse() = nullptr;
        if (!fits(needed)) {
            CHECK(s == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%s: %zu elements do not fit into a buffer of %zu, but the status is %s", what, needed, c.fixcap, st_name(s));
            if (ck & CK_DTOR) check_dead({}, "by a refused operation");
            verify(); return false;
        }
        if (fault_hit) {
            CHECK(ZYAN_FAILED(s), "%s: allocation failed but the status is %s", what, st_name(s));
            CHECK(s == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "%s: allocator reported NOT_ENOUGH_MEMORY but the status is %s", what, st_name(s));
            if (kind == 'r' && content_is(want) && !(want.size() == m.size() && content_is(m) && dead.empty())) { m = want; if (ck & CK_DTOR) check_dead(removed, "by a removal whose storage release failed"); }
            else if (ck & CK_DTOR) check_dead({}, "by a failed operation");
            CHECK(cap() == cap_before, "%s: capacity changed from %zu to %zu although the allocation failed", what, cap_before, cap());
            verify(); return false;
        }
        CHECK(s == ZYAN_STATUS_SUCCESS, "%s: failed with %s", what, st_name(s));
        m = want;
        if (ck & CK_DTOR) check_dead(removed, "");
        check_cap(kind, needed);
        verify();
        return true;
    }
    void refused(ZyanStatus s, ZyanStatus want, const char* what) {
        t.refuse = nullptr; heap::refuse() = nullptr;
        CHECK(s == want, "%s: status %s, expected %s", what, st_name(s), st_name(want));
        if (ck & CK_DTOR) check_dead({}, "by a refused operation");
        if (ck & CK_CAP) CHECK(cap() == cap_before, "%s: refused operation changed the capacity", what);
        verify();
    }
    // ---- operations (each with exact expectations) ----
    typedef std::vector<uint32_t> Seq;
    pg::Arg enc(const Seq& xs) { std::vector<uint8_t> b(xs.size() * c.es); for (size_t i = 0; i < xs.size(); i++) el_fill(&b[i * c.es], c.es, xs[i]); return pg::Arg(b.data(), b.size()); }
    void push(uint32_t x, bool f = false) {
        mc::text("push(%u)%s ", x, f ? "!" : ""); pre(f); auto b = enc({x});
        ZyanStatus s = ZyanVectorPushBack(v, b.data()); Seq w = m; w.push_back(x); settle(s, w.size(), w, {}, 'g', "push");
    }
    void insert(size_t i, const Seq& xs, bool single, bool f = false) {
        mc::text("insert(%zu,%s)%s ", i, dumpm(xs).c_str(), f ? "!" : ""); pre(f); auto b = enc(xs);
        ZyanStatus s = single ? ZyanVectorInsert(v, i, b.data()) : ZyanVectorInsertRange(v, i, b.data(), xs.size());
        if (i > m.size()) { refused(s, ZYAN_STATUS_OUT_OF_RANGE, "insert past the end"); return; }
        Seq w = m; w.insert(w.begin() + i, xs.begin(), xs.end()); settle(s, w.size(), w, {}, 'g', "insert");
    }
    // mode 0: no constructor (caller fills), 1: constructor, 2: failing constructor
    void emplace(size_t i, uint32_t x, int mode, bool ex, bool f = false) {
        mc::text("emplace(%zu,%u,%s)%s ", i, x, mode == 0 ? "-" : mode == 1 ? "ctor" : "failing-ctor", f ? "!" : ""); pre(f);
        void* e = (void*)1; ctor_fail = mode == 2; ctor_val = x; ctor_arg = nullptr;
        ZyanStatus s = ex ? ZyanVectorEmplaceEx(v, i, &e, mode ? s_ctor : nullptr) : ZyanVectorEmplace(v, &e, mode ? s_ctor : nullptr);
        if (i > m.size()) { CHECK(ctor_calls == 0, "constructor called by a refused insertion"); refused(s, ZYAN_STATUS_OUT_OF_RANGE, "emplace past the end"); return; }
        if (fits(m.size() + 1) && !fault_hit) {
            if (mode == 2) {
                t.refuse = nullptr; heap::refuse() = nullptr;
                CHECK(ctor_calls == 1, "constructor called %d times", ctor_calls);
                CHECK(s == ZYAN_STATUS_NOT_FOUND, "constructor failure reported as %s", st_name(s));
                if (ck & CK_DTOR) check_dead({}, "by a failed construction");
                verify(); return;
            }
            CHECK(s == ZYAN_STATUS_SUCCESS, "emplace: failed with %s", st_name(s));
            if (mode == 1) { CHECK(ctor_calls == 1, "constructor called %d times", ctor_calls); CHECK(ctor_arg == e, "constructor ran on other storage than reported"); }
            const void* p = ZyanVectorGet(v, i);
            CHECK(p && p == e, "emplace reported storage that is not the element at index %zu", i);
            if (mode == 0) el_fill((uint8_t*)e, c.es, x);
        } else CHECK(ctor_calls == 0, "constructor called although there is no room");
        Seq w = m; w.insert(w.begin() + i, x); settle(s, w.size(), w, {}, 'g', "emplace");
    }
    void del(size_t i, size_t n, bool single, bool f = false) {
        mc::text("delete(%zu,%zu)%s ", i, n, f ? "!" : ""); pre(f);
        ZyanStatus s = single ? ZyanVectorDelete(v, i) : ZyanVectorDeleteRange(v, i, n);
        if (i > m.size() || n > m.size() - i) { refused(s, ZYAN_STATUS_OUT_OF_RANGE, "delete past the end"); return; }
        Seq w = m, r(m.begin() + i, m.begin() + i + n); w.erase(w.begin() + i, w.begin() + i + n); settle(s, w.size(), w, r, 'r', "delete");
    }
    void pop(bool f = false) {
        mc::text("pop%s ", f ? "!" : ""); pre(f);
        ZyanStatus s = ZyanVectorPopBack(v);
        if (m.empty()) { refused(s, ZYAN_STATUS_OUT_OF_RANGE, "pop from an empty vector"); return; }
        Seq w = m, r = {m.back()}; w.pop_back(); settle(s, w.size(), w, r, 'r', "pop");
    }
    void set(size_t i, uint32_t x) {
        mc::text("set(%zu,%u) ", i, x); pre(); auto b = enc({x});
        ZyanStatus s = ZyanVectorSet(v, i, b.data());
        if (i >= m.size()) { refused(s, ZYAN_STATUS_OUT_OF_RANGE, "set past the end"); return; }
        Seq w = m, r = {m[i]}; w[i] = x; settle(s, 0, w, r, 'n', "set");
    }
    void swap(size_t i, size_t j) {
        mc::text("swap(%zu,%zu) ", i, j); pre();
        ZyanStatus s = ZyanVectorSwapElements(v, i, j);
        if (i >= m.size() || j >= m.size()) { refused(s, ZYAN_STATUS_OUT_OF_RANGE, "swap past the end"); return; }
        if (m.size() == cap_before && s != ZYAN_STATUS_SUCCESS) { refused(s, ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "swap without spare capacity"); return; }
        Seq w = m; std::swap(w[i], w[j]); settle(s, 0, w, {}, 'n', "swap");
    }
    // init < 0: plain resize, new elements are then written through the mutable accessor
    void resize(size_t n, int64_t ini, bool f = false) {
        mc::text("resize(%zu%s%s)%s ", n, ini >= 0 ? ",init=" : "", ini >= 0 ? std::to_string(ini).c_str() : "", f ? "!" : ""); pre(f);
        Seq w = m, r; char k;
        if (n < m.size()) { r.assign(m.begin() + n, m.end()); w.resize(n); k = 'r'; } else { k = n == m.size() ? 'n' : 'R'; w.resize(n, ini >= 0 ? (uint32_t)ini : 77u); }
        ZyanStatus s;
        if (ini >= 0) { auto b = enc({(uint32_t)ini}); s = ZyanVectorResizeEx(v, n, b.data()); } else s = (n == 0) ? ZyanVectorClear(v) : ZyanVectorResize(v, n);
        if (ini < 0 && n > m.size() && s == ZYAN_STATUS_SUCCESS) {
            CHECK(size() == n, "size is %zu after resize to %zu", size(), n);
            for (size_t i = m.size(); i < n; i++) { void* p = ZyanVectorGetMutable(v, i); CHECK(p, "element %zu inaccessible after resize to %zu", i, n); el_fill((uint8_t*)p, c.es, 77); }
        }
        // whether a resize that does not remove anything gives back storage is not specified
        if (k == 'R') k = n > cap_before ? 'g' : 'x';
        if (k == 'n') k = 'x';
        settle(s, w.size(), w, r, k, "resize");
    }
    void reserve(size_t n, bool f = false) {
        mc::text("reserve(%zu)%s ", n, f ? "!" : ""); pre(f);
        ZyanStatus s = ZyanVectorReserve(v, n); Seq w = m; settle(s, n, w, {}, 'v', "reserve");
    }
    void shrink(bool f = false) {
        mc::text("shrink%s ", f ? "!" : ""); pre(f);
        ZyanStatus s = ZyanVectorShrinkToFit(v); Seq w = m; settle(s, 0, w, {}, 's', "shrink-to-fit");
    }
    // storage that holds no element has no meaning: give it a fixed value
    void scrub() {
        size_t n = m.size(); const uint8_t* lo = nullptr; uint8_t* b = nullptr; size_t bn = 0;
        if (n) lo = (const uint8_t*)ZyanVectorGet(v, 0);
        if (c.fixed) { b = buf.p; bn = buf.n; }
        else if (c.deflt) { if (heap::live().size() != 1) return; b = (uint8_t*)heap::live()[0].p; bn = heap::live()[0].n; }
        else { if (t.live.size() != 1) return; b = (uint8_t*)t.live[0].p; bn = t.live[0].es * t.live[0].n; }
        if (n && (lo < b || lo + n * c.es > b + bn)) return;
        uint8_t* e = n ? b + (lo - b) + n * c.es : b;
        if (n) memset(b, mc::junk(0xCD), lo - b);
        memset(e, mc::junk(0xCD), b + bn - e);
    }
    void image(mc::Hash& h) {
        Image im; im.add(t); im.add_heap(); if (c.fixed) im.add(buf.p, buf.n); im.add(mem, sizeof mem);
        im.hash(h, mem, sizeof mem);
        h.bytes(m.data(), m.size() * 4);
    }
};

struct VOp { int kind; size_t a, b; uint32_t x; bool f; };
enum { V_PUSH, V_INS, V_INSR, V_EMP, V_EMPEX, V_DEL, V_DELR, V_POP, V_SET, V_SWAP, V_RES, V_RESI, V_RSV, V_SHR };
inline bool vec_apply(VecObj& o, const VOp& p, size_t maxsize) {
    size_t n = o.m.size();
    switch (p.kind) {
    case V_PUSH: if (n + 1 > maxsize) return false; o.push(p.x, p.f); break;
    case V_INS: if (p.a > n + 1 || n + 1 > maxsize) return false; o.insert(p.a, {p.x}, true, p.f); break;
    case V_INSR: { if (p.a > n + 1 || n + p.b > maxsize) return false; std::vector<uint32_t> xs; for (size_t i = 0; i < p.b; i++) xs.push_back(i % 2 ? 3 - p.x : p.x); o.insert(p.a, xs, false, p.f); break; }
    case V_EMP: if (n + 1 > maxsize) return false; o.emplace(n, p.x, (int)p.b, false, p.f); break;
    case V_EMPEX: if (p.a > n + 1 || n + 1 > maxsize) return false; o.emplace(p.a, p.x, (int)p.b, true, p.f); break;
    case V_DEL: if (p.a > n) return false; o.del(p.a, 1, true, p.f); break;
    case V_DELR: if (p.a > n || p.a + p.b > n + 1) return false; o.del(p.a, p.b, false, p.f); break;
    case V_POP: o.pop(p.f); break;
    case V_SET: if (p.a > n) return false; o.set(p.a, p.x); break;
    case V_SWAP: if (p.a > n || p.b > n || p.a > p.b) return false; o.swap(p.a, p.b); break;
    case V_RES: if (p.a > maxsize) return false; o.resize(p.a, -1, p.f); break;
    case V_RESI: if (p.a > maxsize) return false; o.resize(p.a, p.x, p.f); break;
    case V_RSV: o.reserve(p.a, p.f); break;
    case V_SHR: o.shrink(p.f); break;
    }
    return true;
}
struct VecSys : mc::System {
    VecObj o; std::vector<VOp> ops; size_t maxsize;
    VecSys(VecCfg c, int ck, size_t maxsize_, bool faults, bool failctor, int nval = 2) : maxsize(maxsize_) {
        o.c = c; o.ck = ck;
        for (int f = 0; f < (faults ? 2 : 1); f++) {
            auto add = [&](int k, size_t a, size_t b, uint32_t x) { ops.push_back({k, a, b, x, f == 1}); };
            for (int x = 1; x <= nval; x++) {
                add(V_PUSH, 0, 0, x);
                for (size_t i = 0; i <= maxsize; i++) add(V_INS, i, 0, x);
                for (size_t k = 2; k <= std::min<size_t>(3, maxsize); k++) for (size_t i = 0; i <= maxsize; i++) if (x == 1) add(V_INSR, i, k, x);
                for (size_t i = 0; i <= maxsize; i++) add(V_EMPEX, i, (x + i) % 2, x);
                add(V_EMP, 0, 1, x);
                if (!f) for (size_t i = 0; i <= maxsize; i++) add(V_SET, i, 0, x);
            }
            if (failctor) { for (size_t i = 0; i <= maxsize; i++) add(V_EMPEX, i, 2, 1); add(V_EMP, 0, 2, 1); }
            for (size_t i = 0; i <= maxsize; i++) { add(V_DEL, i, 0, 0); for (size_t k = 1; i + k <= maxsize + 1; k++) add(V_DELR, i, k, 0); }
            add(V_POP, 0, 0, 0);
            if (!f) for (size_t i = 0; i <= maxsize; i++) for (size_t j = i; j <= maxsize; j++) add(V_SWAP, i, j, 0);
            for (size_t i = 0; i <= maxsize; i++) { add(V_RES, i, 0, 0); add(V_RESI, i, 0, 2); }
            add(V_RSV, 0, 0, 0); add(V_RSV, maxsize / 2 + 1, 0, 0); add(V_RSV, maxsize + 3, 0, 0);
            add(V_SHR, 0, 0, 0);
        }
    }
    int nops() override { return (int)ops.size(); }
    void reset() override { o.init(); }
    int step(int i) override {
        if (!vec_apply(o, ops[i], maxsize)) return 0;
        if (ops[i].f && !o.fault_hit) return 2; // nothing was allocated: same as the fault-free operation
        if (ops[i].f) mc::E().sh->faults++;
        return 1;
    }
    void key(mc::Hash& h) override { o.scrub(); o.image(h); }
    void finish() override { o.destroy(); }
};
