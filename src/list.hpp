// list.hpp - ZyanList under exploration, with an ideal doubly linked sequence.
#pragma once
#include "vec.hpp"
struct ListCfg {
    size_t es = 4; bool fixed = false, dtor = false, deflt = false; size_t slots = 0, extra = 0;
    std::string str() const {
        char b[120];
        if (fixed) snprintf(b, sizeof b, "listfixed(es=%zu,slots=%zu+%zu%s)", es, slots, extra, dtor ? ",dtor" : ""); else snprintf(b, sizeof b, "list(es=%zu%s%s)", es, dtor ? ",dtor" : "", deflt ? ",default" : "");
        return b;
    }
};
struct ListObj;
inline ListObj*& g_list() { static ListObj* l; return l; }
struct ListObj {
    ListCfg c; int ck = CK_CONTENT; Tracker t; Guarded buf;
    pg::Mem<ZyanList> store; uint8_t (&mem)[sizeof(ZyanList)] = store.arr(); ZyanList* l = (ZyanList*)mem;
    struct N { uint32_t v; const ZyanListNode* n; }; // n: identity, null if not known yet
    std::vector<N> m; std::vector<uint32_t> dead; bool inited = false, fault_hit = false, building = false; int skip_faults = 0;
    int ctor_calls = 0; bool ctor_fail = false; void* ctor_arg = nullptr; uint32_t ctor_val = 0;
    static void s_dtor(void* p) { ListObj* o = g_list(); CHECK(p, "destructor called with null"); o->dead.push_back(el_get((uint8_t*)p, o->c.es)); memset(p, mc::junk(0xDD), o->c.es); }
    static ZyanStatus s_ctor(void* p) {
        ListObj* o = g_list(); o->ctor_calls++; o->ctor_arg = p;
        if (o->ctor_fail) { memset(p, mc::junk(0xBB), o->c.es); return ZYAN_STATUS_NOT_FOUND; }
        el_fill((uint8_t*)p, o->c.es, o->ctor_val); return ZYAN_STATUS_SUCCESS;
    }
    size_t slotsize() const { return sizeof(ZyanListNode) + c.es; }
    void init() {
        g_list() = this; dispose(); memset(mem, mc::junk(0xEE), sizeof mem); m.clear(); dead.clear(); known.clear(); t.reset(); heap::forbidden() = !c.deflt; ZyanStatus s;
        if (c.fixed) { buf.init(slotsize() * c.slots + std::min(c.extra, slotsize() - 1)); s = ZyanListInitCustomBuffer(l, c.es, c.dtor ? s_dtor : nullptr, buf.p, buf.n); }
        else if (c.deflt) s = ZyanListInit(l, c.es, c.dtor ? s_dtor : nullptr); else s = ZyanListInitEx(l, c.es, c.dtor ? s_dtor : nullptr, &t.base);
        CHECK(s == ZYAN_STATUS_SUCCESS, "initialization failed: %s", st_name(s)); inited = true; mc::text("%s ", c.str().c_str()); verify();
    }
    void dispose() { if (inited) { inited = false; if (c.deflt) { heap::forbidden() = false; ZyanListDestroy(l); } } t.reset(); buf.release(); }
    void destroy() {
        g_list() = this; dead.clear(); mc::text("destroy"); ZyanStatus s = ZyanListDestroy(l); inited = false;
        CHECK(s == ZYAN_STATUS_SUCCESS, "destruction failed: %s", st_name(s));
        std::vector<uint32_t> w; for (auto& x : m) w.push_back(x.v);
        if (ck & CK_DTOR) check_dead(w, "on destruction");
        if (c.deflt) heap::expect_none("after destruction of the list"); else if (!c.fixed) t.expect_no_leak("after destruction of the list");
        if (c.fixed) buf.release();
    }
    void check_dead(std::vector<uint32_t> want, const char* when) {
        if (!c.dtor) return;
        std::vector<uint32_t> got = dead; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        if (got == want) return;
        std::string g, w; for (auto x : got) g += x == ~0u ? " garbage" : " " + std::to_string(x); for (auto x : want) w += " " + std::to_string(x);
        mc::fail("destroyed elements %s: {%s } but exactly {%s } left the container", when, g.c_str(), w.c_str());
    }
    size_t size() { ZyanUSize x = 0; ZyanStatus s = ZyanListGetSize(l, &x); CHECK(s == ZYAN_STATUS_SUCCESS, "size query failed: %s", st_name(s)); return x; }
    const ZyanListNode* head() { const ZyanListNode* n = (ZyanListNode*)1; CHECK(ZyanListGetHeadNode(l, &n) == ZYAN_STATUS_SUCCESS, "head query failed"); return n; }
    const ZyanListNode* tail() { const ZyanListNode* n = (ZyanListNode*)1; CHECK(ZyanListGetTailNode(l, &n) == ZYAN_STATUS_SUCCESS, "tail query failed"); return n; }
    std::string dumpm(const std::vector<N>& w) { std::string o = "["; for (size_t i = 0; i < w.size() && i < 40; i++) o += (i ? "," : "") + std::to_string(w[i].v); return o + "]"; }
    bool walk_is(const std::vector<N>& w) {
        const ZyanListNode* n = head();
        for (auto& x : w) { if (!n) return false; if (!el_is((const uint8_t*)ZyanListGetNodeData(n), c.es, x.v)) return false; ZyanListGetNextNode(&n); }
        return n == nullptr && size() == w.size();
    }
    void verify() {
        if (building) { size_t n = size(); CHECK(n == m.size(), "size is %zu, expected %zu", n, m.size()); return; }
        if (mc::E().quiet && !m.empty() && m.back().n) { bool all = true; for (auto& x : m) all = all && x.n; if (all) return; }
        pg::Seal sealed;
        size_t n = size(); CHECK(n == m.size(), "size is %zu, expected %zu", n, m.size());
        const ZyanListNode* p = head(); std::vector<const ZyanListNode*> fw;
        std::string got = "[";
        for (size_t i = 0; p && i <= m.size(); i++) {
            fw.push_back(p); const void* d = ZyanListGetNodeData(p); if (c.es == 4 && d && &mcm_list_get) { uint32_t g = mcm_list_get(p); CHECK(!memcmp(&g, d, 4), "ZYAN_LIST_GET yields something else than the data of the node"); } void* dm = ZyanListGetNodeDataMutable((ZyanListNode*)p); const void* dx = nullptr; void* dmx = nullptr;
            CHECK(d && d == dm && ZyanListGetNodeDataEx(p, &dx) == ZYAN_STATUS_SUCCESS && dx == d && ZyanListGetNodeDataMutableEx((ZyanListNode*)p, &dmx) == ZYAN_STATUS_SUCCESS && dmx == dm, "node data accessors disagree");
            if (i < m.size()) {
                CHECK(el_is((const uint8_t*)d, c.es, m[i].v), "element %zu of the forward walk is %u, expected list %s", i, el_get((const uint8_t*)d, c.es), dumpm(m).c_str());
                if (m[i].n) CHECK(m[i].n == p, "element %zu changed its node", i); else { m[i].n = p; if (c.fixed && std::find(known.begin(), known.end(), p) == known.end()) known.push_back(p); }
                if (c.fixed) CHECK((const uint8_t*)d >= buf.p && (const uint8_t*)d + c.es <= buf.p + buf.n && (const uint8_t*)p >= buf.p && (const uint8_t*)(p + 1) <= buf.p + buf.n, "element %zu lies outside the supplied buffer", i);
            }
            CHECK(ZyanListGetNextNode(&p) == ZYAN_STATUS_SUCCESS, "forward step failed");
        }
        CHECK(fw.size() == m.size() && !p, "forward walk visits %s%zu nodes, expected %s", p ? "more than " : "", fw.size(), dumpm(m).c_str());
        p = tail(); size_t i = fw.size();
        while (p && i > 0) { i--; CHECK(p == fw[i], "backward walk differs from the forward walk at element %zu of %s", i, dumpm(m).c_str()); CHECK(ZyanListGetPrevNode(&p) == ZYAN_STATUS_SUCCESS, "backward step failed"); }
        CHECK(!p && i == 0, "backward walk has another length than the forward walk of %s", dumpm(m).c_str());
        for (size_t a = 0; a < fw.size(); a++) for (size_t b = a + 1; b < fw.size() && fw.size() < 50; b++) { const uint8_t *x = (const uint8_t*)fw[a], *y = (const uint8_t*)fw[b]; CHECK(x + slotsize() <= y || y + slotsize() <= x, "elements %zu and %zu share storage", a, b); }
    }
    void pre(bool f = false, int skip = 0) {
        g_list() = this; heap::forbidden() = !c.deflt; dead.clear(); ctor_calls = 0; fault_hit = false; skip_faults = skip;
        std::function<bool()> r = nullptr; if (f) r = [this]() { if (skip_faults-- > 0) return false; fault_hit = true; return true; };
        if (c.deflt) heap::refuse() = r; else t.refuse = r;
    }
    void norefuse() { t.refuse = nullptr; heap::refuse() = nullptr; }
    typedef std::vector<N> W;
    void settle(ZyanStatus s, const W& want, std::vector<uint32_t> removed, const char* what) {
        norefuse();
        if (c.fixed && want.size() > c.slots) { CHECK(s == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%s: %zu elements do not fit into %zu slots, but the status is %s", what, want.size(), c.slots, st_name(s)); if (ck & CK_DTOR) check_dead({}, "by a refused operation"); verify(); return; }
        if (fault_hit) { CHECK(s == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "%s: allocator reported NOT_ENOUGH_MEMORY but the status is %s", what, st_name(s)); if (ck & CK_DTOR) check_dead({}, "by a failed operation"); verify(); return; }
        CHECK(s == ZYAN_STATUS_SUCCESS, "%s: failed with %s", what, st_name(s)); m = want; if (ck & CK_DTOR) check_dead(removed, "by the operation"); verify();
    }
    pg::Arg enc(uint32_t x) { std::vector<uint8_t> b(c.es); el_fill(b.data(), c.es, x); return pg::Arg(b.data(), b.size()); }
    W with(bool front, uint32_t x) { W w = m; if (front) w.insert(w.begin(), {x, nullptr}); else w.push_back({x, nullptr}); return w; }
    void push(bool front, uint32_t x, bool f = false) {
        mc::text("push_%s(%u)%s ", front ? "front" : "back", x, f ? "!" : ""); pre(f); auto b = enc(x);
        ZyanStatus s = front ? ZyanListPushFront(l, b.data()) : ZyanListPushBack(l, b.data()); settle(s, with(front, x), {}, "push");
    }
    void emplace(bool front, uint32_t x, int mode, bool f = false) {
        mc::text("emplace_%s(%u,%s)%s ", front ? "front" : "back", x, mode == 0 ? "-" : mode == 1 ? "ctor" : "failing-ctor", f ? "!" : ""); pre(f);
        void* e = (void*)1; ctor_fail = mode == 2; ctor_val = x; ctor_arg = nullptr;
        ZyanStatus s = front ? ZyanListEmplaceFront(l, &e, mode ? s_ctor : nullptr) : ZyanListEmplaceBack(l, &e, mode ? s_ctor : nullptr);
        if ((!c.fixed || m.size() < c.slots) && !fault_hit) {
            if (mode == 2) { norefuse(); CHECK(ctor_calls == 1, "constructor called %d times", ctor_calls); CHECK(s == ZYAN_STATUS_NOT_FOUND, "constructor failure reported as %s", st_name(s)); if (ck & CK_DTOR) check_dead({}, "by a failed construction"); verify(); return; }
            CHECK(s == ZYAN_STATUS_SUCCESS, "emplace: failed with %s", st_name(s));
            if (mode == 1) { CHECK(ctor_calls == 1, "constructor called %d times", ctor_calls); CHECK(ctor_arg == e, "constructor ran on other storage than reported"); }
            const ZyanListNode* n = front ? head() : tail(); CHECK(n && ZyanListGetNodeData(n) == e, "emplace reported storage that is not the new element");
            if (mode == 0) el_fill((uint8_t*)e, c.es, x);
        } else CHECK(ctor_calls == 0, "constructor called although there is no room");
        settle(s, with(front, x), {}, "emplace");
    }
    void pop(bool front) {
        mc::text("pop_%s ", front ? "front" : "back"); pre(); ZyanStatus s = front ? ZyanListPopFront(l) : ZyanListPopBack(l);
        if (m.empty()) { CHECK(ZYAN_FAILED(s), "pop of an empty list reported %s", st_name(s)); if (ck & CK_DTOR) check_dead({}, "by a refused pop"); verify(); return; }
        W w = m; uint32_t x = front ? w.front().v : w.back().v; if (front) w.erase(w.begin()); else w.pop_back(); settle(s, w, {x}, "pop");
    }
    void remove(size_t i, size_t j, bool range) { // inclusive
        mc::text("remove(%zu..%zu) ", i, j); pre(); ZyanStatus s = range ? ZyanListRemoveRange(l, m[i].n, m[j].n) : ZyanListRemove(l, m[i].n);
        W w = m; std::vector<uint32_t> r; for (size_t k = i; k <= j; k++) r.push_back(w[k].v); w.erase(w.begin() + i, w.begin() + j + 1); settle(s, w, r, "remove");
    }
    void set(size_t i, uint32_t x) { mc::text("set(%zu,%u) ", i, x); pre(); auto b = enc(x); ZyanStatus s = ZyanListSetNodeData(l, m[i].n, b.data()); W w = m; uint32_t o = w[i].v; w[i].v = x; settle(s, w, {o}, "set"); }
    void resize(size_t n, int64_t ini, bool f = false, int skip = 0) {
        mc::text("resize(%zu%s%s)%s ", n, ini >= 0 ? ",init=" : "", ini >= 0 ? std::to_string(ini).c_str() : "", f ? (skip ? ("!" + std::to_string(skip)).c_str() : "!") : ""); pre(f, skip);
        W w = m; std::vector<uint32_t> r; size_t o = m.size();
        for (size_t k = n; k < o; k++) r.push_back(w[k].v); if (n < o) w.resize(n); while (w.size() < n) w.push_back({ini >= 0 ? (uint32_t)ini : 77u, nullptr});
        ZyanStatus s; if (ini >= 0) { auto b = enc((uint32_t)ini); s = ZyanListResizeEx(l, n, b.data()); } else s = n == 0 ? ZyanListClear(l) : ZyanListResize(l, n);
        if (ini < 0 && n > o && s == ZYAN_STATUS_SUCCESS) { size_t k = 0; for (const ZyanListNode* p = head(); p && k < n; k++) { if (k >= o) el_fill((uint8_t*)ZyanListGetNodeDataMutable((ZyanListNode*)p), c.es, 77); ZyanListGetNextNode(&p); } }
        settle(s, w, r, "resize");
    }
    // Nodes that are not part of the list keep only their forward link: the other bytes of a free
    // slot carry no meaning, so they are masked (and restored) while the state is identified.
    std::vector<const ZyanListNode*> known;
    void image(mc::Hash& h) {
        std::vector<std::pair<uint8_t*, std::vector<uint8_t>>> saved;
        if (c.fixed) for (auto n : known) {
            bool live = false; for (auto& x : m) live = live || x.n == n;
            uint8_t* p = (uint8_t*)n; if (live || p < buf.p || p + slotsize() > buf.p + buf.n) continue;
            saved.push_back({p, std::vector<uint8_t>(p, p + slotsize())});
            memset((void*)&((ZyanListNode*)p)->prev, 0, sizeof(void*)); memset(p + sizeof(ZyanListNode), mc::junk(0xCD), c.es);
        }
        Image im; im.add(t); im.add_heap(); if (c.fixed) im.add(buf.p, buf.n); im.add(mem, sizeof mem); im.hash(h, mem, sizeof mem); h.u64(m.size()); for (auto& x : m) h.u64(x.v);
        for (auto& x : saved) memcpy(x.first, x.second.data(), x.second.size());
    }
};
struct LOp { int kind; size_t a, b; uint32_t x; bool f; };
enum { L_PUSHB, L_PUSHF, L_EMPB, L_EMPF, L_POPB, L_POPF, L_REM, L_REMR, L_SETV, L_RES, L_RESI };
struct ListSys : mc::System {
    ListObj o; std::vector<LOp> ops; size_t maxn;
    ListSys(ListCfg c, int ck, size_t maxn_, bool faults, bool failctor, int nval = 2, bool over = false) : maxn(maxn_) {
        o.c = c; o.ck = ck; (void)over;
        for (int f = 0; f < (faults ? 2 : 1); f++) {
            auto add = [&](int k, size_t a, size_t b, uint32_t x) { ops.push_back({k, a, b, x, f == 1}); };
            for (int x = 1; x <= nval; x++) { add(L_PUSHB, 0, 0, x); add(L_PUSHF, 0, 0, x); }
            add(L_EMPB, 1, 0, 1); add(L_EMPF, 1, 0, 1); if (nval > 1) { add(L_EMPB, 0, 0, 2); add(L_EMPF, 0, 0, 2); }
            if (failctor) { add(L_EMPB, 2, 0, 1); add(L_EMPF, 2, 0, 1); }
            for (size_t i = 0; i <= maxn; i++) for (size_t k = 0; k < (f ? maxn : 1); k++) { add(L_RES, i, k, 0); add(L_RESI, i, k, 1); }
            if (f) continue;
            add(L_POPB, 0, 0, 0); add(L_POPF, 0, 0, 0);
            for (size_t i = 0; i < maxn; i++) { add(L_REM, i, 0, 0); for (int x = 1; x <= nval; x++) add(L_SETV, i, 0, x); for (size_t j = i; j < maxn; j++) add(L_REMR, i, j, 0); }
        }
    }
    int nops() override { return (int)ops.size(); }
    void reset() override { o.init(); }
    int step(int i) override {
        const LOp& p = ops[i]; size_t n = o.m.size(); o.fault_hit = false; bool full = n >= maxn;
        switch (p.kind) {
        case L_PUSHB: if (full) return 0; o.push(false, p.x, p.f); break;
        case L_PUSHF: if (full) return 0; o.push(true, p.x, p.f); break;
        case L_EMPB: if (full) return 0; o.emplace(false, p.x, (int)p.a, p.f); break;
        case L_EMPF: if (full) return 0; o.emplace(true, p.x, (int)p.a, p.f); break;
        case L_POPB: o.pop(false); break;
        case L_POPF: o.pop(true); break;
        case L_REM: if (p.a >= n) return 0; o.remove(p.a, p.a, false); break;
        case L_REMR: if (p.b >= n) return 0; o.remove(p.a, p.b, true); break;
        case L_SETV: if (p.a >= n) return 0; o.set(p.a, p.x); break;
        case L_RES: if (p.f && (p.a <= n || p.b >= p.a - n)) return 0; o.resize(p.a, -1, p.f, (int)p.b); break;
        case L_RESI: if (p.f && (p.a <= n || p.b >= p.a - n)) return 0; o.resize(p.a, p.x, p.f, (int)p.b); break;
        }
        if (p.f && !o.fault_hit) return 2;
        if (p.f) mc::E().sh->faults++;
        return 1;
    }
    void key(mc::Hash& h) override { o.image(h); }
    void finish() override { o.destroy(); }
};
