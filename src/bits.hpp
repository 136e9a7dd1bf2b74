// bits.hpp - ZyanBitset under exploration, with an ideal bit sequence.
#pragma once
#include "vec.hpp"
struct BitCfg {
    int growth = 2, thr = 2; size_t n0 = 0; bool fixed = false, deflt = false; size_t fixcap = 0; // fixcap: bytes
    std::string str() const {
        char b[120];
        if (fixed) snprintf(b, sizeof b, "bitsfixed(n=%zu,buf=%zu)", n0, fixcap); else snprintf(b, sizeof b, "bits(n=%zu,growth=%d,shrink=%d%s)", n0, growth, thr, deflt ? ",default" : "");
        return b;
    }
};
inline size_t B8(size_t n) { return n / 8 + (n % 8 != 0); }
struct BitObj {
    BitCfg c; int ck = CK_CONTENT; Tracker t; Guarded buf;
    pg::Mem<ZyanBitset> store; uint8_t (&mem)[sizeof(ZyanBitset)] = store.arr(); ZyanBitset* b = (ZyanBitset*)mem;
    std::vector<uint8_t> m; bool inited = false; bool fault_hit = false, building = false; size_t cap_before = 0; size_t maxbits = 0;
    void init() {
        dispose(); memset(mem, mc::junk(0xEE), sizeof mem); t.reset(); heap::forbidden() = !c.deflt; ZyanStatus s;
        if (c.fixed) { buf.init(c.fixcap); memset(buf.p, mc::junk(0xCD), c.fixcap); s = ZyanBitsetInitBuffer(b, c.n0, buf.p, c.fixcap); }
        else if (c.deflt) s = ZyanBitsetInit(b, c.n0); else s = ZyanBitsetInitEx(b, c.n0, &t.base, (ZyanU8)c.growth, (ZyanU8)c.thr);
        CHECK(s == ZYAN_STATUS_SUCCESS, "initialization failed: %s", st_name(s));
        inited = true; m.assign(c.n0, 0); mc::text("%s ", c.str().c_str()); verify();
    }
    void dispose() { if (inited) { inited = false; if (c.deflt) { heap::forbidden() = false; ZyanBitsetDestroy(b); } } t.reset(); buf.release(); }
    void destroy() {
        mc::text("destroy"); ZyanStatus s = ZyanBitsetDestroy(b); inited = false;
        CHECK(s == ZYAN_STATUS_SUCCESS, "destruction failed: %s", st_name(s));
        if (c.deflt) heap::expect_none("after destruction of the bitset"); else if (!c.fixed) t.expect_no_leak("after destruction of the bitset");
        if (c.fixed) buf.release();
    }
    size_t size() { ZyanUSize x = 0; ZyanStatus s = ZyanBitsetGetSize(b, &x); CHECK(s == ZYAN_STATUS_SUCCESS, "size query failed: %s", st_name(s)); return x; }
    size_t cap() { ZyanUSize x = 0; ZyanStatus s = ZyanBitsetGetCapacity(b, &x); CHECK(s == ZYAN_STATUS_SUCCESS, "capacity query failed: %s", st_name(s)); return x; }
    bool bit(size_t i) { ZyanStatus s = ZyanBitsetTest(b, i); CHECK(s == ZYAN_STATUS_TRUE || s == ZYAN_STATUS_FALSE, "testing bit %zu of %zu failed: %s", i, m.size(), st_name(s)); return s == ZYAN_STATUS_TRUE; }
    std::string dump(const std::vector<uint8_t>& v) { std::string o; for (size_t i = 0; i < v.size() && i < 100; i++) o += v[i] ? '1' : '0'; return o; }
    void verify() {
        if (mc::E().quiet || building) return;
        pg::Seal sealed;
        size_t n = size(); CHECK(n == m.size(), "size is %zu bits, expected %zu", n, m.size());
        size_t pc = 0;
        for (size_t i = 0; i < n; i++) { bool x = bit(i); CHECK(x == (bool)m[i], "bit %zu of %zu reads %d, expected %d", i, n, x, m[i]); pc += x; }
        for (size_t i : {n, n + 1, n + 7, n + 8}) CHECK(ZyanBitsetTest(b, i) == ZYAN_STATUS_OUT_OF_RANGE, "test of bit %zu of a bitset of %zu bits not refused", i, n);
        ZyanStatus hi = ZyanBitsetTestMSB(b), lo = ZyanBitsetTestLSB(b);
        if (n) { CHECK(hi == (m[n - 1] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "last bit query is %s, bit %zu is %d", st_name(hi), n - 1, m[n - 1]); CHECK(lo == (m[0] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "first bit query is %s, bit 0 is %d", st_name(lo), m[0]); }
        else CHECK(hi == ZYAN_STATUS_OUT_OF_RANGE && lo == hi, "first/last bit query on an empty bitset: %s, %s", st_name(lo), st_name(hi));
        size_t cp = cap(); CHECK(cp >= n, "capacity %zu below size %zu", cp, n);
        ZyanUSize sb = 0, cb = 0;
        CHECK(ZyanBitsetGetSizeBytes(b, &sb) == ZYAN_STATUS_SUCCESS && ZyanBitsetGetCapacityBytes(b, &cb) == ZYAN_STATUS_SUCCESS, "byte size query failed");
        CHECK(sb == B8(n) && cb * 8 == cp, "byte size %zu / byte capacity %zu of %zu bits with capacity %zu", (size_t)sb, (size_t)cb, n, cp);
        if (c.fixed) CHECK(cb == c.fixcap, "capacity of a %zu byte buffer is %zu bytes", c.fixcap, (size_t)cb);
        if (ck & CK_CAP) {
            ZyanUSize k = 12345; CHECK(ZyanBitsetCount(b, &k) == ZYAN_STATUS_SUCCESS && k == pc, "population count of %s is %zu, expected %zu", dump(m).c_str(), (size_t)k, pc);
            ZyanStatus a = ZyanBitsetAll(b), y = ZyanBitsetAny(b), z = ZyanBitsetNone(b);
            CHECK(a == (pc == n ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "all(%s) is %s", dump(m).c_str(), st_name(a));
            CHECK(y == (pc ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "any(%s) is %s", dump(m).c_str(), st_name(y));
            CHECK(z == (pc ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE), "none(%s) is %s", dump(m).c_str(), st_name(z));
        }
    }
    void pre(bool f = false) {
        heap::forbidden() = !c.deflt; fault_hit = false; cap_before = cap();
        std::function<bool()> r = nullptr; if (f) r = [this]() { fault_hit = true; return true; };
        if (c.deflt) heap::refuse() = r; else t.refuse = r;
    }
    void settle(ZyanStatus s, size_t needed, const std::vector<uint8_t>& want, bool removal, const char* what) {
        t.refuse = nullptr; heap::refuse() = nullptr;
        if (c.fixed && B8(needed) > c.fixcap) { CHECK(s == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%s: %zu bits do not fit into %zu bytes, but the status is %s", what, needed, c.fixcap, st_name(s)); verify(); return; }
        if (fault_hit) {
            CHECK(s == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "%s: allocator reported NOT_ENOUGH_MEMORY but the status is %s", what, st_name(s));
            if (removal && size() == want.size()) m = want;
            verify(); return;
        }
        CHECK(s == ZYAN_STATUS_SUCCESS, "%s: failed with %s", what, st_name(s)); m = want; verify();
    }
    void refused(ZyanStatus s, ZyanStatus want, const char* what) { t.refuse = nullptr; heap::refuse() = nullptr; CHECK(s == want, "%s: status %s, expected %s", what, st_name(s), st_name(want)); verify(); }
    typedef std::vector<uint8_t> V;
    // op: 0 set 1 reset 2 assign0 3 assign1 4 toggle
    void one(int op, size_t i) {
        static const char* nm[] = {"set", "reset", "assign0", "assign1", "toggle"}; mc::text("%s(%zu) ", nm[op], i); pre();
        ZyanStatus s = op == 0 ? ZyanBitsetSet(b, i) : op == 1 ? ZyanBitsetReset(b, i) : op == 2 ? ZyanBitsetAssign(b, i, ZYAN_FALSE) : op == 3 ? ZyanBitsetAssign(b, i, ZYAN_TRUE) : ZyanBitsetToggle(b, i);
        if (i >= m.size()) { refused(s, ZYAN_STATUS_OUT_OF_RANGE, "access past the end"); return; }
        V w = m; w[i] = op == 4 ? !w[i] : (op == 0 || op == 3); settle(s, 0, w, false, nm[op]);
    }
    // 0 set-all 1 reset-all 2 flip
    void all(int op) {
        static const char* nm[] = {"setall", "resetall", "flip"}; mc::text("%s ", nm[op]); pre();
        ZyanStatus s = op == 0 ? ZyanBitsetSetAll(b) : op == 1 ? ZyanBitsetResetAll(b) : ZyanBitsetFlip(b);
        V w = m; for (auto& x : w) x = op == 0 ? 1 : op == 1 ? 0 : !x; settle(s, 0, w, false, nm[op]);
    }
    void push(int x, bool f = false) { mc::text("push(%d)%s ", x, f ? "!" : ""); pre(f); ZyanStatus s = ZyanBitsetPush(b, (ZyanBool)x); V w = m; w.push_back(x != 0); settle(s, w.size(), w, false, "push"); }
    void pop(bool f = false) {
        mc::text("pop%s ", f ? "!" : ""); pre(f); ZyanStatus s = ZyanBitsetPop(b);
        if (m.empty()) { t.refuse = nullptr; heap::refuse() = nullptr; CHECK(ZYAN_FAILED(s), "pop of an empty bitset reported %s", st_name(s)); verify(); return; }
        V w = m; w.pop_back(); settle(s, 0, w, true, "pop");
    }
    void clear(bool f = false) { mc::text("clear%s ", f ? "!" : ""); pre(f); ZyanStatus s = ZyanBitsetClear(b); settle(s, 0, V(), true, "clear"); }
    void reserve(size_t n, bool f = false) {
        mc::text("reserve(%zu)%s ", n, f ? "!" : ""); pre(f); ZyanStatus s = ZyanBitsetReserve(b, n); settle(s, n, m, false, "reserve");
        if (s == ZYAN_STATUS_SUCCESS) CHECK(cap() >= n && cap() >= cap_before, "capacity %zu (before %zu) after reserving %zu bits", cap(), cap_before, n);
    }
    void shrink(bool f = false) {
        mc::text("shrink%s ", f ? "!" : ""); pre(f); ZyanStatus s = ZyanBitsetShrinkToFit(b); settle(s, 0, m, false, "shrink-to-fit");
        if (s == ZYAN_STATUS_SUCCESS && !c.fixed) CHECK(cap() == 8 * std::max<size_t>(1, B8(m.size())), "capacity %zu bits after shrink-to-fit of %zu bits", cap(), m.size());
    }
    static ZyanStatus op_nand(ZyanU8* a, const ZyanU8* s) { *a = (ZyanU8)~(*a & *s); return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus op_copy(ZyanU8* a, const ZyanU8* s) { *a = *s; return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus op_andnot(ZyanU8* a, const ZyanU8* s) { *a = (ZyanU8)(*a & ~*s); return ZYAN_STATUS_SUCCESS; }
    static bool fn(int op, bool a, bool s) { switch (op) { case 0: return a && s; case 1: return a || s; case 2: return a != s; case 3: return !(a && s); case 4: return s; default: return a && !s; } }
    // bulk operation with another set; bits the two sets share only as part of a partial byte are not specified
    void bulk(int op, BitObj& o) {
        static const char* nm[] = {"and", "or", "xor", "nand", "copy", "andnot"}; mc::text("%s(%s) ", nm[op], o.dump(o.m).c_str()); pre();
        ZyanStatus s = op == 0 ? ZyanBitsetAND(b, o.b) : op == 1 ? ZyanBitsetOR(b, o.b) : op == 2 ? ZyanBitsetXOR(b, o.b) : ZyanBitsetPerformByteOperation(b, o.b, op == 3 ? op_nand : op == 4 ? op_copy : op_andnot);
        V w = m; size_t k = std::min(m.size(), o.m.size());
        for (size_t i = 0; i < k; i++) w[i] = fn(op, m[i], o.m[i]);
        for (size_t i = k; i < m.size() && i < B8(o.m.size()) * 8; i++) w[i] = ZyanBitsetTest(b, i) == ZYAN_STATUS_TRUE;
        settle(s, 0, w, false, nm[op]); o.verify();
    }
    void scrub() {
        uint8_t* p; size_t bn; size_t used = B8(m.size());
        if (c.fixed) { p = buf.p; bn = buf.n; } else if (c.deflt) { if (heap::live().size() != 1) return; p = (uint8_t*)heap::live()[0].p; bn = heap::live()[0].n; }
        else { if (t.live.size() != 1) return; p = (uint8_t*)t.live[0].p; bn = t.live[0].es * t.live[0].n; }
        if (used < bn) memset(p + used, mc::junk(0xCD), bn - used);
    }
    void image(mc::Hash& h) { Image im; im.add(t); im.add_heap(); if (c.fixed) im.add(buf.p, buf.n); im.add(mem, sizeof mem); im.hash(h, mem, sizeof mem); h.u64(m.size()); h.bytes(m.data(), m.size()); }
};
struct BOp { int kind; size_t a, b; bool f; };
enum { B_ONE, B_ALL, B_PUSH, B_POP, B_CLEAR, B_RSV, B_SHR, B_BULK };
struct BitSys : mc::System {
    BitObj o; std::vector<BOp> ops; size_t maxn; std::vector<std::vector<uint8_t>> partners;
    // bulks: combine with partner sets of several sizes and patterns
    BitSys(BitCfg c, int ck, size_t maxn_, bool faults, bool bulks, std::vector<size_t> pos) : maxn(maxn_) {
        o.c = c; o.ck = ck;
        for (int f = 0; f < (faults ? 2 : 1); f++) {
            auto add = [&](int k, size_t a, size_t b) { ops.push_back({k, a, b, f == 1}); };
            add(B_PUSH, 0, 0); add(B_PUSH, 1, 0); add(B_POP, 0, 0); add(B_CLEAR, 0, 0); add(B_SHR, 0, 0);
            add(B_RSV, 0, 0); add(B_RSV, maxn, 0); add(B_RSV, maxn + 9, 0);
            if (f) continue;
            for (size_t p : pos) for (int k = 0; k < 5; k++) if (k != 2 || p % 2) add(B_ONE, k, p);
            add(B_ONE, 0, maxn + 1); add(B_ONE, 1, (size_t)-2); // one past the current size / last (see step)
            for (int k = 0; k < 3; k++) add(B_ALL, k, 0);
            if (bulks) for (size_t n : {(size_t)0, (size_t)3, (size_t)8, (size_t)9, maxn}) for (int pat = 0; pat < 3; pat++) {
                std::vector<uint8_t> v; for (size_t i = 0; i < n; i++) v.push_back(pat == 0 ? (i % 3 == 0) : pat == 1 ? 1 : (i % 2));
                if (n == 0 && pat) continue;
                partners.push_back(v); for (int k = 0; k < 6; k++) add(B_BULK, k, partners.size() - 1);
            }
        }
    }
    int nops() override { return (int)ops.size(); }
    void reset() override { o.init(); }
    int step(int i) override {
        const BOp& p = ops[i]; size_t n = o.m.size(); o.fault_hit = false;
        switch (p.kind) {
        case B_ONE: { size_t x = p.b; if (x == maxn + 1) x = n; else if (x == (size_t)-2) { if (!n) return 0; x = n - 1; } else if (x >= n) return 0; o.one((int)p.a, x); break; }
        case B_ALL: o.all((int)p.a); break;
        case B_PUSH: if (n >= maxn) return 0; o.push((int)p.a, p.f); break;
        case B_POP: o.pop(p.f); break;
        case B_CLEAR: o.clear(p.f); break;
        case B_RSV: o.reserve(p.a, p.f); break;
        case B_SHR: o.shrink(p.f); break;
        case B_BULK: { BitObj q; auto& w = partners[p.b]; q.c.n0 = w.size(); q.c.growth = 2; q.c.thr = 2; q.ck = 0; int tl = mc::E().s->tlen; q.init(); if (p.a % 2) q.all(0); for (size_t k = 0; k < w.size(); k++) q.one(w[k] ? 0 : 1, k); mc::E().s->tlen = tl; o.bulk((int)p.a, q); tl = mc::E().s->tlen; q.destroy(); mc::E().s->tlen = tl; mc::E().s->text[tl] = 0; break; }
        }
        if (p.f && !o.fault_hit) return 2;
        if (p.f) mc::E().sh->faults++;
        return 1;
    }
    void key(mc::Hash& h) override { o.scrub(); o.image(h); }
    void finish() override { o.destroy(); }
};
