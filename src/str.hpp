// str.hpp - ZyanString under exploration, with std::string as the ideal character sequence.
#pragma once
#include "vec.hpp"
#include <Zycore/Format.h>

// A source view over exactly n bytes; nothing is readable on either side, not even a terminator.
struct SrcView {
    Guarded g; pg::Mem<ZyanStringView> store; ZyanStringView& v; std::string s;
    SrcView(const std::string& x, bool terminated = false) : g(pg::ARG), store(pg::ARG), v(*(ZyanStringView*)store.p), s(x) {
        pg::Open open(pg::ARG); memset(&v, mc::junk(0x5A), sizeof v);
        ZyanStatus st;
        if (x.empty() || terminated) { g.init(x.size() + 1); memcpy(g.p, x.c_str(), x.size() + 1); st = ZyanStringViewInsideBuffer(&v, (char*)g.p); }
        else { g.init(x.size()); memcpy(g.p, x.data(), x.size()); st = ZyanStringViewInsideBufferEx(&v, (char*)g.p, x.size()); }
        CHECK(st == ZYAN_STATUS_SUCCESS, "view construction failed: %s", st_name(st));
        if (mc::E().seal) pg::seal(pg::ARG);
    }
    ~SrcView() { if (mc::E().seal) pg::unseal(pg::ARG); }
    void unchanged() { CHECK(!memcmp(g.p, s.data(), s.size()), "source characters were modified"); }
};
inline std::string q(const std::string& s) {
    std::string o = "\""; char b[8];
    if (s.size() > 80) { o += q(s.substr(0, 40)).substr(1); o.pop_back(); snprintf(b, 8, ".."); o += b; o += "(" + std::to_string(s.size()) + ")"; return o + "\""; }
    for (unsigned char c : s) if (c < 32 || c > 126 || c == '"') { snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c;
    return o + "\"";
}
struct StrCfg {
    int growth = 2, thr = 4; size_t cap0 = 0; bool fixed = false, deflt = false; size_t fixcap = 0;
    std::string str() const {
        char b[120];
        if (fixed) snprintf(b, sizeof b, "strfixed(buf=%zu)", fixcap); else snprintf(b, sizeof b, "str(growth=%d,shrink=%d,cap0=%zu%s)", growth, thr, cap0, deflt ? ",default" : "");
        return b;
    }
};
struct StrObj {
    StrCfg c; int ck = CK_CONTENT; Tracker t; Guarded buf;
    pg::Mem<ZyanString> store; uint8_t (&mem)[sizeof(ZyanString)] = store.arr(); ZyanString* s = (ZyanString*)mem;
    std::string m; bool inited = false;
    size_t cap_before = 0; uint64_t req_before = 0; bool fault_hit = false;
    const ZyanStringView* view() { return ZYAN_STRING_TO_VIEW(s); }
    void init() {
        dispose(); memset(mem, mc::junk(0xEE), sizeof mem); m.clear(); t.reset(); heap::forbidden() = !c.deflt;
        ZyanStatus st;
        if (c.fixed) { buf.init(c.fixcap); st = ZyanStringInitCustomBuffer(s, (char*)buf.p, c.fixcap); }
        else if (c.deflt) st = ZyanStringInit(s, c.cap0);
        else st = ZyanStringInitEx(s, c.cap0, &t.base, (ZyanU8)c.growth, (ZyanU8)c.thr);
        CHECK(st == ZYAN_STATUS_SUCCESS, "initialization failed: %s", st_name(st));
        inited = true; mc::text("%s ", c.str().c_str());
        if (ck & CK_CAP) CHECK(cap() >= c.cap0 || c.fixed, "capacity %zu after initialization with capacity %zu", cap(), c.cap0);
        verify();
    }
    void dispose() { if (inited) { inited = false; if (c.deflt) { heap::forbidden() = false; ZyanStringDestroy(s); } } t.reset(); buf.release(); }
    void destroy() {
        mc::text("destroy"); ZyanStatus st = ZyanStringDestroy(s); inited = false;
        CHECK(st == ZYAN_STATUS_SUCCESS, "destruction failed: %s", st_name(st));
        if (c.deflt) heap::expect_none("after destruction of the string");
        else if (!c.fixed) t.expect_no_leak("after destruction of the string");
        if (c.fixed) buf.release();
    }
    size_t cap() { ZyanUSize x = 0; ZyanStatus st = ZyanStringGetCapacity(s, &x); CHECK(st == ZYAN_STATUS_SUCCESS, "capacity query failed: %s", st_name(st)); return x; }
    size_t size() { ZyanUSize x = 0; ZyanStatus st = ZyanStringGetSize(s, &x); CHECK(st == ZYAN_STATUS_SUCCESS, "size query failed: %s", st_name(st)); return x; }
    const char* data() { const char* p = nullptr; ZyanStatus st = ZyanStringGetData(s, &p); CHECK(st == ZYAN_STATUS_SUCCESS && p, "data query failed: %s", st_name(st)); return p; }
    std::string now() { return std::string(data(), size()); }
    void verify() {
        if (mc::E().quiet) return;
        pg::Seal sealed;
        size_t n = size(); CHECK(n == m.size(), "size is %zu, expected %zu (expected content %s)", n, m.size(), q(m).c_str());
        const char* d = data();
        CHECK(!memcmp(d, m.data(), n), "content is %s, expected %s", q(std::string(d, n)).c_str(), q(m).c_str());
        CHECK(d[n] == 0, "string is not terminated (byte after the content is 0x%02x)", (unsigned char)d[n]);
        size_t cp = cap(); CHECK(cp >= n, "capacity %zu below size %zu", cp, n);
        if (c.fixed) CHECK(cp + 1 == c.fixcap, "capacity of a string in a %zu byte buffer is %zu", c.fixcap, cp);
        if (ck & CK_CONTENT) {
            for (size_t i = 0; i < n + 2; i += (n > 40 && i + 9 < n ? 9 : 1)) {
                char ch = 0x7B; char* pc = (char*)1;
                ZyanStatus a = ZyanStringGetChar(view(), i, &ch), b = ZyanStringGetCharMutable(s, i, &pc);
                if (i < n) CHECK(a == ZYAN_STATUS_SUCCESS && b == a && ch == m[i] && pc && *pc == m[i], "character access at %zu disagrees (%s, %s)", i, st_name(a), st_name(b));
                else CHECK(a == ZYAN_STATUS_OUT_OF_RANGE && b == a && ch == 0x7B && pc == (char*)1, "character access at %zu of a string of length %zu not refused", i, n);
            }
            ZyanUSize vs = 99; const char* vd = nullptr;
            CHECK(ZyanStringViewGetSize(view(), &vs) == ZYAN_STATUS_SUCCESS && vs == n && ZyanStringViewGetData(view(), &vd) == ZYAN_STATUS_SUCCESS && vd == d, "view of the string disagrees with the string");
        }
    }
    void pre(bool fault = false) {
        heap::forbidden() = !c.deflt; cap_before = cap(); req_before = t.reallocs; fault_hit = false; t.refused_big = false;
        std::function<bool()> r = nullptr; if (fault) r = [this]() { fault_hit = true; return true; };
        if (c.deflt) heap::refuse() = r; else t.refuse = r;
    }
    bool fits(size_t n) const { return !c.fixed || n + 1 <= c.fixcap; }
    void check_cap(char kind, size_t needed) {
        size_t cp = cap(); if (!(ck & CK_CAP) || c.fixed) return;
        CHECK(cp >= m.size(), "capacity %zu below size %zu", cp, m.size());
        if (c.thr == 0 && kind != 's') CHECK(cp >= cap_before, "capacity dropped from %zu to %zu with shrinking disabled", cap_before, cp);
        switch (kind) {
        case 'n': CHECK(cp == cap_before && t.reallocs == req_before, "capacity changed from %zu to %zu by an operation that does not change the size", cap_before, cp); break;
        case 'g':
            // with a threshold, a growing operation may give storage back as well (unspecified)
            if (needed <= cap_before && c.thr && m.size() * c.thr < cap_before + 1) CHECK(cp >= needed, "capacity %zu after growing to %zu characters", cp, needed);
            else if (needed <= cap_before) CHECK(cp == cap_before && t.reallocs == req_before, "storage reallocated (%zu to %zu) although %zu characters fit", cap_before, cp, needed);
            else if (c.growth == 1) CHECK(cp == needed, "growth factor 1: capacity %zu after growing to %zu characters", cp, needed);
            else CHECK(cp >= needed, "capacity %zu after growing to %zu characters", cp, needed);
            break;
        case 'r':
            if (c.thr == 0) { CHECK(cp == cap_before, "removal changed the capacity from %zu to %zu with shrinking disabled", cap_before, cp); break; }
            if (c.thr < c.growth) break;
            // counted with or without the terminator
            if ((m.size() + 1) * c.thr >= cap_before + 1 && m.size() * c.thr >= cap_before) CHECK(cp == cap_before, "removal released storage (%zu to %zu) although size %zu x threshold %d is not below the capacity", cap_before, cp, m.size(), c.thr);
            if ((m.size() + 1) * c.thr < cap_before + 1 && m.size() * c.thr < cap_before) CHECK(cp < cap_before || cap_before <= 1, "removal kept capacity %zu although size %zu x threshold %d is below it", cp, m.size(), c.thr);
            break;
        case 's': CHECK(cp == m.size() || (m.empty() && cp == 1), "capacity %zu after shrink-to-fit with size %zu", cp, m.size()); break;
        case 'v': CHECK(cp >= needed && cp >= cap_before, "capacity %zu (before %zu) after reserving %zu", cp, cap_before, needed); break;
        }
    }
    bool settle(ZyanStatus st, size_t needed, const std::string& want, char kind, const char* what) {
        t.refuse = nullptr; heap::refuse() = nullptr;
        if (!fits(needed)) {
            CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%s: %zu characters do not fit into a buffer of %zu bytes, but the status is %s", what, needed, c.fixcap, st_name(st));
            verify(); return false;
        }
        if (fault_hit) {
            CHECK(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "%s: allocator reported NOT_ENOUGH_MEMORY but the status is %s", what, st_name(st));
            if (kind == 'r') { if (size() == want.size() && now() == want) m = want; }
            verify(); return false;
        }
        CHECK(st == ZYAN_STATUS_SUCCESS, "%s: failed with %s", what, st_name(st));
        m = want; check_cap(kind, needed); verify(); return true;
    }
    void refused(ZyanStatus st, ZyanStatus want, const char* what) {
        t.refuse = nullptr; heap::refuse() = nullptr;
        CHECK(st == want, "%s: status %s, expected %s", what, st_name(st), st_name(want)); verify();
    }
    // ---- operations ----
    void append(const std::string& x, bool f = false) {
        mc::text("append(%s)%s ", q(x).c_str(), f ? "!" : ""); SrcView v(x); pre(f);
        ZyanStatus st = ZyanStringAppend(s, &v.v); settle(st, m.size() + x.size(), m + x, x.empty() ? 'x' : 'g', "append"); v.unchanged();
    }
    void append_ex(const std::string& x, size_t i, size_t n, bool f = false) {
        mc::text("append(%s,%zu,%zu)%s ", q(x).c_str(), i, n, f ? "!" : ""); SrcView v(x); pre(f);
        ZyanStatus st = ZyanStringAppendEx(s, &v.v, i, n);
        if (i > x.size() || n > x.size() - i) refused(st, ZYAN_STATUS_OUT_OF_RANGE, "append of a range outside the source");
        else settle(st, m.size() + n, m + x.substr(i, n), n ? 'g' : 'x', "append");
        v.unchanged();
    }
    void insert(size_t at, const std::string& x, bool f = false) {
        mc::text("insert(%zu,%s)%s ", at, q(x).c_str(), f ? "!" : ""); SrcView v(x); pre(f);
        ZyanStatus st = ZyanStringInsert(s, at, &v.v);
        if (at > m.size()) refused(st, ZYAN_STATUS_OUT_OF_RANGE, "insert past the end");
        else { std::string w = m; w.insert(at, x); settle(st, w.size(), w, 'g', "insert"); }
        v.unchanged();
    }
    void insert_ex(size_t at, const std::string& x, size_t i, size_t n, bool f = false) {
        mc::text("insert(%zu,%s,%zu,%zu)%s ", at, q(x).c_str(), i, n, f ? "!" : ""); SrcView v(x); pre(f);
        ZyanStatus st = ZyanStringInsertEx(s, at, &v.v, i, n);
        if (at > m.size() || i > x.size() || n > x.size() - i) refused(st, ZYAN_STATUS_OUT_OF_RANGE, "insert outside the destination or source");
        else { std::string w = m; w.insert(at, x.substr(i, n)); settle(st, w.size(), w, 'g', "insert"); }
        v.unchanged();
    }
    void del(size_t i, size_t n, bool f = false) {
        mc::text("delete(%zu,%zu)%s ", i, n, f ? "!" : ""); pre(f);
        ZyanStatus st = ZyanStringDelete(s, i, n);
        if (i > m.size() || n > m.size() - i) { refused(st, ZYAN_STATUS_OUT_OF_RANGE, "delete past the end"); return; }
        std::string w = m; w.erase(i, n); settle(st, 0, w, n ? 'r' : 'x', "delete");
    }
    void truncate(size_t i, bool f = false) {
        mc::text("truncate(%zu)%s ", i, f ? "!" : ""); pre(f);
        ZyanStatus st = ZyanStringTruncate(s, i);
        if (i > m.size()) { refused(st, ZYAN_STATUS_OUT_OF_RANGE, "truncate past the end"); return; }
        // truncating at the current end removes nothing; whether that is an error is not specified
        if (i == m.size() && st == ZYAN_STATUS_INVALID_ARGUMENT) { refused(st, st, "truncate"); return; }
        settle(st, 0, m.substr(0, i), i < m.size() ? 'r' : 'x', "truncate");
    }
    void clear(bool f = false) { mc::text("clear%s ", f ? "!" : ""); pre(f); ZyanStatus st = ZyanStringClear(s); settle(st, 0, "", m.empty() ? 'x' : 'r', "clear"); }
    void set(size_t i, char x, bool via_ptr = false) {
        mc::text("set(%zu,%02x) ", i, (unsigned char)x); pre(); ZyanStatus st; char* p = nullptr;
        if (via_ptr) { st = ZyanStringGetCharMutable(s, i, &p); if (i < m.size() && st == ZYAN_STATUS_SUCCESS) { CHECK(p, "null character pointer"); *p = x; } }
        else st = ZyanStringSetChar(s, i, x);
        if (i >= m.size()) { refused(st, ZYAN_STATUS_OUT_OF_RANGE, "set past the end"); return; }
        std::string w = m; w[i] = x; settle(st, 0, w, 'n', "set");
    }
    void resize(size_t n, bool f = false) {
        mc::text("resize(%zu)%s ", n, f ? "!" : ""); pre(f); size_t o = m.size();
        ZyanStatus st = ZyanStringResize(s, n);
        std::string w = m; w.resize(n, 'z');
        if (fits(n) && !fault_hit && st == ZYAN_STATUS_SUCCESS && n > o) {
            CHECK(size() == n, "size is %zu after resize to %zu", size(), n);
            CHECK(data()[n] == 0, "string is not terminated after resize");
            for (size_t i = o; i < n; i++) { ZyanStatus a = ZyanStringSetChar(s, i, 'z'); CHECK(a == ZYAN_STATUS_SUCCESS, "character %zu not writable after resize to %zu", i, n); }
        }
        settle(st, n, w, n < o ? 'r' : n > o && n > cap_before ? 'g' : 'x', "resize");
    }
    void reserve(size_t n, bool f = false) { mc::text("reserve(%zu)%s ", n, f ? "!" : ""); pre(f); ZyanStatus st = ZyanStringReserve(s, n); settle(st, n, m, 'v', "reserve"); }
    void shrink(bool f = false) { mc::text("shrink%s ", f ? "!" : ""); pre(f); ZyanStatus st = ZyanStringShrinkToFit(s); settle(st, 0, m, 's', "shrink-to-fit"); }
    static std::string fold(std::string x, bool up, size_t i, size_t n) {
        for (size_t k = i; k < i + n; k++) { unsigned char ch = x[k]; if (up ? (ch >= 'a' && ch <= 'z') : (ch >= 'A' && ch <= 'Z')) x[k] = (char)(ch ^ 32); }
        return x;
    }
    void conv(bool up, size_t i, size_t n, bool whole = false) {
        if (whole) { i = 0; n = m.size(); }
        mc::text("%s(%zu,%zu) ", up ? "upper" : "lower", i, n); pre();
        ZyanStatus st = whole ? (up ? ZyanStringToUpperCase(s) : ZyanStringToLowerCase(s)) : (up ? ZyanStringToUpperCaseEx(s, i, n) : ZyanStringToLowerCaseEx(s, i, n));
        if (i > m.size() || n > m.size() - i) { refused(st, ZYAN_STATUS_OUT_OF_RANGE, "case conversion past the end"); return; }
        settle(st, 0, fold(m, up, i, n), 'n', "case conversion");
    }
    // number formatting: kind 0 DecU, 1 DecS, 2 HexU, 3 HexS
    static std::string num(int kind, uint64_t v, unsigned pad, bool upper, bool plus, const std::string* prefix) {
        char b[32]; std::string o; bool neg = (kind & 1) && (int64_t)v < 0; uint64_t u = neg ? 0 - v : v;
        if (kind & 1) { o = neg ? "-" : plus ? "+" : ""; if (prefix) o += *prefix; }
        int n = 0; unsigned base = kind < 2 ? 10 : 16; if (!u) b[n++] = '0';
        while (u) { unsigned d = (unsigned)(u % base); b[n++] = d < 10 ? (char)('0' + d) : (char)((upper ? 'A' : 'a') + d - 10); u /= base; }
        for (unsigned k = n; k < pad; k++) o += '0';
        while (n) o += b[--n];
        return o;
    }
    void fmt(int kind, uint64_t v, unsigned pad, bool upper, bool plus, const std::string* prefix, bool f = false, bool quiet = false) {
        std::string x = num(kind, v, pad, upper, plus, prefix);
        if (!quiet) { static const char* nm[] = {"DecU", "DecS", "HexU", "HexS"}; mc::text("%s(0x%llx,pad=%u%s%s%s) ", nm[kind], (unsigned long long)v, pad, upper ? ",upper" : "", plus ? ",plus" : "", prefix ? (",prefix=" + q(*prefix)).c_str() : ""); }
        pre(f);
        ZyanStatus st;
        if (prefix) {
            SrcView p(*prefix);
            st = kind == 1 ? ZyanStringAppendDecS(s, (ZyanI64)v, (ZyanU8)pad, plus, &p.v) : ZyanStringAppendHexS(s, (ZyanI64)v, (ZyanU8)pad, upper, plus, &p.v);
            p.unchanged();
        } else switch (kind) {
            case 0: st = ZyanStringAppendDecU(s, v, (ZyanU8)pad); break;
            case 1: st = ZyanStringAppendDecS(s, (ZyanI64)v, (ZyanU8)pad, plus, nullptr); break;
            case 2: st = ZyanStringAppendHexU(s, v, (ZyanU8)pad, upper); break;
            default: st = ZyanStringAppendHexS(s, (ZyanI64)v, (ZyanU8)pad, upper, plus, nullptr);
        }
        settle(st, m.size() + x.size(), m + x, 'x', "number formatting");
    }
    void scrub() {
        const uint8_t* d = (const uint8_t*)data(); uint8_t* b; size_t bn;
        if (c.fixed) { b = buf.p; bn = buf.n; } else if (c.deflt) { if (heap::live().size() != 1) return; b = (uint8_t*)heap::live()[0].p; bn = heap::live()[0].n; }
        else { if (t.live.size() != 1) return; b = (uint8_t*)t.live[0].p; bn = t.live[0].es * t.live[0].n; }
        size_t used = m.size() + 1; if (d < b || d + used > b + bn) return;
        memset(b, mc::junk(0xCD), d - b); uint8_t* e = b + (d - b) + used; memset(e, mc::junk(0xCD), b + bn - e);
    }
    void image(mc::Hash& h) {
        Image im; im.add(t); im.add_heap(); if (c.fixed) im.add(buf.p, buf.n); im.add(mem, sizeof mem);
        im.hash(h, mem, sizeof mem); h.u64(m.size()); h.bytes(m.data(), m.size());
    }
};
struct SOp { int kind; size_t a, b, cc, d; std::string x; bool f; };
enum { S_APP, S_APPX, S_INS, S_INSX, S_DEL, S_TRUNC, S_CLEAR, S_SET, S_SETP, S_RES, S_RSV, S_SHR, S_LOW, S_UP, S_LOWX, S_UPX, S_FMT };
inline bool str_apply(StrObj& o, const SOp& p, size_t maxn) {
    size_t n = o.m.size();
    switch (p.kind) {
    case S_APP: if (n + p.x.size() > maxn) return false; o.append(p.x, p.f); break;
    case S_APPX: if (n + p.b > maxn) return false; o.append_ex(p.x, p.a, p.b, p.f); break;
    case S_INS: if ((p.a > n && p.a != n + 2) || n + p.x.size() > maxn) return false; o.insert(p.a, p.x, p.f); break;
    case S_INSX: if ((p.a > n && p.a != n + 2) || n + p.d > maxn) return false; o.insert_ex(p.a, p.x, p.cc, p.d, p.f); break;
    case S_DEL: if (p.a > n || p.a + p.b > n + 1) return false; o.del(p.a, p.b, p.f); break;
    case S_TRUNC: if (p.a > n + 1) return false; o.truncate(p.a, p.f); break;
    case S_CLEAR: o.clear(p.f); break;
    case S_SET: if (p.a > n + 1) return false; o.set(p.a, p.x[0]); break;
    case S_SETP: if (p.a > n + 1) return false; o.set(p.a, p.x[0], true); break;
    case S_RES: if (p.a > maxn) return false; o.resize(p.a, p.f); break;
    case S_RSV: o.reserve(p.a, p.f); break;
    case S_SHR: o.shrink(p.f); break;
    case S_LOW: o.conv(false, 0, 0, true); break;
    case S_UP: o.conv(true, 0, 0, true); break;
    case S_LOWX: if (p.a > n || p.a + p.b > n + 1) return false; o.conv(false, p.a, p.b); break;
    case S_UPX: if (p.a > n || p.a + p.b > n + 1) return false; o.conv(true, p.a, p.b); break;
    case S_FMT: {
        if (n + 4 > maxn) return false;
        std::string pre = p.x;
        o.fmt((int)p.a, p.b, (unsigned)p.cc, p.d & 1, p.d & 2, (p.a & 1) && !pre.empty() ? &pre : nullptr, p.f); break; }
    }
    return true;
}
struct StrSys : mc::System {
    StrObj o; std::vector<SOp> ops; size_t maxn;
    StrSys(StrCfg c, int ck, size_t maxn_, bool faults, bool formats) : maxn(maxn_) {
        o.c = c; o.ck = ck;
        for (int f = 0; f < (faults ? 2 : 1); f++) {
            auto add = [&](int k, size_t a, size_t b, const std::string& x, size_t cc = 0, size_t d = 0) { ops.push_back({k, a, b, cc, d, x, f == 1}); };
            for (const char* x : {"a", "B", "aB"}) { add(S_APP, 0, 0, x); for (size_t i = 0; i <= maxn + 2; i++) add(S_INS, i, 0, x); }
            if (!f) add(S_APP, 0, 0, "");
            for (size_t i = 0; i <= 3; i++) for (size_t n = 1; i + n <= 4; n++) { add(S_APPX, i, n, "Bab"); if (i < 2) for (size_t at : {(size_t)0, (size_t)1, maxn / 2}) add(S_INSX, at, 0, "Bab", i, n); }
            for (size_t i = 0; i <= maxn; i++) for (size_t n = 1; i + n <= maxn + 1; n++) add(S_DEL, i, n, "");
            for (size_t i = 0; i <= maxn + 1; i++) add(S_TRUNC, i, 0, "");
            add(S_CLEAR, 0, 0, "");
            if (!f) for (size_t i = 0; i <= maxn; i++) { add(S_SET, i, 0, i & 1 ? "a" : "B"); add(S_SETP, i, 0, i & 1 ? "B" : "a"); }
            for (size_t i = 0; i <= maxn; i++) add(S_RES, i, 0, "");
            add(S_RSV, 0, 0, ""); add(S_RSV, maxn / 2 + 1, 0, ""); add(S_RSV, maxn + 3, 0, ""); add(S_RSV, 40, 0, "");
            add(S_SHR, 0, 0, "");
            if (!f) { add(S_LOW, 0, 0, ""); add(S_UP, 0, 0, ""); for (size_t i = 0; i <= maxn; i++) for (size_t n = 0; i + n <= maxn + 1; n++) { add(S_LOWX, i, n, ""); add(S_UPX, i, n, ""); } }
            if (formats) { add(S_FMT, 0, 12, "", 0, 0); add(S_FMT, 0, 7, "", 3, 0); add(S_FMT, 1, (size_t)-5, "p", 2, 2); add(S_FMT, 1, 4, "", 0, 2); add(S_FMT, 2, 0xb, "", 0, 1); add(S_FMT, 2, 0x1a, "", 1, 0); add(S_FMT, 3, (size_t)-3, "x", 2, 0); add(S_FMT, 3, 9, "x", 0, 2); add(S_FMT, 2, 0, "", 2, 0); }
        }
    }
    int nops() override { return (int)ops.size(); }
    void reset() override { o.init(); }
    int step(int i) override {
        if (!str_apply(o, ops[i], maxn)) return 0;
        if (ops[i].f && !o.fault_hit) return 2;
        if (ops[i].f) mc::E().sh->faults++;
        return 1;
    }
    void key(mc::Hash& h) override { o.scrub(); o.image(h); }
    void finish() override { o.destroy(); }
};
