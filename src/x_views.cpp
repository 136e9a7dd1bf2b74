// Explorer for string views (C12) and for duplicates and concatenations (C29).
#include "vec.hpp"
#include "str.hpp"
#include <memory>
using namespace mc;
typedef std::vector<std::string> Strs;
static Strs all(const std::string& al, size_t maxlen) {
    Strs v = {""}; size_t b = 0;
    for (size_t l = 1; l <= maxlen; l++) { size_t e = v.size(); for (size_t i = b; i < e; i++) for (char c : al) v.push_back(v[i] + c); b = e; }
    return v;
}
static uint64_t K;
static unsigned char lo(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static std::string lower(std::string s) { for (auto& c : s) c = (char)lo(c); return s; }
// Characters in memory that cannot be written: [p, p+n) ends at the end of a read-only page.
struct Rom {
    uint8_t* base; size_t n; const char* p; size_t pages; std::string s;
    Rom(const std::string& x, bool term) : s(x) {
        std::string y = x + (term ? std::string(1, '\0') : ""); n = y.size(); pages = n / 4096 + 1;
        base = (uint8_t*)mmap(nullptr, (pages + 1) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memset(base, 'b', pages * 4096); p = (char*)base + pages * 4096 - n; memcpy((char*)p, y.data(), n);
        mprotect(base, pages * 4096, PROT_READ); mprotect(base + pages * 4096, 4096, PROT_NONE);
    }
    ~Rom() { munmap(base, (pages + 1) * 4096); }
};
// A view of the characters w, obtained in one of several ways.
struct ViewOf {
    std::unique_ptr<Rom> rom; Guarded g; ZyanString st; ZyanStringView a, b, v; std::string w; const char* where = nullptr; bool dyn = false; Tracker t; uint8_t fillb; std::string mem;
    static const int KINDS = 8;
    ViewOf(const std::string& x, int kind, uint8_t fb) : w(x), fillb(fb) {
        memset(&a, fb, sizeof a); memset(&b, fb, sizeof b); memset(&v, fb, sizeof v); ZyanStatus r = 0; size_t n = x.size(); std::string pad = "Ab"; 
        if (kind == 0 && !n) kind = 1;
        if (kind == 5 && x.find('\0') != std::string::npos) kind = 1;
        if (kind == 7 && !n) kind = 2;
        auto ok = [&](const char* what) { CHECK(r == ZYAN_STATUS_SUCCESS, "%s failed for %s: %s", what, q(x).c_str(), st_name(r)); };
        switch (kind) {
        case 0: g.init(n); memcpy(g.p, x.data(), n); where = (char*)g.p; r = ZyanStringViewInsideBufferEx(&v, where, n); ok("view of a buffer"); break;
        case 1: g.init(n + 4); memcpy(g.p, (pad + x + pad).data(), n + 4); where = (char*)g.p + 2; r = ZyanStringViewInsideBufferEx(&a, (char*)g.p, n + 4); ok("view of a buffer"); r = ZyanStringViewInsideViewEx(&v, &a, 2, n); ok("view inside a view"); break;
        case 2: case 3: { // view inside a (fixed, growable) string
            SrcView s(pad + x + pad); if (kind == 2) { g.init(n + 5 + 3); r = ZyanStringInitCustomBuffer(&st, (char*)g.p, g.n); } else { dyn = true; r = ZyanStringInitEx(&st, n + 9, &t.base, 2, 4); } ok("initialization");
            r = ZyanStringAppend(&st, &s.v); ok("append"); const char* d; ZyanStringGetData(&st, &d); where = d + 2; r = ZyanStringViewInsideViewEx(&v, ZYAN_STRING_TO_VIEW(&st), 2, n); ok("view inside a string"); break; }
        case 4: // three levels deep
            g.init(n + 4); memcpy(g.p, (pad + x + pad).data(), n + 4); where = (char*)g.p + 2; r = ZyanStringViewInsideBufferEx(&a, (char*)g.p, n + 4); ok("view of a buffer"); r = ZyanStringViewInsideViewEx(&b, &a, 1, n + 2); ok("view inside a view"); memset(&a, fb, sizeof a); r = ZyanStringViewInsideViewEx(&a, &b, 1, n); ok("view inside a view"); memset(&b, fb, sizeof b); r = ZyanStringViewInsideView(&v, &a); ok("view inside a view"); memset(&a, fb, sizeof a); break;
        case 5: rom.reset(new Rom(x, true)); where = rom->p; r = ZyanStringViewInsideBuffer(&v, where); ok("view of a C string"); break;
        case 6: { SrcView s(x); g.init(n + 1); r = ZyanStringInitCustomBuffer(&st, (char*)g.p, g.n); ok("initialization"); if (n) { r = ZyanStringAppend(&st, &s.v); ok("append"); } where = (char*)g.p; v = *ZYAN_STRING_TO_VIEW(&st); break; }
        default: rom.reset(new Rom(x, false)); where = rom->p; r = ZyanStringViewInsideBufferEx(&v, where, n); ok("view of a buffer");
        }
        mem = now(); check();
    }
    std::string now() { return rom ? std::string(rom->p, rom->n) : dyn ? std::string((char*)t.live[0].p, t.live[0].n) : std::string((char*)g.p, g.n); }
    void check() {
        ZyanUSize n = 99; const char* d = nullptr; ZyanStatus r = ZyanStringViewGetSize(&v, &n), r2 = ZyanStringViewGetData(&v, &d); K += 2;
        CHECK(r == ZYAN_STATUS_SUCCESS && r2 == r && n == w.size(), "view of %s has length %zu", q(w).c_str(), (size_t)n);
        CHECK(d == where, "view of %s does not start at the requested character (off by %td)", q(w).c_str(), d - where);
        for (size_t i = 0; i < w.size() + 2; i++) {
            char c = 0x7B; r = ZyanStringGetChar(&v, i, &c); K++;
            if (i < w.size()) CHECK(r == ZYAN_STATUS_SUCCESS && c == w[i], "character %zu of a view of %s: %s, 0x%02x", i, q(w).c_str(), st_name(r), (unsigned char)c);
            else CHECK(r == ZYAN_STATUS_OUT_OF_RANGE && c == 0x7B, "character %zu of a view of %s not refused: %s", i, q(w).c_str(), st_name(r));
        }
    }
    void same() { CHECK(now() == mem, "the characters under a view were modified"); check(); }
    ~ViewOf() { if (dyn) ZyanStringDestroy(&st); }
};
static std::string cont(ZyanString* s) { ZyanUSize n = 0; const char* d = nullptr; ZyanStatus a = ZyanStringGetSize(s, &n), b = ZyanStringGetData(s, &d); CHECK(a == ZYAN_STATUS_SUCCESS && a == b && d && d[n] == 0, "string is broken or not terminated"); return std::string(d, n); }
static void ranges(const std::string& x, int kind, uint8_t fb) {
    ViewOf s(x, kind, fb); size_t n = x.size();
    auto one = [&](const ZyanStringView* src, const std::string& y, const char* at, size_t i, size_t c) -> bool {
        ZyanStringView w; memset(&w, fb ^ 0x3C, sizeof w); ZyanStatus r = ZyanStringViewInsideViewEx(&w, src, i, c); K++;
        if (i > y.size() || c > y.size() - i) { CHECK(r == ZYAN_STATUS_OUT_OF_RANGE, "view of (%zu,%zu) in %s: %s", i, c, q(y).c_str(), st_name(r)); return false; }
        CHECK(r == ZYAN_STATUS_SUCCESS, "view of (%zu,%zu) in %s: %s", i, c, q(y).c_str(), st_name(r));
        ZyanUSize sz = 99; const char* d = nullptr; ZyanStringViewGetSize(&w, &sz); ZyanStringViewGetData(&w, &d); CHECK(sz == c && d == at + i, "view of (%zu,%zu) in %s has length %zu and starts at %td", i, c, q(y).c_str(), (size_t)sz, d - at);
        for (size_t k = 0; k <= c; k++) { char ch = 0x7B; r = ZyanStringGetChar(&w, k, &ch); K++; CHECK(k < c ? r == ZYAN_STATUS_SUCCESS && ch == y[i + k] : r == ZYAN_STATUS_OUT_OF_RANGE, "character %zu of the view of (%zu,%zu) in %s: %s", k, i, c, q(y).c_str(), st_name(r)); }
        return true;
    };
    for (size_t i = 0; i <= n + 2; i++) for (size_t c = 0; c <= n + 2; c++) if (one(&s.v, x, s.where, i, c)) {
        ZyanStringView w; memset(&w, fb, sizeof w); ZyanStringViewInsideViewEx(&w, &s.v, i, c);
        for (size_t j = 0; j <= c + 2; j++) for (size_t d = 0; d <= c + 2; d++) one(&w, x.substr(i, c), s.where + i, j, d);
    }
    const size_t B[] = {(size_t)-1, (size_t)-2, p2(63), (p2(63)) - 1, p2(32)};
    for (size_t b : B) { one(&s.v, x, s.where, b, 0); one(&s.v, x, s.where, b, 1); one(&s.v, x, s.where, 0, b); one(&s.v, x, s.where, 1, b); one(&s.v, x, s.where, n, b); one(&s.v, x, s.where, b, 0 - b); one(&s.v, x, s.where, b, 1 - b); one(&s.v, x, s.where, b, b); }
    ZyanStringView w; memset(&w, fb, sizeof w); ZyanStatus r = ZyanStringViewInsideView(&w, &s.v); ZyanUSize sz = 99; const char* d = nullptr; ZyanStringViewGetSize(&w, &sz); ZyanStringViewGetData(&w, &d);
    CHECK(r == ZYAN_STATUS_SUCCESS && sz == n && d == s.where, "view of a view of %s: %s, length %zu", q(x).c_str(), st_name(r), (size_t)sz);
    s.same(); beat();
}
static void usage(const std::string& x, int kind, uint8_t fb, const Strs& others) {
    ViewOf s(x, kind, fb); size_t n = x.size(); std::string base = "pQr";
    // append, insert (whole and ranges)
    auto dest = [&](Guarded& g, ZyanString& d) { g.init(40); ZyanStatus r = ZyanStringInitCustomBuffer(&d, (char*)g.p, 40); SrcView b(base); r |= ZyanStringAppend(&d, &b.v); CHECK(r == ZYAN_STATUS_SUCCESS, "preparing the destination failed"); };
    auto expect = [&](ZyanStatus r, ZyanString& d, const std::string& want, const char* what) { K++; std::string got = cont(&d); CHECK(r == ZYAN_STATUS_SUCCESS && got == want, "%s with a view of %s: %s, %s, expected %s", what, q(x).c_str(), st_name(r), q(got).c_str(), q(want).c_str()); };
    if (n) {
        { Guarded g; ZyanString d; dest(g, d); expect(ZyanStringAppend(&d, &s.v), d, base + x, "append"); }
        for (size_t at = 0; at <= 3; at++) { Guarded g; ZyanString d; dest(g, d); std::string w = base; w.insert(at, x); expect(ZyanStringInsert(&d, at, &s.v), d, w, "insert"); }
        for (size_t i = 0; i < n; i++) for (size_t c = 1; c <= n - i + 1; c++) for (size_t at = 0; at <= 4; at++) {
            Guarded g; ZyanString d; dest(g, d); std::string w = base; ZyanStatus r = at == 4 ? ZyanStringAppendEx(&d, &s.v, i, c) : ZyanStringInsertEx(&d, at, &s.v, i, c);
            if (c > n - i) { K++; CHECK(r == ZYAN_STATUS_OUT_OF_RANGE && cont(&d) == base, "range (%zu,%zu) of a view of %s: %s", i, c, q(x).c_str(), st_name(r)); } else { w.insert(std::min<size_t>(at, 3), x.substr(i, c)); expect(r, d, w, "insert/append of a range"); }
        }
    }
    // duplicates
    { Tracker t; ZyanString d; ZyanStatus r = ZyanStringDuplicateEx(&d, &s.v, 0, &t.base, 2, 4); CHECK(r == ZYAN_STATUS_SUCCESS, "duplicate of a view of %s: %s", q(x).c_str(), st_name(r)); expect(r, d, x, "duplicate"); ZyanStringDestroy(&d); t.expect_no_leak("after destruction of a duplicate"); }
    for (size_t k = n + 1; k <= n + 2; k++) { Guarded g; g.init(k); ZyanString d; ZyanStatus r = ZyanStringDuplicateCustomBuffer(&d, &s.v, (char*)g.p, k); CHECK(r == ZYAN_STATUS_SUCCESS, "duplicate of a view of %s: %s", q(x).c_str(), st_name(r)); expect(r, d, x, "duplicate"); }
    { Guarded g; g.init(n + 1); ZyanString d; ZyanStatus r = n ? ZyanStringDuplicateCustomBuffer(&d, &s.v, (char*)g.p, n) : ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE; K++; CHECK(r == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "duplicate in a buffer without room for the terminator: %s", st_name(r)); }
    int rot = kind;
    for (auto& y : others) {
        ViewOf o(y, rot++ & 7, fb ^ 0x11); text_reset(); text("views %s (kind %d) and %s ", q(x).c_str(), kind, q(y).c_str());
        for (int sw = 0; sw < 2; sw++) {
            const ZyanStringView *A = sw ? &o.v : &s.v, *B = sw ? &s.v : &o.v; const std::string &a = sw ? y : x, &b = sw ? x : y;
            { Tracker t; ZyanString d; ZyanStatus r = ZyanStringConcatEx(&d, A, B, 0, &t.base, 2, 4); CHECK(r == ZYAN_STATUS_SUCCESS, "concatenation: %s", st_name(r)); expect(r, d, a + b, "concatenation"); ZyanStringDestroy(&d); }
            { Guarded g; g.init(a.size() + b.size() + 1); ZyanString d; ZyanStatus r = ZyanStringConcatCustomBuffer(&d, A, B, (char*)g.p, g.n); CHECK(r == ZYAN_STATUS_SUCCESS, "concatenation: %s", st_name(r)); expect(r, d, a + b, "concatenation"); }
            for (int ci = 0; ci < 2; ci++) {
                std::string fa = ci ? lower(a) : a, fb2 = ci ? lower(b) : b;
                if (!b.empty()) for (int rt = 0; rt < 2; rt++) {
                    ZyanISize at = -77; ZyanStatus r = rt ? (ci ? ZyanStringRPosI(A, B, &at) : ZyanStringRPos(A, B, &at)) : (ci ? ZyanStringLPosI(A, B, &at) : ZyanStringLPos(A, B, &at)); K++;
                    size_t f = rt ? fa.rfind(fb2) : fa.find(fb2); ZyanISize want = f == std::string::npos ? -1 : (ZyanISize)f;
                    CHECK(at == want && r == (want < 0 ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE), "search of %s in %s: %s, %td, expected %td", q(b).c_str(), q(a).c_str(), st_name(r), at, want);
                }
                ZyanI32 c = 77; ZyanStatus r = ci ? ZyanStringCompareI(A, B, &c) : ZyanStringCompare(A, B, &c); K++; bool eq = fa == fb2;
                CHECK((c == 0) == eq && r == (eq ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "comparison of %s and %s: %s, %d", q(a).c_str(), q(b).c_str(), st_name(r), c);
                if (!eq && a.size() == b.size()) { size_t k = 0; while (fa[k] == fb2[k]) k++; CHECK((c < 0) == (fa[k] < fb2[k]), "comparison of %s and %s: %d", q(a).c_str(), q(b).c_str(), c); }
            }
        }
        o.same();
    }
    s.same();
}
static void sharing(StrCfg c) {
    task("shared storage " + c.str(), [=]() { dfs([&]() {
        size_t i = choose(7), n = choose(7); if (i + n > 6) throw Abort(); StrObj o; o.c = c; o.init(); std::string x = "aBcDeF"; o.append(x); int fb = choose(3) * 0x55;
        ZyanStringView v; memset(&v, fb, sizeof v); ZyanStatus r = ZyanStringViewInsideViewEx(&v, o.view(), i, n); CHECK(r == ZYAN_STATUS_SUCCESS, "view (%zu,%zu): %s", i, n, st_name(r)); text("view(%zu,%zu) ", i, n);
        auto chk = [&]() { for (size_t k = 0; k < n; k++) { char ch = 0; r = ZyanStringGetChar(&v, k, &ch); CHECK(r == ZYAN_STATUS_SUCCESS && ch == o.m[i + k], "a view does not show the current characters of its string"); } o.verify(); };
        chk();
        for (int d = 0; d < 2; d++) switch (choose(3)) { case 0: o.set(choose(6), (char)('u' + d)); chk(); break; case 1: o.conv(choose(2), 0, 0, true); chk(); break; default: o.conv(true, 0, 3); chk(); }
        // the string can be edited with a view of another one, not affected by it
        StrObj p; p.c.growth = 1; p.c.thr = 0; p.init(); if (n) { r = ZyanStringAppend(p.s, &v); p.m = o.m.substr(i, n); CHECK(r == ZYAN_STATUS_SUCCESS, "append: %s", st_name(r)); p.verify(); o.set(i, '!'); p.verify(); p.append("tail"); p.conv(true, 0, 0, true); o.verify(); }
        p.destroy(); heap::forbidden() = !o.c.deflt; o.destroy();
    }); });
}
static void literals() {
    task("views defined from literals", []() { uint64_t n = 0; const char* x; size_t len;
        for (int k = 0; const ZyanStringView* v = mcm_view(k, &x, &len); k++) {
            n++; beat(); std::string w(x, len); text_reset(); text("view defined from the literal %s ", q(w).c_str());
            ZyanUSize s = 777; const char* d = nullptr; CHECK(ZyanStringViewGetSize(v, &s) == ZYAN_STATUS_SUCCESS && s == len, "size %zu, expected %zu", (size_t)s, len);
            CHECK(ZyanStringViewGetData(v, &d) == ZYAN_STATUS_SUCCESS && d && std::string(d, s) == w, "the characters differ");
            for (size_t i = 0; i < len + 2; i++) { char c = 1; ZyanStatus r = ZyanStringGetChar(v, i, &c); if (i < len) CHECK(r == ZYAN_STATUS_SUCCESS && c == w[i], "character %zu: %s", i, st_name(r)); else CHECK(r == ZYAN_STATUS_OUT_OF_RANGE, "character %zu behind the end: %s", i, st_name(r)); }
            for (size_t i = 0; i <= len; i += 1 + len / 20) for (size_t c = 0; i + c <= len; c += 1 + len / 20) { ZyanStringView z; CHECK(ZyanStringViewInsideViewEx(&z, v, i, c) == ZYAN_STATUS_SUCCESS && ZyanStringViewGetSize(&z, &s) == ZYAN_STATUS_SUCCESS && s == c && ZyanStringViewGetData(&z, &d) == ZYAN_STATUS_SUCCESS && std::string(d, c) == w.substr(i, c), "view (%zu,%zu) of it", i, c); n++; }
            SrcView o(w); ZyanI32 cr = 9; CHECK(ZyanStringCompare(v, &o.v, &cr) == ZYAN_STATUS_TRUE && cr == 0, "compares different to the same characters");
            StrObj p; p.c.growth = 2; p.c.thr = 0; p.init(); p.append("head"); if (len) { CHECK(ZyanStringAppend(p.s, v) == ZYAN_STATUS_SUCCESS && ZyanStringInsert(p.s, 1, v) == ZYAN_STATUS_SUCCESS, "append or insert failed"); p.m += w; p.m.insert(1, w); } p.verify(); p.destroy();
            ZyanISize at = -7; if (len) CHECK(ZyanStringLPos(v, &o.v, &at) == ZYAN_STATUS_TRUE && at == 0, "does not contain itself");
        }
        CHECK(n > 7, "internal: no literals"); count(0, n, 1);
    });
}
static void c12() {
    literals();
    bool T = E().thorough; auto S = std::make_shared<Strs>(all(std::string("aB\0", 3), T ? 6 : 5));
    for (int kind = 0; kind < ViewOf::KINDS; kind++) for (int f = 0; f < 3; f++) task("ranges kind" + std::to_string(kind) + " fill" + std::to_string(f), [=]() { dfs([&]() { const std::string& x = (*S)[choose((int)S->size())]; uint64_t k0 = K; text("all ranges of %s ", q(x).c_str()); ranges(x, kind, (uint8_t)(f == 0 ? 0 : f == 1 ? 0x5A : 0xFF)); count(0, K - k0, 0); }); });
    auto U = std::make_shared<Strs>(all(std::string("aB\0", 3), T ? 5 : 4)), O = std::make_shared<Strs>(all(std::string("aB\0b", 4), T ? 3 : 2)); O->push_back("aBaBa"); O->push_back("bAbA");
    for (int kind = 0; kind < ViewOf::KINDS; kind++) for (int f = 0; f < 2; f++) task("usage kind" + std::to_string(kind) + " fill" + std::to_string(f), [=]() { dfs([&]() { const std::string& x = (*U)[choose((int)U->size())]; uint64_t k0 = K; text("all uses of %s ", q(x).c_str()); usage(x, kind, (uint8_t)(f ? 0xFF : 0x00), *O); count(0, K - k0, 0); }); });
    StrCfg c; c.fixed = true; c.fixcap = 9; sharing(c); c = StrCfg(); c.thr = 0; sharing(c); c.deflt = true; sharing(c);
    task("long", [=]() { dfs([&]() {
        size_t LS[] = {255, 256, 257, 5000}; size_t L = LS[choose(4)]; std::string x; for (size_t i = 0; i < L; i++) x += (char)(i * 7 + i / 256); int kind = choose(8); size_t I[] = {0, 1, L / 2, L - 1, L, L + 1}, N[] = {0, 1, L / 2, L - 1, L, L + 1}; size_t i = I[choose(6)], n = N[choose(6)];
        ViewOf s(x, kind, 0x5A); ZyanStringView w; memset(&w, 0xFF, sizeof w); ZyanStatus r = ZyanStringViewInsideViewEx(&w, &s.v, i, n); text("view (%zu,%zu) of %zu characters ", i, n, L);
        if (i > L || n > L - i) CHECK(r == ZYAN_STATUS_OUT_OF_RANGE, "%s", st_name(r)); else { CHECK(r == ZYAN_STATUS_SUCCESS, "%s", st_name(r)); Tracker t; ZyanString d; CHECK(ZyanStringDuplicateEx(&d, &w, 0, &t.base, 1, 0) == ZYAN_STATUS_SUCCESS && cont(&d) == x.substr(i, n), "duplicate of the view differs"); ZyanStringDestroy(&d); }
        s.same();
    }); });
}
// ---------------------------------------------------------------------------------------- C29
static void edit(VecObj& o, int k) {
    size_t n = o.m.size(); switch (k) { case 0: o.push(91); break; case 1: o.insert(0, {92, 93}, false); break; case 2: if (n) o.del(0, 1, true); break; case 3: if (n) o.set(n - 1, 94); break; case 4: o.resize(0, -1); break; case 5: o.resize(n + 2, 95); break; case 6: o.reserve(n + 5); break; case 7: o.shrink(); break; default: if (n) o.pop(); }
}
static void edit(StrObj& o, int k) {
    size_t n = o.m.size(); switch (k) { case 0: o.append("X"); break; case 1: o.insert(0, "YZ"); break; case 2: if (n) o.del(0, 1); break; case 3: if (n) o.set(n - 1, '#'); break; case 4: o.clear(); break; case 5: o.resize(n + 2); break; case 6: o.reserve(n + 5); break; case 7: o.shrink(); break; default: if (n) o.conv(true, 0, 0, true); }
}
static void c29() {
    bool T = E().thorough;
    static const size_t ES[] = {1, 3, 4, 8, 24, 100};
    for (int e = 0; e < 6; e++) for (int how = 0; how < 3; how++) task("vector es=" + std::to_string(ES[e]) + " how=" + std::to_string(how), [=]() { dfs([&]() {
        VecObj a, b; a.c.es = b.c.es = ES[e]; if (ES[e] < 4) {} bool fx = choose(2); size_t n = choose(T ? 6 : 5); if (n == 4 && !T) n = 40;
        if (fx) { a.c.fixed = true; a.c.fixcap = n + choose(2); if (!a.c.fixcap) throw Abort(); } else { int g = choose(3); a.c.growth = g + 1; a.c.thr = g == 1 ? 4 : g; a.c.cap0 = g == 2 ? n + 7 : 0; }
        a.init(); for (size_t i = 0; i < n; i++) a.push((uint32_t)(10 + i)); std::vector<uint8_t> img((uint8_t*)a.v, (uint8_t*)(a.v + 1));
        static const size_t C[] = {0, 1, 2, 3, 5, 8, 41, 64}; size_t cap = C[choose(8)]; ZyanStatus r; g_vec() = &b; heap::reset(); memset(b.mem, junk(choose(2) ? 0xEE : 0), sizeof b.mem); b.t.reset();
        bool fail = false; int nth = 0;
        if (how == 0) { static const int G[][2] = {{1, 0}, {2, 4}, {3, 1}}; int g = choose(3); b.c.growth = G[g][0]; b.c.thr = G[g][1]; nth = choose(2); if (nth) b.t.refuse = [&]() { fail = true; E().sh->faults++; return true; }; heap::forbidden() = true; text("duplicate(cap=%zu%s) ", cap, nth ? ", allocation fails" : ""); r = ZyanVectorDuplicateEx(b.v, a.v, cap, &b.t.base, (ZyanU8)b.c.growth, (ZyanU8)b.c.thr); b.t.refuse = nullptr; }
        else if (how == 1) { b.c.deflt = true; nth = choose(2); if (nth) heap::refuse() = [&]() { fail = true; E().sh->faults++; return true; }; heap::forbidden() = false; text("duplicate-default(cap=%zu%s) ", cap, nth ? ", allocation fails" : ""); r = ZyanVectorDuplicate(b.v, a.v, cap); heap::refuse() = nullptr; }
        else { b.c.fixed = true; b.c.fixcap = cap; b.buf.init(cap * ES[e]); heap::forbidden() = true; text("duplicate-buffer(cap=%zu) ", cap); r = ZyanVectorDuplicateCustomBuffer(b.v, a.v, b.buf.p, cap); }
        CHECK(!memcmp(a.v, img.data(), img.size()), "duplicating changed the source vector object"); a.verify();
        if (fail) { CHECK(r == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "allocation failure: %s", st_name(r)); b.t.expect_no_leak("after a failed duplication"); heap::expect_none("after a failed duplication"); a.push(7 + 0 * (uint32_t)n); if (!fx) a.destroy(); return; }
        if (how == 2 && (cap < n || !cap)) { CHECK(ZYAN_FAILED(r) && (!cap || r == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE), "duplicate of %zu elements in a buffer of %zu: %s", n, cap, st_name(r)); b.buf.release(); a.destroy(); return; }
        CHECK(r == ZYAN_STATUS_SUCCESS, "duplicate: %s", st_name(r)); b.inited = true; b.m = a.m; b.verify();
        CHECK(how == 2 || b.cap() >= std::max(cap, n), "capacity %zu of the duplicate, requested %zu for %zu elements", b.cap(), cap, n);
        if (how == 0) CHECK(b.t.live.size() == 1, "the duplicate has no storage of its own from the given allocator");
        const uint8_t *pa = (const uint8_t*)a.v->data, *pb = (const uint8_t*)b.v->data; CHECK(pa + a.cap() * ES[e] <= pb || pb + b.cap() * ES[e] <= pa, "duplicate shares storage with the source");
        if (how == 2) { a.destroy(); b.verify(); edit(b, 2); edit(b, 0); b.destroy(); return; }
        int first = choose(3); if (first == 0) { a.destroy(); b.verify(); edit(b, choose(9)); b.destroy(); return; }
        for (int d = 0; d < (T ? 3 : 2); d++) { int k = choose(9); VecObj &x = (d + first) & 1 ? a : b, &y = (d + first) & 1 ? b : a; if (x.c.fixed && (k == 6)) k = 7; g_vec() = &x; text("[%s] ", &x == &a ? "source" : "duplicate"); heap::forbidden() = false; edit(x, k); heap::forbidden() = false; y.verify(); }
        heap::forbidden() = false; if (first == 1) { b.destroy(); a.verify(); heap::forbidden() = false; a.push(5); a.destroy(); } else { g_vec() = &a; a.destroy(); b.verify(); g_vec() = &b; b.push(5); b.destroy(); }
    }); });
    auto S = std::make_shared<Strs>(Strs{"", "a", "bC", std::string("x\0y", 3), "0123456789abcdef0123456789ABCDEF", std::string(100, 'q')});
    // how: 0 Ex, 1 default allocator, 2 buffer; two: concatenation
    for (int two = 0; two < 2; two++) for (int how = 0; how < 3; how++) for (int kind = 0; kind < ViewOf::KINDS; kind++) task(std::string(two ? "concat" : "duplicate") + " how=" + std::to_string(how) + " kind=" + std::to_string(kind), [=]() { dfs([&]() {
        const std::string &x = (*S)[choose((int)S->size())], y = two ? (*S)[choose((int)S->size())] : ""; ViewOf a(x, kind, 0xFF); bool same = two && x == y && choose(2); ViewOf b2(y, same ? kind : (kind + 3) & 7, 0); const ZyanStringView* B = same ? &a.v : &b2.v; std::string w = x + y; size_t n = w.size();
        const size_t C[] = {0, 1, n ? n - 1 : 0, n, n + 1, n + 2, 31, 33, 200}; int ci = choose(9); size_t cap = C[ci]; for (int j = 0; j < ci; j++) if (C[j] == cap) throw Abort();
        StrObj o; ZyanStatus r; heap::reset(); memset(o.mem, junk(choose(2) ? 0xEE : 0), sizeof o.mem); bool fail = false; o.c.growth = 1; o.c.thr = 0;
        text("%s %s%s%s(cap=%zu) ", two ? "concat" : "duplicate", q(x).c_str(), two ? "," : "", two ? q(y).c_str() : "", cap);
        if (how == 0) { if (choose(2)) { o.c.growth = 2; o.c.thr = 4; } if (choose(2)) o.t.refuse = [&]() { fail = true; E().sh->faults++; return true; }; heap::forbidden() = true; r = two ? ZyanStringConcatEx(o.s, &a.v, B, cap, &o.t.base, (ZyanU8)o.c.growth, (ZyanU8)o.c.thr) : ZyanStringDuplicateEx(o.s, &a.v, cap, &o.t.base, (ZyanU8)o.c.growth, (ZyanU8)o.c.thr); o.t.refuse = nullptr; }
        else if (how == 1) { o.c.deflt = true; if (choose(2)) heap::refuse() = [&]() { fail = true; E().sh->faults++; return true; }; r = two ? ZyanStringConcat(o.s, &a.v, B, cap) : ZyanStringDuplicate(o.s, &a.v, cap); heap::refuse() = nullptr; }
        else { o.c.fixed = true; o.c.fixcap = cap; o.buf.init(cap); heap::forbidden() = true; r = two ? ZyanStringConcatCustomBuffer(o.s, &a.v, B, (char*)o.buf.p, cap) : ZyanStringDuplicateCustomBuffer(o.s, &a.v, (char*)o.buf.p, cap); }
        a.same(); b2.same();
        if (fail) { CHECK(r == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "allocation failure: %s", st_name(r)); o.t.expect_no_leak("after a failure"); heap::expect_none("after a failure"); return; }
        if (how == 2 && cap < n + 1) { CHECK((!cap && ZYAN_FAILED(r)) || r == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "%zu characters in a buffer of %zu bytes: %s", n, cap, st_name(r)); o.buf.release(); return; }
        CHECK(r == ZYAN_STATUS_SUCCESS, "status %s", st_name(r)); o.inited = true; o.m = w; o.verify(); CHECK(how == 2 || o.cap() >= std::max(cap, n), "capacity %zu, requested %zu for %zu characters", o.cap(), cap, n);
        if (how == 0) CHECK(o.t.live.size() == 1, "no storage of its own from the given allocator");
        int k = choose(10); if (k < 9) edit(o, k); a.same(); b2.same();
        // the source may go away or change
        if (a.dyn) { ZyanStringSetChar(&a.st, 0, '~'); o.verify(); ZyanStringDestroy(&a.st); a.dyn = false; } else if (!a.rom) memset(a.g.p, '~', a.g.n);
        o.verify(); edit(o, 0); edit(o, 3); o.destroy();
    }); });
    // sizes around those at which an 8-bit or 16-bit count would wrap around
    static const size_t BIG[] = {63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4095, 4097, 32767, 32769, 65534, 65535, 65536, 65537, 70000};
    for (int how = 0; how < 3; how++) for (size_t bn : BIG) for (int kd = 0; kd < 2; kd++) task("large " + std::to_string(bn) + " how=" + std::to_string(how) + (kd ? " strings" : " vectors"), [=]() { dfs([&]() {
        size_t n = bn; Tracker t, u; Guarded g(pg::OTHER); size_t caps[] = {0, n - 1, n, n + 1, n + 2, 2 * n, 7, 255, 65537}; int ci = choose(9); size_t cap = caps[ci]; for (int j = 0; j < ci; j++) if (caps[j] == cap) throw Abort(); ZyanStatus r; heap::reset(); heap::forbidden() = false;
        if (!kd) {
            static const size_t W[] = {1, 3, 4, 24}; size_t es = W[choose(4)]; std::vector<uint8_t> all(n * es); for (size_t i = 0; i < all.size(); i++) all[i] = (uint8_t)(i * 7 + i / 256 * 13 + 1);
            ZyanVector a, b; CHECK(ZyanVectorInitEx(&a, es, choose(2) ? n : 1, nullptr, &t.base, 2, 4) == ZYAN_STATUS_SUCCESS, "init"); r = ZyanVectorInsertRange(&a, 0, all.data(), n); CHECK(r == ZYAN_STATUS_SUCCESS && a.size == n, "insert range: %s", st_name(r)); uint8_t img[sizeof a]; memcpy(img, &a, sizeof a); memset(&b, 0xEE, sizeof b); text("duplicate a vector of %zu elements of %zu bytes, capacity %zu ", n, es, cap);
            if (how == 0) r = ZyanVectorDuplicateEx(&b, &a, cap, &u.base, 2, 4); else if (how == 1) r = ZyanVectorDuplicate(&b, &a, cap); else { g.init(es * cap); r = ZyanVectorDuplicateCustomBuffer(&b, &a, g.p, cap); }
            CHECK(!memcmp(img, &a, sizeof a) && !memcmp(a.data, all.data(), all.size()), "duplicating changed the source");
            if (how == 2 && cap < n) { CHECK(ZYAN_FAILED(r), "duplicate of %zu elements in a buffer of %zu: %s", n, cap, st_name(r)); g.release(); ZyanVectorDestroy(&a); return; }
            ZyanUSize z = 0, c = 0; CHECK(r == ZYAN_STATUS_SUCCESS, "%s", st_name(r)); CHECK(ZyanVectorGetSize(&b, &z) == ZYAN_STATUS_SUCCESS && z == n, "%zu elements in the duplicate", (size_t)z); CHECK(ZyanVectorGetCapacity(&b, &c) == ZYAN_STATUS_SUCCESS && c >= (how == 2 ? n : std::max(cap, n)), "capacity %zu", (size_t)c);
            memset(a.data, 0x11, all.size()); ZyanVectorDestroy(&a); for (size_t i = 0; i < n; i++) { const void* e = ZyanVectorGet(&b, i); CHECK(e && !memcmp(e, &all[i * es], es), "element %zu of the duplicate differs", i); }
            if (how != 2 || cap > n) { std::vector<uint8_t> e(es, 0x77); r = ZyanVectorPushBack(&b, e.data()); CHECK(r == ZYAN_STATUS_SUCCESS && b.size == n + 1 && !memcmp(ZyanVectorGet(&b, n), e.data(), es) && !memcmp(ZyanVectorGet(&b, 0), all.data(), es), "push: %s", st_name(r)); }
            CHECK(ZyanVectorDestroy(&b) == ZYAN_STATUS_SUCCESS, "destroy"); t.expect_no_leak("after destroying the source"); u.expect_no_leak("after destroying the duplicate"); heap::expect_none("after destroying both"); if (how == 2) g.release();
        } else {
            std::string all; for (size_t i = 0; i < n; i++) all += (char)(i * 7 + i / 256 * 13 + 1); size_t cuts[] = {0, 1, n / 2, n - 1, n, n > 256 ? (size_t)256 : 5, n > 65536 ? (size_t)65536 : 9, n}; int k = choose(8); bool two = k < 7; size_t cut = cuts[k]; for (int j = 0; j < k && two; j++) if (cuts[j] == cut) throw Abort(); text("%s of %zu characters, first part %zu, capacity %zu ", two ? "concatenation" : "duplicate", n, cut, cap);
            ViewOf a(all.substr(0, cut), cut ? choose(2) * 3 : 0, 0xFF), c2(all.substr(cut), 0, 0xFF); ZyanString d; memset(&d, 0xEE, sizeof d);
            if (how == 0) r = two ? ZyanStringConcatEx(&d, &a.v, &c2.v, cap, &u.base, 2, 4) : ZyanStringDuplicateEx(&d, &a.v, cap, &u.base, 2, 4); else if (how == 1) r = two ? ZyanStringConcat(&d, &a.v, &c2.v, cap) : ZyanStringDuplicate(&d, &a.v, cap); else { g.init(cap); r = two ? ZyanStringConcatCustomBuffer(&d, &a.v, &c2.v, (char*)g.p, cap) : ZyanStringDuplicateCustomBuffer(&d, &a.v, (char*)g.p, cap); }
            a.same(); c2.same();
            if (how == 2 && cap < n + 1) { CHECK(ZYAN_FAILED(r), "%zu characters in a buffer of %zu bytes: %s", n, cap, st_name(r)); g.release(); return; }
            CHECK(r == ZYAN_STATUS_SUCCESS, "%s", st_name(r)); CHECK(cont(&d) == all, "wrong content"); const char* p = nullptr; CHECK(ZyanStringGetData(&d, &p) == ZYAN_STATUS_SUCCESS && p[n] == 0, "not terminated"); ZyanUSize c = 0; ZyanStringGetCapacity(&d, &c); CHECK(how == 2 || c >= std::max(cap, n), "capacity %zu", (size_t)c);
            if (how != 2 || cap > n + 1) { ZyanStringView e; ZyanStringViewInsideBuffer(&e, "!"); r = ZyanStringAppend(&d, &e); CHECK(r == ZYAN_STATUS_SUCCESS && cont(&d) == all + "!", "append: %s", st_name(r)); }
            CHECK(ZyanStringDestroy(&d) == ZYAN_STATUS_SUCCESS, "destroy"); u.expect_no_leak("after destroying the string"); heap::forbidden() = false; if (how == 2) g.release();
        }
    }); });
    // concatenation into one of its own operands is documented to fail
    task("concat onto operand", []() { dfs([&]() {
        StrObj o; o.c.growth = 1; o.c.thr = 0; int how = choose(3); o.c.deflt = how == 1; o.init(); o.append("abc"); SrcView v("xy"); int pos = choose(3); Tracker t; Guarded g; g.init(64); ZyanStatus r; heap::forbidden() = false; text("concatenation whose destination is operand %d ", pos);
        const ZyanStringView *a = pos == 1 ? &v.v : o.view(), *b = pos == 0 ? &v.v : o.view(); r = how == 0 ? ZyanStringConcatEx(o.s, a, b, 0, &t.base, 2, 4) : how == 1 ? ZyanStringConcat(o.s, a, b, 0) : ZyanStringConcatCustomBuffer(o.s, a, b, (char*)g.p, 64);
        CHECK(ZYAN_FAILED(r), "accepted: %s", st_name(r)); t.expect_no_leak("after a refused concatenation"); o.verify(); o.append("d"); o.destroy();
    }); });
}
int main(int argc, char** argv) { return main_(argc, argv, [] { if (E().prop == "C12") c12(); else c29(); }); }
