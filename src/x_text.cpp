// Explorer for substring search (C10), comparison (C11) and case conversion (C13).
#include "str.hpp"
#include <memory>
using namespace mc;
typedef std::vector<std::string> Strs;
static Strs all(const std::string& al, size_t maxlen, size_t minlen = 0) {
    Strs v = {""}; size_t b = 0;
    for (size_t l = 1; l <= maxlen; l++) { size_t e = v.size(); for (size_t i = b; i < e; i++) for (char c : al) v.push_back(v[i] + c); b = e; }
    Strs o; for (auto& s : v) if (s.size() >= minlen) o.push_back(s); return o;
}
static unsigned char lo(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool match(const char* a, const char* b, size_t n, bool ci) { for (size_t i = 0; i < n; i++) if (ci ? lo(a[i]) != lo(b[i]) : a[i] != b[i]) return false; return true; }
// A string offered in one of several ways; what lies around its characters differs between them.
struct Text {
    Guarded g; pg::Mem<ZyanString> m1; pg::Mem<ZyanStringView> m2; ZyanString& st = *(ZyanString*)m1.p; ZyanStringView& v = *(ZyanStringView*)m2.p; std::string s, mem; bool dyn = false; Tracker t;
    // kind 0: view of exactly these bytes; 1: view inside a longer buffer that continues with 'around'; 2: ZyanString in a buffer with 'around' behind the terminator; 3: growable ZyanString
    Text(const std::string& x, int kind, const std::string& around) : s(x) {
        memset(&v, junk(0x5A), sizeof v); const ZyanStringView* p = &v; ZyanStatus r = ZYAN_STATUS_SUCCESS; size_t k = around.size(), n = x.size();
        if (kind == 0 && n == 0) kind = 1;
        if (kind == 0) { g.init(n); memcpy(g.p, x.data(), n); r = ZyanStringViewInsideBufferEx(&v, (char*)g.p, n); }
        else if (kind == 1) {
            g.init(n + 2 * k + 1); memcpy(g.p, around.data(), k); memcpy(g.p + k, x.data(), n); memcpy(g.p + k + n, around.data(), k); g.p[n + 2 * k] = 'a';
            ZyanStringView w; memset(&w, junk(0x5A), sizeof w); r = ZyanStringViewInsideBufferEx(&w, (char*)g.p, g.n);
            if (r == ZYAN_STATUS_SUCCESS) r = ZyanStringViewInsideViewEx(&v, &w, k, n);
        } else if (kind == 2) {
            g.init(n + 1 + k); r = ZyanStringInitCustomBuffer(&st, (char*)g.p, g.n); SrcView a(x); if (r == ZYAN_STATUS_SUCCESS) r = ZyanStringAppend(&st, &a.v); memcpy(g.p + n + 1, around.data(), k); v = *ZYAN_STRING_TO_VIEW(&st); (void)p;
        } else {
            dyn = true; r = ZyanStringInitEx(&st, 0, &t.base, 1, 0); SrcView a(x); if (r == ZYAN_STATUS_SUCCESS) r = ZyanStringAppend(&st, &a.v); v = *ZYAN_STRING_TO_VIEW(&st);
        }
        CHECK(r == ZYAN_STATUS_SUCCESS, "preparing the string %s failed: %s", q(x).c_str(), st_name(r));
        mem = now();
    }
    std::string now() { return dyn ? std::string((char*)t.live[0].p, s.size() + 1) : std::string((char*)g.p, g.n); }
    void unchanged() { CHECK(now() == mem, "an operand was modified"); }
    ~Text() { if (dyn) ZyanStringDestroy(&st); }
};
// ---------------------------------------------------------------- C10
static uint64_t K;
static void search(Text& H, Text& N, bool ci, bool right, bool whole, size_t i, size_t n) {
    const std::string &h = H.s, &d = N.s; ZyanISize at = -77; K++;
    ZyanStatus st;
    if (whole) st = right ? (ci ? ZyanStringRPosI(&H.v, &N.v, &at) : ZyanStringRPos(&H.v, &N.v, &at)) : (ci ? ZyanStringLPosI(&H.v, &N.v, &at) : ZyanStringLPos(&H.v, &N.v, &at));
    else st = right ? (ci ? ZyanStringRPosIEx(&H.v, &N.v, &at, i, n) : ZyanStringRPosEx(&H.v, &N.v, &at, i, n)) : (ci ? ZyanStringLPosIEx(&H.v, &N.v, &at, i, n) : ZyanStringLPosEx(&H.v, &N.v, &at, i, n));
#define WHAT "%s%s%s of %s in %s, range(%zu,%zu): ", right ? "right" : "left", ci ? " case-insensitive" : "", whole ? " search" : " range search", q(d).c_str(), q(h).c_str(), i, n
    bool bad = right ? i > h.size() || n > i : i > h.size() || n > h.size() - i;
    if (bad) { if (st != ZYAN_STATUS_OUT_OF_RANGE) { text(WHAT); fail("search range outside the haystack: %s", st_name(st)); } return; }
    if (d.empty()) { // whether the empty needle occurs is not specified
        bool ok = (st == ZYAN_STATUS_FALSE && at == -1) || (st == ZYAN_STATUS_TRUE && at >= 0 && (size_t)at <= h.size());
        if (!ok) { text(WHAT); fail("empty needle: %s, index %td", st_name(st), at); } return;
    }
    size_t b = right ? i - n : i, e = b + n; ZyanISize want = -1;
    if (d.size() <= n) { if (!right) { for (size_t k = b; k + d.size() <= e; k++) if (match(&h[k], d.data(), d.size(), ci)) { want = (ZyanISize)k; break; } } else for (size_t k = e - d.size() + 1; k-- > b;) if (match(&h[k], d.data(), d.size(), ci)) { want = (ZyanISize)k; break; } }
    if (st != (want < 0 ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE) || at != want) { text(WHAT); fail("%s, index %td, expected %td", st_name(st), at, want); }
}
static void all_modes(Text& H, Text& N, bool ranges) {
    size_t L = H.s.size(); pg::Seal sealed;
    for (int ci = 0; ci < 2; ci++) for (int r = 0; r < 2; r++) {
        search(H, N, ci, r, true, r ? L : 0, L);
        if (!ranges) continue;
        for (size_t i = 0; i <= L + 1; i++) for (size_t n = 0; n <= L + 1; n++) { if (r ? n > i + 1 : i + n > L + 1) continue; search(H, N, ci, r, false, i, n); }
        const size_t B[] = {(size_t)-1, (size_t)-2, p2(63), (p2(63)) - 1};
        for (size_t x : B) { search(H, N, ci, r, false, x, 1); search(H, N, ci, r, false, 1, x); search(H, N, ci, r, false, x, 0 - x); search(H, N, ci, r, false, L, x); if (L) search(H, N, ci, r, false, L - 1, x); }
    }
    beat();
}
static void c10() {
    bool T = E().thorough;
    struct A { const char* n; std::string al; size_t h, d; };
    const A as[] = {{"ab", "ab", T ? 9u : 7u, T ? 5u : 4u}, {"nul", std::string("a\0", 2), T ? 8u : 6u, 3}, {"fold", std::string("aA[", 3), T ? 6u : 5u, T ? 4u : 3u}, {"fold2", std::string("Zz@`", 4), T ? 5u : 4u, 2},
                    {"high", std::string("\xC1\xE1\xA1", 3), 4, 2}, {"mixed", std::string("aA\0bB", 5), T ? 5u : 4u, T ? 3u : 2u}};
    for (auto& a : as) for (int kind = 0; kind < 4; kind++) {
        auto H = std::make_shared<Strs>(all(a.al, a.h)), N = std::make_shared<Strs>(all(a.al, a.d)); auto name = std::string(a.n);
        int nsh = (int)std::min<size_t>(H->size() * N->size() / 4000 + 1, 16);
        for (int sh = 0; sh < nsh; sh++) task("search " + name + " kind" + std::to_string(kind) + " part" + std::to_string(sh), [=]() { K = 0; dfs([&]() {
            const std::string& h = (*H)[choose((int)H->size())]; uint64_t k0 = K; text("all searches in %s: ", q(h).c_str());
            for (auto& d : *N) {
                static int rot = 0; Text X(h, kind, kind == 1 ? d + "ab" : d), Y(d, (kind + (rot++ & 1)) & 3, h.substr(0, 3) + "a");
                all_modes(X, Y, true); X.unchanged(); Y.unchanged();
            }
            count(0, K - k0, 0);
        }, sh, nsh); });
    }
    // every pair of byte values, as first, middle and last character
    task("all byte pairs", []() { dfs([&]() {
        int x = choose(256); text("byte 0x%02x against all bytes ", x); uint64_t k0 = K;
        for (int y = 0; y < 256; y++) for (int p = 0; p < 3; p++) { std::string h = "xyz", d = "xyz"; h[p] = (char)x; d[p] = (char)y; Text X("q" + h + "q", 0, ""), Y(d, 0, ""); all_modes(X, Y, false); }
        count(0, K - k0, 0);
    }); });
    // long haystacks: periodic and random-free structured patterns, needles cut out of them
    task("long", [=]() { dfs([&]() {
        size_t LS[] = {17, 64, 255, 256, 257, 400}; size_t L = LS[choose(T ? 6 : 4)]; int pat = choose(4); std::string h;
        for (size_t i = 0; i < L; i++) h += pat == 0 ? 'a' : pat == 1 ? "aab"[i % 3] : pat == 2 ? (char)(i) : (char)(i % 7 == 6 ? 0 : 'A' + i % 5);
        size_t at = choose(5), len = choose(5); size_t AT[] = {0, 1, L / 2, L - 3, L - 1}, LN[] = {1, 2, 7, L / 2, L}; at = AT[at]; len = LN[len]; if (at + len > L) throw Abort();
        int tw = choose(3); std::string d = h.substr(at, len); if (tw == 1) d.back() ^= 1; if (tw == 2) for (auto& c : d) if ((c | 32) >= 'a' && (c | 32) <= 'z') c ^= 32;
        Text X(h, choose(4), d), Y(d, 0, ""); uint64_t k0 = K; text("long haystack %s needle %s ", q(h).c_str(), q(d).c_str());
        size_t I[] = {0, 1, at, at + 1, L / 2, L - 1, L, L + 1, at + len, at + len - 1}; size_t N[] = {0, 1, len, len + 1, len - 1, L, L - 1, L + 1, at, at + len};
        pg::Seal sealed; for (int ci = 0; ci < 2; ci++) for (int r = 0; r < 2; r++) { search(X, Y, ci, r, true, r ? L : 0, L); for (size_t i : I) for (size_t n : N) search(X, Y, ci, r, false, i, n); }
        X.unchanged(); count(0, K - k0, 0);
    }); });
    // needles of every length that tables and counters of a fixed width could confuse: one character is unlike the others,
    // wherever it is, with a text that differs in one place in front of and behind the occurrence
    for (int sh = 0; sh < 8; sh++) task("long needles part " + std::to_string(sh), [=]() { dfs([&]() {
        static const size_t M[] = {2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000}; size_t m = M[choose(T ? 31 : 27)];
        static const size_t PS[] = {0, 1, 2, 0, 0, 0, 0, 127, 128, 129, 254, 255, 256, 257}; int pi = choose(14); size_t p = pi == 3 ? m / 2 : pi == 4 ? m - 2 : pi == 5 ? m - 1 : pi == 6 ? m / 3 : PS[pi]; if (p >= m) throw Abort();
        int kind = choose(3); std::string d; for (size_t i = 0; i < m; i++) d += kind == 0 ? 'a' : kind == 1 ? (char)('A' + (i * 7 + i / 13) % 23) : "xy"[i & 1]; d[p] = kind == 1 ? '~' : 'b'; uint64_t k0 = K;
        size_t E[] = {0, m - 1, m / 2, p}; std::string miss = d; int form = choose(4); size_t e = E[form ? choose(4) : 0]; miss[e] = miss[e] == 'c' ? 'd' : 'c';
        size_t O[] = {0, 1, 9, m - 1, m + 1}; size_t at = O[choose(5)]; char fc = kind == 2 ? 'x' : 'a'; std::string fill(at, fc), h;
        switch (form) { case 0: h = fill + d + fill; break; case 1: h = fill + miss + d + miss + fill; break; case 2: h = miss + fill + d + fill + miss; break; default: h = miss + fill + miss; } // the last one: nothing to be found, unless by accident
        text("%zu characters, %zu in front: haystack %s needle %s ", m, at, q(h).c_str(), q(d).c_str()); size_t L = h.size(); Text X(h, 1, d), Y(d, 0, ""); beat();
        { pg::Seal sealed; for (int ci = 0; ci < 2; ci++) for (int r = 0; r < 2; r++) { search(X, Y, ci, r, true, r ? L : 0, L); for (size_t c : {L - 1, m, L - at - 1}) if (c <= L) { search(X, Y, ci, r, false, r ? L : 0, c); search(X, Y, ci, r, false, r ? c : L - c, c); } } }
        count(0, K - k0, 0);
    }, sh, 8); });
    // one occurrence at every place of a long haystack; a needle that occurs but for one character, whichever it is
    for (size_t L : {255, 256, 257, 300, 1000, 4099, 5003, 65600, 70001}) for (int kind = 0; kind < 3; kind++) task("occurrence everywhere " + std::to_string(L) + "." + std::to_string(kind), [=] { dfs([=] {
        const char* D[] = {"Q", "Qr", "aQ]"}; std::string d = D[kind]; size_t m = d.size(); Text X(std::string(L, 'a'), 0, ""), Y(d, 2, "a"); K = 0; X.s.reserve(L); std::vector<size_t> at;
        for (size_t i = 0; i + m <= L; i++) if (L < 1100 || (L < 6000 && (i % 3 == (size_t)kind || i % 1024 < 4 || i % 1024 > 1020)) || i % 32768 < 4 || i % 32768 > 32764 || i + m == L || i == 4095 || i == 4096) at.push_back(i);
        for (size_t i : at) for (int two = 0; two < (L < 300 ? 2 : 1); two++) {
            auto put = [&](size_t k, bool in) { for (size_t c = 0; c < m; c++) X.s[k + c] = (char)(X.g.p[k + c] = (uint8_t)(in ? d[c] : 'a')); }; text_reset(); text("%zu characters, %zu: ", L, i); size_t o = two ? (i + L / 2) % (L - m) : i; put(o, true); put(i, true);
            for (int ci = 0; ci < 2; ci++) for (int r = 0; r < 2; r++) { search(X, Y, ci, r, true, r ? L : 0, L); if (L > 1100) continue; search(X, Y, ci, r, false, r ? i + m : i, m); search(X, Y, ci, r, false, r ? i + m : i, r ? i + m : L - i); search(X, Y, ci, r, false, r ? L : i + 1, r ? L - i - 1 : L - i - 1); search(X, Y, ci, r, false, r ? i + m - 1 : 0, i + m - 1); }
            put(i, false); put(o, false); beat(); }
        count(0, K, 0); }); });
    for (size_t m : {255, 256, 257, 301, 513, 1000, 4099, 5003, 65600, 70001}) task("difference everywhere " + std::to_string(m), [=] { dfs([=] {
        std::string d; for (size_t i = 0; i < m; i++) d += (char)('a' + (i * 7 + i / 26) % 26); Text X(d, 0, ""), Y(d, 1, "a"); K = 0;
        for (size_t i = 0; i <= m; i++) { if (!(m < 6000 || i % 32768 < 4 || i % 32768 > 32764 || i + 3 > m)) continue; text_reset(); text("%zu characters, %zu differs: ", m, i);
            for (int tw = 0; tw < 2; tw++) { if (i < m) X.s[i] = (char)(X.g.p[i] ^= tw ? 32 : 1); for (int ci = 0; ci < 2; ci++) for (int r = 0; r < 2; r++) search(X, Y, ci, r, true, r ? m : 0, m); if (i < m) X.s[i] = (char)(X.g.p[i] ^= tw ? 32 : 1); } beat(); }
        count(0, K, 0); }); });
}
// ---------------------------------------------------------------- C11
struct Order { bool ci; int high = 0, fold = 0; // high: 1 characters are signed, 2 unsigned; fold: 1 letters are folded to lower, 2 to upper case
    unsigned f(unsigned char c) const { unsigned char x = c; if (ci) { if (fold == 2) { if (x >= 'a' && x <= 'z') x -= 32; } else if (x >= 'A' && x <= 'Z') x += 32; } return high == 1 ? (unsigned)(x ^ 0x80) : x; }
};
static int cmp(Text& a, Text& b, bool ci) {
    ZyanI32 r = 0x7777; ZyanStatus st = ci ? ZyanStringCompareI(&a.v, &b.v, &r) : ZyanStringCompare(&a.v, &b.v, &r); K++;
    if (r == 0x7777 || st != (r == 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE)) { text("compare%s(%s,%s)", ci ? "I" : "", q(a.s).c_str(), q(b.s).c_str()); fail("status %s with result %d", st_name(st), r); }
    return (r > 0) - (r < 0);
}
static Order order(bool ci) { Order o; o.ci = ci; Text a("\x81", 0, ""), b("5", 0, ""), c("_", 0, ""), d("a", 0, ""); o.high = cmp(a, b, ci) < 0 ? 1 : 2; o.fold = cmp(c, d, ci) < 0 ? 1 : 2; return o; }
static int want(const Order& o, const std::string& a, const std::string& b) { for (size_t i = 0; i < a.size(); i++) { unsigned x = o.f(a[i]), y = o.f(b[i]); if (x != y) return x < y ? -1 : 1; } return 0; }
static void pair(const Order& o, Text& a, Text& b) {
    int r = cmp(a, b, o.ci), s = cmp(b, a, o.ci); bool eq = a.s.size() == b.s.size() && want(o, a.s, b.s) == 0;
    auto die = [&](const char* m) { text("compare%s(%s,%s) = %d, swapped %d ", o.ci ? "I" : "", q(a.s).c_str(), q(b.s).c_str(), r, s); fail("%s", m); };
    if ((r == 0) != eq || (s == 0) != eq) die("equality is wrong");
    if (r != -s) die("not antisymmetric");
    if (a.s.size() == b.s.size() && r != want(o, a.s, b.s)) die("sign does not follow the first differing character");
}
static void c11() {
    bool T = E().thorough;
    struct A { const char* n; std::string al; size_t l; };
    const A as[] = {{"ab", "ab", T ? 8u : 7u}, {"case", "aAbB", T ? 5u : 4u}, {"nul", std::string("a\0", 2), T ? 7u : 6u}, {"sym", std::string("aZ[_", 4), T ? 5u : 4u}, {"high", std::string("a\x7f\x80\xff", 4), 4}};
    for (auto& a : as) {
        auto S = std::make_shared<Strs>(all(a.al, a.l)); std::string nm = a.n;
        task(std::string("pairs and triples ") + a.n, [=]() { dfs([&]() {
            bool ci = choose(2); int kind = choose(4); Order o = order(ci); uint64_t k0 = K; text("%s%s ", nm.c_str(), ci ? " case-insensitive" : "");
            std::vector<std::unique_ptr<Text>> V, W; for (auto& s : *S) { V.emplace_back(new Text(s, kind, "bA")); W.emplace_back(new Text(s, (kind + 1) & 3, "ab")); }
            size_t n = V.size(); std::vector<int8_t> m(n * n);
            for (size_t i = 0; i < n; i++) { pg::Seal sealed; for (size_t j = 0; j < n; j++) { pair(o, *V[i], *W[j]); m[i * n + j] = (int8_t)cmp(*V[i], *W[j], ci); } beat(); }
            for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) {
                int x = m[i * n + j], y = m[j * n + k], z = m[i * n + k];
                if (x <= 0 && y <= 0 && (z > 0 || (z == 0 && (x < 0 || y < 0)))) { text("%s, %s, %s ", q((*S)[i]).c_str(), q((*S)[j]).c_str(), q((*S)[k]).c_str()); fail("order is not transitive: %d, %d, but %d", x, y, z); }
            }
            for (auto& v : V) v->unchanged(); for (auto& v : W) v->unchanged(); count(0, K - k0, 0);
        }); });
    }
    task("all byte pairs", []() { dfs([&]() {
        bool ci = choose(2); int x = choose(256); Order o = order(ci); uint64_t k0 = K; text("byte 0x%02x ", x);
        for (int y = 0; y < 256; y++) for (int p = 0; p < 4; p++) { std::string a = "xyz", b = "xyz"; if (p < 3) { a[p] = (char)x; b[p] = (char)y; if (p < 2) b[2] ^= 1; } else { a = (char)x; b = (char)y; } Text A(a, 0, ""), B(b, 0, ""); pg::Seal sealed; pair(o, A, B); }
        count(0, K - k0, 0);
    }); });
    task("long", [=]() { dfs([&]() {
        bool ci = choose(2); size_t LS[] = {1, 16, 17, 255, 256, 257, 1000}; size_t L = LS[choose(T ? 7 : 6)]; Order o = order(ci); std::string h; for (size_t i = 0; i < L; i++) h += (char)(i * 37 + 11);
        size_t at = choose((int)std::min<size_t>(L, T ? 300 : 60)); if (L > 60 && !T) at = at * L / 60; std::string d = h; int tw = choose(5);
        switch (tw) { case 0: break; case 1: d[at] ^= 1; break; case 2: d[at] ^= 32; break; case 3: d[at] ^= (char)0x80; break; default: d = d.substr(0, at); }
        if (tw && choose(2) && at + 1 < d.size()) d[at + 1] = (char)~d[at + 1];
        text("long, first difference at %zu (%zu/%zu) ", at, h.size(), d.size()); Text A(h, 0, ""), B(d, 0, ""); pg::Seal sealed; pair(o, A, B); A.unchanged();
    }); });
    for (size_t L : {255, 256, 257, 300, 1000, 4099, 5003, 65600, 70001}) task("difference everywhere " + std::to_string(L), [=] { dfs([=] {
        bool ci = choose(2); Order o = order(ci); std::string h; for (size_t i = 0; i < L; i++) h += (char)("aZ[_z@{A"[i % 8] + (i / 8 % 3 == 2 ? 0x80 : 0)); Text A(h, 0, ""), B(h, 2, "x"); K = 0;
        for (size_t i = 0; i <= L; i++) { if (!(L < 6000 || i % 32768 < 4 || i % 32768 > 32764 || i + 3 > L)) continue; text_reset(); text("%zu characters, first difference at %zu ", L, i);
            for (int tw = 0; tw < 3; tw++) { uint8_t x = tw == 0 ? 1 : tw == 1 ? 32 : 0x80, y = (uint8_t)(i + 1 < L ? 0xFF : 0); auto flip = [&] { if (i < L) A.s[i] = (char)(A.g.p[i] ^= x); if (i + 1 < L) A.s[i + 1] = (char)(A.g.p[i + 1] ^= y); }; flip(); pair(o, A, B); flip(); if (i < L) { A.s[i] = (char)(A.g.p[i] ^= x); pair(o, A, B); A.s[i] = (char)(A.g.p[i] ^= x); } } beat(); }
        count(0, K, 0); }); });
}
// ---------------------------------------------------------------- C13
static void c13() {
    bool T = E().thorough;
    auto S = std::make_shared<Strs>(all("aZ@[`{", T ? 5 : 4)); auto S2 = std::make_shared<Strs>(all(std::string("Az\0\xC1\xE1", 5), 4)); S->insert(S->end(), S2->begin(), S2->end());
    for (int fx = 0; fx < 2; fx++) for (int sh = 0; sh < 8; sh++) task("all ranges " + std::to_string(fx) + " part " + std::to_string(sh), [=]() { dfs([&]() {
        const std::string& x = (*S)[choose((int)S->size())]; StrObj o; size_t n = x.size(); uint64_t k = 0;
        if (fx) { o.c.fixed = true; o.c.fixcap = n + 1; } else { o.c.growth = 1; o.c.thr = 0; }
        for (int up = 0; up < 2; up++) {
            auto one = [&](size_t i, size_t c, bool whole) { text_reset(); o.init(); o.append(x); o.conv(up, i, c, whole); o.destroy(); k++; };
            one(0, 0, true); for (size_t i = 0; i <= n + 1; i++) for (size_t c = 0; i + c <= n + 1; c++) one(i, c, false);
            for (size_t b : {(size_t)-1, (size_t)-2, p2(63)}) { one(b, 1, false); one(1, b, false); one(b, 0 - b, false); one(n, b, false); }
        }
        count(0, k, 0);
    }, sh, 8); });
    task("all byte values", [=]() { dfs([&]() {
        int c = choose(256); int up = choose(2), at = choose(3), rng = choose(4); std::string x = "xXx"; x[at] = (char)c; StrObj o; o.c.thr = 0; o.init(); o.append(x);
        if (rng == 3) o.conv(up, 0, 0, true); else o.conv(up, rng, rng == 2 ? 1 : 2); o.destroy();
    }); });
    for (int sh = 0; sh < 8; sh++) task("long part " + std::to_string(sh), [=]() { dfs([&]() {
        size_t L = (T ? 259 : 70) - choose(T ? 259 : 70); std::string x; for (size_t i = 0; i < L; i++) x += (char)(i * 5 + 60); int up = choose(2); uint64_t k = 0;
        StrObj o; o.c.thr = 0; o.ck = 0; o.init(); o.append(x);
        for (size_t i = 0; i <= L; i++) for (size_t n = 0; i + n <= L; n++) { if (L > 80 && n > 20 && i + n < L - 20 && n % 16 > 1) continue; text_reset(); o.m = x; for (size_t j = 0; j < L; j++) ZyanStringSetChar(o.s, j, x[j]); o.conv(up, i, n); k++; }
        o.destroy(); count(0, k, 0);
    }, sh, 8); });
    task("large", [=]() { dfs([&]() {
        static const size_t LS[] = {126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1025, 4097, 65535, 65536, 65537}; size_t L = LS[choose(17)]; std::string x; for (size_t i = 0; i < L; i++) x += (char)(i * 5 + 60 + i / 256); int up = choose(2); uint64_t k = 0;
        StrObj o; o.c.thr = 0; o.ck = 0; o.init(); o.append(x); o.conv(up, 0, 0, true); beat();
        for (size_t i : {(size_t)0, (size_t)1, (size_t)7, L / 2, L - 1, L, (size_t)255, (size_t)256, (size_t)257}) for (size_t n : {(size_t)0, (size_t)1, L / 2, L - 1, L - i, L - i - 1, (size_t)255, (size_t)256, (size_t)257}) { if (i > L || n > L - i) continue; text_reset(); o.m = x; for (size_t j = 0; j < L; j++) ZyanStringSetChar(o.s, j, x[j]); o.conv(up, i, n); k++; beat(); }
        o.destroy(); count(0, k, 0);
    }); });
    // a letter at every place of a long string
    for (size_t L : {300, 1000, 4099, 5003, 65600, 70001}) task("letters everywhere " + std::to_string(L), [=]() { dfs([&]() {
        int up = choose(2), pat = choose(4); std::string x; for (size_t i = 0; i < L; i++) x += pat == 0 ? (char)('A' + i % 26) : pat == 1 ? (char)('a' + i % 26) : pat == 2 ? (char)((i & 1 ? 'a' : 'A') + i % 26) : "@Z[`z{"[i % 6]; uint64_t k = 0; StrObj o; o.c.thr = 0; o.ck = 0; o.init(); o.append(x);
        for (size_t i : {(size_t)0, (size_t)1, (size_t)5, L / 2, (size_t)256}) for (size_t n : {L, L - 1, L - i, L - i - 1, L / 2}) { if (i > L || n > L - i) continue; text_reset(); o.m = x; for (size_t j = 0; j < L; j++) ZyanStringSetChar(o.s, j, x[j]); o.conv(up, i, n); k++; beat(); }
        o.destroy(); count(0, k, 0);
    }); });
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] { const std::string& p = E().prop; if (p == "C10") c10(); else if (p == "C11") c11(); else c13(); });
}
