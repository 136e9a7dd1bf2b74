// Explorer for C32 and C33: the build without a C library (C32) or the optimised build without
// assertions (C33) against the regular build, in lockstep. Every
// operation is executed on two objects, one per build; all returned statuses, all allocator
// requests, the complete state of both objects and the outcome of every comparison with the
// reference model have to be the same.
#include "api.hpp"
#include "argp.hpp"
#include "large.hpp"
using namespace mc;

static const char* second() { return E().prop == "C33" ? "the release build" : "the build without a C library"; }
static const char* first() { return E().prop == "C33" ? "the build with assertions" : "the regular build"; }
struct Side { bool failed = false; std::string msg; uint64_t trace = 0; };
static Side run(const Api& a, bool mute, const std::function<void()>& f) {
    Side s; Engine& e = E(); g_api = &a; Tracker::trace() = 0; bool m0 = e.mute; e.mute = m0 || mute; e.throwing = true;
    try { f(); } catch (Failure& x) { s.failed = true; s.msg = x.msg; } catch (...) { e.throwing = false; e.mute = m0; throw; }
    e.throwing = false; e.mute = m0; s.trace = Tracker::trace(); return s;
}
static void same(const Side& a, const Side& b) {
    if (a.failed != b.failed) fail("%s and %s behave differently; only %s shows: %s", first(), second(), a.failed ? first() : second(), a.failed ? a.msg.c_str() : b.msg.c_str());
    if (a.failed && a.msg != b.msg) fail("%s: %s; %s: %s", first(), a.msg.c_str(), second(), b.msg.c_str());
    if (a.trace != b.trace) fail("a status or an allocator request differs between %s and %s", first(), second());
}
static uint64_t NX, NB; // executions, pairs of runs compared
static void cnt() { count_outcomes(NB, NX); NX = NB = 0; }
// runs f on both builds; false if it cannot be continued (the same failure in both)
static bool both(const std::function<void(int)>& f) {
    Side a = run(API_REG, false, [&]() { f(0); }), b = run(API_NL, true, [&]() { f(1); });
    same(a, b); if (NX) { NB++; outcome(a.trace); } return !a.failed;
}
template <class Y> struct Twin : System {
    Y a, b; bool dead = false;
    template <class... P> Twin(P... p) : a(p...), b(p...) {}
    int nops() override { return a.nops(); }
    void reset() override { dead = false; if (!both([&](int k) { (k ? b : a).reset(); })) dead = true; }
    int step(int op) override {
        if (dead) return 2;
        int r[2] = {0, 0};
        if (!both([&](int k) { r[k] = (k ? b : a).step(op); })) { dead = true; return 2; }
        if (r[0] != r[1]) fail("an allocation was requested in only one of the builds");
        if (!r[0]) return 0;
        Hash x, y; a.key(x); b.key(y); if (!(x.key() == y.key())) fail("the objects differ between %s and %s", first(), second());
        return r[0];
    }
    void key(Hash& h) override { if (!dead) { a.key(h); b.key(h); } }
    void finish() override { if (!dead && !both([&](int k) { (k ? b : a).finish(); })) dead = true; }
};
static VecCfg vdyn(size_t es, int g, int t, size_t c0, bool d) { VecCfg c; c.es = es; c.growth = g; c.thr = t; c.cap0 = c0; c.dtor = d; return c; }
static VecCfg vfix(size_t es, size_t n, bool d) { VecCfg c; c.es = es; c.fixed = true; c.fixcap = n; c.dtor = d; return c; }
static const int CK = CK_CONTENT | CK_DTOR;
static void vec(VecCfg c, size_t n, bool f) { task("vector " + c.str(), [=] { Twin<VecSys> t(c, CK, n, f, true, 2); bfs(t, 99); }); }
static void str(StrCfg c, size_t n, bool f, int d) { task("string " + c.str(), [=] { Twin<StrSys> t(c, CK_CONTENT, n, f, true); bfs(t, d); }); }
static void bits(BitCfg c, size_t n, bool f, int d) { task("bitset " + c.str(), [=] { Twin<BitSys> t(c, CK_CONTENT | CK_CAP, n, f, true, std::vector<size_t>{0, 3, 7, 8, n - 1}); bfs(t, d); }); }
static void list(ListCfg c, size_t n, bool f, int d) { task("list " + c.str(), [=] { Twin<ListSys> t(c, CK, n, f, true, 2, false); bfs(t, d); }); }
// every choice of a history is made in the first build and repeated in the second one
static void twice(const std::function<void()>& f) {
    size_t p0 = D().pos, p1 = p0;
    both([&](int k) { if (!k) { f(); return; } p1 = D().pos; D().pos = p0; try { f(); } catch (Abort&) { fail("a history is possible in only one of the builds"); } });
    D().pos = std::max(D().pos, p1);
}
static void large(bool T) {
    g_history = twice; std::vector<size_t> L = {0, 1, 5, 16, 17, 33, 65, 130, 260, 300};
    for (size_t es : {1, 4, 8, 24, 130, 300}) { vec_large(vdyn(es, es == 4 ? 1 : 2, es == 8 ? 0 : 4, es % 5, es == 4), L, CK, T ? 2 : 1); ListCfg l; l.es = es; l.dtor = es == 4; list_large(l, {0, 1, 5, 60}, CK, T ? 2 : 1); }
    vec_large(vdyn(4097, 2, 4, 0, false), {0, 1, 3}, CK, 1); vec_large(vfix(4, 70, true), {0, 1, 69, 70}, CK, 1);
    StrCfg s; for (int g : {1, 2}) { s.growth = g; s.thr = g == 1 ? 1 : 4; s.cap0 = g == 1 ? 33 : 0; str_large(s, L, CK_CONTENT, T ? 2 : 1); } s.fixed = true; s.fixcap = 300; str_large(s, {0, 270, 298, 299}, CK_CONTENT, 1);
    BitCfg b; b.growth = b.thr = 2; bits_large(b, {17, 63, 64, 65, 130, 300, 2049}, CK_CONTENT | CK_CAP, T ? 2 : 1);
}
static Ss all(const std::string& al, size_t n) { return words(al, n); }

static void strings(bool T) {
    // searches, comparisons, views, copies over all pairs
    auto A = std::make_shared<Ss>(all(std::string("aB\0", 3), T ? 5 : 4)), B = std::make_shared<Ss>(all(std::string("abB\0", 4), T ? 3 : 2));
    for (int sh = 0; sh < 8; sh++) task("string functions " + std::to_string(sh), [=] {
        for (size_t i = (size_t)sh; i < A->size(); i += 8) { beat(); for (auto& y : *B) { const std::string& x = (*A)[i]; NX++; text_reset(); text("functions of %s and %s ", qq(x).c_str(), qq(y).c_str()); both([&](int) {
            SrcView v(x), w(y);
            auto out = [](ZyanISize p) { Tracker::tr((uint64_t)p + 77); };
            for (size_t a = 0; a <= x.size() + 1; a++) for (size_t c = 0; c <= x.size() + 1 - std::min(a, x.size()); c++) {
                ZyanISize p = -9; ZyanStringLPosEx(&v.v, &w.v, &p, a, c); out(p); p = -9; ZyanStringLPosIEx(&v.v, &w.v, &p, a, c); out(p); p = -9; ZyanStringRPosEx(&v.v, &w.v, &p, a, c); out(p); p = -9; ZyanStringRPosIEx(&v.v, &w.v, &p, a, c); out(p);
                ZyanStringView z; memset(&z, 0, sizeof z); if (ZYAN_SUCCESS(ZyanStringViewInsideViewEx(&z, &v.v, a, c))) { ZyanUSize n = 0; const char* d = nullptr; ZyanStringViewGetSize(&z, &n); ZyanStringViewGetData(&z, &d); out((ZyanISize)n); out(d - (const char*)v.g.p); }
            }
            ZyanISize p = -9; ZyanStringLPos(&v.v, &w.v, &p); out(p); p = -9; ZyanStringLPosI(&v.v, &w.v, &p); out(p); p = -9; ZyanStringRPos(&v.v, &w.v, &p); out(p); p = -9; ZyanStringRPosI(&v.v, &w.v, &p); out(p);
            ZyanI32 r = 9; ZyanStringCompare(&v.v, &w.v, &r); out(r); r = 9; ZyanStringCompareI(&v.v, &w.v, &r); out(r);
            for (size_t k = 0; k < x.size() + y.size() + 3; k++) for (int how = 0; how < 4; how++) {
                Tracker t; Guarded g; ZyanString s; memset(&s, 0, sizeof s); ZyanStatus st; if (how & 1) g.init(k);
                if (how == 0) st = ZyanStringConcatEx(&s, &v.v, &w.v, k, &t.base, 2, 4); else if (how == 1) st = ZyanStringConcatCustomBuffer(&s, &v.v, &w.v, (char*)g.p, k);
                else if (how == 2) st = ZyanStringDuplicateEx(&s, &v.v, k, &t.base, 2, 4); else st = ZyanStringDuplicateCustomBuffer(&s, &v.v, (char*)g.p, k);
                if (ZYAN_SUCCESS(st)) { ZyanUSize n = 0, cp = 0; const char* d = nullptr; ZyanStringGetSize(&s, &n); ZyanStringGetCapacity(&s, &cp); ZyanStringGetData(&s, &d); out((ZyanISize)n); out((ZyanISize)cp); for (size_t i = 0; i <= n; i++) out(d[i]); ZyanStringDestroy(&s); }
                out((ZyanISize)t.live.size());
            }
        }); } } cnt(); });
    task("views of C strings", [=] { for (auto& x : *A) { beat(); NX++; std::string z = x.c_str(); text_reset(); text("view of %s ", qq(z).c_str()); both([&](int) { ZyanStringView v; ZyanUSize n = 0; const char* d = nullptr; memset(&v, 0, sizeof v); ZyanStringViewInsideBuffer(&v, rom_str(z)); ZyanStringViewGetSize(&v, &n); ZyanStringViewGetData(&v, &d); Tracker::tr(n); Tracker::tr((uint64_t)(d - rom_str(z))); }); } cnt(); });
}
static void numbers(bool T) {
    std::vector<uint64_t> V; for (int k = 0; k < 64; k++) for (int d = -1; d <= 1; d++) { V.push_back((1ull << k) + (uint64_t)d); V.push_back(0 - (1ull << k) + (uint64_t)d); }
    uint64_t p10 = 1; for (int k = 0; k < 20; k++) { V.push_back(p10); V.push_back(p10 - 1); V.push_back(0 - p10); p10 *= 10; } for (uint64_t k = 0; k < 300; k++) V.push_back(k);
    auto P = std::make_shared<std::vector<uint64_t>>(V);
    for (int kind = 0; kind < 4; kind++) task("numbers kind " + std::to_string(kind), [=] { for (uint64_t v : *P) { beat(); for (unsigned pad : {0u, 1u, 2u, 5u, 16u, 20u, 21u, 64u, 65u, 255u}) if (T || pad < 64 || v < 40) for (int fl = 0; fl < 4; fl++) {
        NX++; text_reset(); text("append number 0x%llx kind %d padding %u flags %d ", (unsigned long long)v, kind, pad, fl); std::string pre = "0x"; StrObj o[2]; StrCfg c; c.growth = fl & 1 ? 1 : 2; c.thr = 0; both([&](int k) { o[k].c = c; o[k].init(); o[k].fmt(kind, v, pad, fl & 1, fl & 2, (kind & 1) && fl == 3 ? &pre : nullptr, false, true); o[k].destroy(); });
    } } cnt(); });
}
struct Cmp { static ZyanBool eq(const void* a, const void* b) { return *(const uint8_t*)a == *(const uint8_t*)b; } static ZyanI32 cmp(const void* a, const void* b) { return (int)*(const uint8_t*)a - (int)*(const uint8_t*)b; } };
static void searches(bool T) {
    task("vector searches and duplicates", [=] { auto W = all("123", T ? 6 : 5); for (auto& w : W) { beat(); NX++; text_reset(); text("vector of %s ", qq(w).c_str()); both([&](int) {
        Tracker t; ZyanVector v; memset(&v, 0, sizeof v); ZyanVectorInitEx(&v, 3, 0, nullptr, &t.base, 2, 4); for (char c : w) { uint8_t e[3] = {(uint8_t)c, 7, 9}; ZyanVectorPushBack(&v, e); }
        auto out = [](ZyanISize p) { Tracker::tr((uint64_t)p + 77); }; 
        for (char k = '0'; k <= '4'; k++) for (size_t a = 0; a <= w.size() + 1; a++) for (size_t c = 0; c <= w.size() + 1; c++) { uint8_t e[3] = {(uint8_t)k, 0, 0}; ZyanISize p = -9; ZyanVectorFindEx(&v, e, &p, Cmp::eq, a, c); out(p); if (std::is_sorted(w.begin(), w.end())) { ZyanUSize u = 99; ZyanVectorBinarySearchEx(&v, e, &u, Cmp::cmp, a, c); out((ZyanISize)u); if (!a && !c) { u = 99; ZyanVectorBinarySearch(&v, e, &u, Cmp::cmp); out((ZyanISize)u); } } if (!a && !c) { p = -9; ZyanVectorFind(&v, e, &p, Cmp::eq); out(p); } }
        for (size_t k = 0; k < w.size() + 2; k++) for (int how = 0; how < 2; how++) { ZyanVector d; memset(&d, 0, sizeof d); Guarded g; if (how) g.init(k * 3); ZyanStatus s = how ? ZyanVectorDuplicateCustomBuffer(&d, &v, g.p, k) : ZyanVectorDuplicateEx(&d, &v, k, &t.base, 2, 4); if (ZYAN_SUCCESS(s)) { ZyanUSize n = 0, cp = 0; ZyanVectorGetSize(&d, &n); ZyanVectorGetCapacity(&d, &cp); out((ZyanISize)n); out((ZyanISize)cp); for (size_t i = 0; i < n; i++) { const uint8_t* e = (const uint8_t*)ZyanVectorGet(&d, i); for (int b = 0; b < 3; b++) out(e ? e[b] : -1); } ZyanVectorDestroy(&d); } }
        ZyanVectorDestroy(&v); out((ZyanISize)t.live.size());
    }); } cnt(); });
}
static void parser(bool T) {
    std::vector<Defs> RT = {{}, {{"-a", true, false}, {"-b", false, false}, {"--ab", false, true}}, {{"--a", true, false}, {"--ab", false, false}, {"--abc", true, true}, {"-a", true, false}}, {{"--abc", false, false}, {"--ab", true, false}, {"--a", false, true}, {"-b", true, false}, {"-a", false, false}}};
    Ss TB = {"x", "-", "--", "-a", "-ab", "-ba", "--ab", "--a", ""};
    for (size_t ti = 0; ti < RT.size(); ti++) task("argument parser, table " + std::to_string(ti), [=] { Table t(RT[ti]); int k = 0; argvs(TB, T ? 5 : 4, [&](const Ss& a) { k++; NX++; size_t mn = k % 3 == 0, mx = k % 3 == 2 ? 9 : 1; both([&](int) { one(t, a, mn, mx, k & 1 ? TRACK : NOERR); }); if (k % 5 == 0) for (int f = 1; f < 4; f++) { NX++; both([&](int) { one(t, a, mn, mx, TRACK, f); }); } }); cnt(); });
    task("argument parser, names", [=] { auto W = words("-ab", 4); for (auto& w : W) if (w != "--") { Table t({{"-z", true, false}, {w, false, false}, {"--zz", true, false}}); for (auto& a : std::vector<Ss>{{"p"}, {"p", w}, {"p", w, "v"}, {"p", "-z", w, "--zz"}}) { NX++; both([&](int) { one(t, a, 0, 3, TRACK); }); } } cnt(); });
    task("argument parser, tokens", [=] { auto W = words("-ab=\xff", T ? 6 : 5); Table t({{"-a", true, false}, {"-b", false, false}, {"-=", true, false}, {"--a", false, false}, {"--ab", true, false}, {"--b=", true, false}, {"---", true, false}}); for (auto& w : W) for (int nx = 0; nx < 3; nx++) { Ss a = {"p", w}; if (nx) a.push_back(nx == 1 ? "v" : "-b"); NX++; both([&](int) { one(t, a, 0, 2, TRACK); }); } cnt(); });
}
// The parts that need the C library, absent from one build of C32: initialisation with the default
// allocator, and printf-style appending.
#define DEFAULTS(F) F(VectorInit) F(VectorDuplicate) F(StringInit) F(StringDuplicate) F(StringConcat) F(StringAppendFormat) F(BitsetInit) F(ListInit) F(ArgParse)
extern "C" {
#define F(n) __attribute__((weak)) decltype(Zyan##n) nl_Zyan##n;
DEFAULTS(F)
#undef F
}
struct LibcApi {
#define F(n) decltype(&::Zyan##n) p_##n;
    DEFAULTS(F)
#undef F
};
static const LibcApi& def(int k) {
#define F(n) &::Zyan##n,
    static const LibcApi r = {DEFAULTS(F)};
#undef F
#define F(n) &nl_Zyan##n,
    static const LibcApi n = {DEFAULTS(F)};
#undef F
    return k ? n : r;
}
static void out(uint64_t v) { Tracker::tr(v + 77); }
static void outs(const ZyanString& s) { ZyanUSize n = 0, c = 0; const char* d = nullptr; ZyanStringGetSize(&s, &n); ZyanStringGetCapacity(&s, &c); ZyanStringGetData(&s, &d); out(n); out(c); if (d) for (size_t i = 0; i <= n; i++) out((unsigned char)d[i]); }
static void outv(ZyanVector& v, size_t es) { ZyanUSize n = 0, c = 0; ZyanVectorGetSize(&v, &n); ZyanVectorGetCapacity(&v, &c); out(n); out(c); for (size_t i = 0; i < n; i++) { const uint8_t* e = (const uint8_t*)ZyanVectorGet(&v, i); if (e) for (size_t b = 0; b < es; b++) out(e[b]); } }
template <class... A> static void fmt1(size_t pre, size_t room, bool fixed, const char* f, A... a) {
    NX++; text_reset(); text("format %s, %zu characters before, room for %zu%s ", qq(f).c_str(), pre, room, fixed ? ", fixed buffer" : "");
    both([&](int k) {
        ZyanString s; memset(&s, 0, sizeof s); Guarded g; Tracker t; std::string p(pre, 'p'); SrcView w(p);
        if (fixed) { g.init(pre + room + 1); ZyanStringInitCustomBuffer(&s, (char*)g.p, pre + room + 1); } else ZyanStringInitEx(&s, pre + room, &t.base, 1, 0);
        ZyanStringAppend(&s, &w.v); for (int i = 0; i < 2; i++) { out(def(k).p_StringAppendFormat(&s, f, a...)); outs(s); } ZyanStringDestroy(&s); out(t.live.size());
    });
}
static void defaults(bool T) {
    task("printf-style appending", [=] { static const std::string L(300, 'L'); static const wchar_t bad[2] = {(wchar_t)0x7FFFFFFF, 0}; for (int fx = 0; fx < 2; fx++) for (size_t pre : {0, 1, 30, 40}) for (size_t room = 0; room < 70; room += T || room < 6 ? 1 : 3) { beat();
        fmt1(pre, room, fx, "plain"); fmt1(pre, room, fx, "%%"); fmt1(pre, room, fx, "%s", ""); fmt1(pre, room, fx, "%d|%s", -42, "text"); fmt1(pre, room, fx, "%*d", (int)room, 7); fmt1(pre, room, fx, "%*d", (int)room + 1, 7); fmt1(pre, room, fx, "%c%c", 0, 'x'); fmt1(pre, room, fx, "%s", L.c_str()); fmt1(pre, room, fx, "%.3f %llx", 2.5, ~0ull); fmt1(pre, room, fx, "ab%ls", bad);
    } cnt(); });
    task("default allocator: strings", [=] { heap::reset(); auto A = all("ab", 3); for (auto& x : A) for (auto& y : A) for (size_t c = 0; c < 40; c += 3) { beat(); NX++; text_reset(); text("strings %s and %s, capacity %zu, default allocator ", qq(x).c_str(), qq(y).c_str(), c); both([&](int k) {
        const LibcApi& D = def(k); SrcView v(x), w(y); ZyanString s, t, u; memset(&s, 0, sizeof s); memset(&t, 0, sizeof t); memset(&u, 0, sizeof u);
        out(D.p_StringInit(&s, c)); outs(s); ZyanStringAppend(&s, &v.v); outs(s); out(D.p_StringDuplicate(&t, (ZyanStringView*)&s, c)); outs(t); out(D.p_StringConcat(&u, (ZyanStringView*)&s, &w.v, c)); outs(u);
        for (int i = 0; i < 30; i++) { ZyanStringAppend(&t, &w.v); ZyanStringInsert(&u, 0, &v.v); } outs(t); outs(u); ZyanStringShrinkToFit(&u); outs(u); ZyanStringDestroy(&s); ZyanStringDestroy(&t); ZyanStringDestroy(&u); }); } cnt(); });
    task("default allocator: vectors, bitsets, lists", [=] { heap::reset(); for (size_t es : {1, 3, 8}) for (size_t c = 0; c < 12; c++) for (size_t n = 0; n < 20; n++) { beat(); NX++; text_reset(); text("default allocator, element size %zu, capacity %zu, %zu elements ", es, c, n); both([&](int k) {
        const LibcApi& D = def(k); ZyanVector v, w; ZyanBitset b; ZyanList l; memset(&v, 0, sizeof v); memset(&w, 0, sizeof w); memset(&b, 0, sizeof b); memset(&l, 0, sizeof l);
        out(D.p_VectorInit(&v, es, c, nullptr)); for (size_t i = 0; i < n; i++) { uint8_t e[8] = {(uint8_t)i, 2, 3}; ZyanVectorPushBack(&v, e); } outv(v, es); out(D.p_VectorDuplicate(&w, &v, c)); outv(w, es); for (size_t i = 0; i < n; i++) ZyanVectorPopBack(&v); outv(v, es); ZyanVectorDestroy(&v); ZyanVectorDestroy(&w);
        out(D.p_BitsetInit(&b, c)); for (size_t i = 0; i < n; i++) ZyanBitsetPush(&b, i % 3 ? ZYAN_TRUE : ZYAN_FALSE); ZyanUSize z = 0; ZyanBitsetGetSize(&b, &z); out(z); for (size_t i = 0; i < z; i++) ZyanBitsetTest(&b, i); ZyanBitsetGetCapacity(&b, &z); out(z); ZyanBitsetDestroy(&b);
        out(D.p_ListInit(&l, es, nullptr)); for (size_t i = 0; i < n; i++) { uint8_t e[8] = {(uint8_t)i, 2, 3}; if (i & 1) ZyanListPushBack(&l, e); else ZyanListPushFront(&l, e); } z = 0; ZyanListGetSize(&l, &z); out(z); const ZyanListNode* q = nullptr; ZyanListGetHeadNode(&l, &q); while (q) { const uint8_t* d = (const uint8_t*)ZyanListGetNodeData(q); for (size_t i = 0; i < es; i++) out(d[i]); if (ZyanListGetNextNode(&q) != ZYAN_STATUS_SUCCESS) break; }
        ZyanListDestroy(&l); }); } cnt(); });
    task("default allocator: argument parser", [=] { heap::reset(); Ss TB = {"x", "-", "--", "-a", "-ab", "--ab", ""}; Table t({{"-a", true, false}, {"-b", false, false}, {"--ab", false, true}}); argvs(TB, T ? 5 : 4, [&](const Ss& a) { beat(); NX++; std::vector<const char*> tok; for (auto& x : a) tok.push_back(x.c_str()); text_reset(); text("default allocator, %s", describe(t, a, 0, 2).c_str()); both([&](int k) {
        ZyanArgParseConfig cfg; memset(&cfg, 0, sizeof cfg); cfg.argv = tok.data(); cfg.argc = a.size(); cfg.max_unnamed_args = 2; cfg.args = t.raw(); ZyanVector v; memset(&v, 0, sizeof v); const char* et = nullptr; ZyanStatus s = def(k).p_ArgParse(&cfg, &v, &et); out(s);
        if (ZYAN_FAILED(s)) { for (size_t i = 0; i < tok.size(); i++) if (et == tok[i]) out(i + 1000); } else { ZyanUSize n = 0; ZyanVectorGetSize(&v, &n); out(n); for (size_t i = 0; i < n; i++) { auto* g = (const ZyanArgParseArg*)ZyanVectorGet(&v, i); out(g->def ? (uint64_t)(g->def - t.raw()) : 99); out(g->has_value); if (g->has_value) { ZyanUSize m = 0; ZyanStringViewGetSize(&g->value, &m); out(m); } } ZyanVectorDestroy(&v); } }); }); cnt(); });
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough; size_t M = T ? 5 : 4;
        vec(vdyn(4, 2, 2, 0, true), M, true); vec(vdyn(8, 1, 1, 2, false), M, true); vec(vdyn(3, 3, 0, 1, true), M, false); vec(vdyn(1, 2, 4, 5, false), M, true); vec(vfix(4, 3, true), 4, false); vec(vfix(1, 2, false), 3, false);
        StrCfg s; s.growth = 2; s.thr = 4; str(s, M - 1, true, 99); s.growth = 1; s.thr = 1; str(s, M - 1, true, 99); s.growth = 3; s.thr = 0; str(s, M - 1, false, 99); s.fixed = true; s.fixcap = 4; str(s, 4, false, 99); s.fixcap = 7; str(s, 8, false, 3);
        for (size_t n : {0, 7, 9}) { BitCfg b; b.n0 = n; b.growth = 2; b.thr = 2; bits(b, n + 3, true, T ? 6 : 4); }
        ListCfg l; l.es = 4; l.dtor = true; list(l, M, true, 99); l.es = 9; l.dtor = false; list(l, M, true, 99); l.fixed = true; l.es = 4; l.slots = 3; list(l, 4, false, T ? 8 : 6); l.slots = 2; l.dtor = true; list(l, 3, false, 99);
        strings(T); numbers(T); searches(T); parser(T); large(T);
        if (E().prop == "C33") defaults(T);
    });
}
