// argp.hpp - one execution of the argument parser against an independent reference parser.
#pragma once
#include "zy.hpp"
#include <memory>
#include <map>
using namespace mc;
typedef std::string S;
typedef std::vector<S> Ss;
static S qq(const S& s) { S o = "\""; char b[8]; for (unsigned char c : s) { if (c > 32 && c < 127) o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return o + "\""; }
struct Def { S name; bool boolean, required; };
typedef std::vector<Def> Defs;

// memory the parser must not write: pages made read-only, each string ends right before an
// inaccessible page
struct Rom {
    uint8_t* base; char* p; size_t len;
    Rom(const void* d, size_t n) {
        size_t pages = n / 4096 + 1; len = (pages + 1) * 4096;
        base = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memset(base, 'a', pages * 4096); p = (char*)base + pages * 4096 - n; memcpy(p, d, n);
        mprotect(base, pages * 4096, PROT_READ); mprotect(base + pages * 4096, 4096, PROT_NONE);
    }
    ~Rom() { munmap(base, len); }
};
static const char* rom_str(const S& s) {
    static std::map<S, std::unique_ptr<Rom>> m; auto& r = m[s];
    if (!r) r.reset(new Rom(s.c_str(), s.size() + 1));
    return r->p;
}
struct Table { // definition table in read-only memory
    Defs d; std::unique_ptr<Rom> r; bool null;
    Table(const Defs& x, bool nul = false) : d(x), null(nul) {
        if (null) return;
        std::vector<ZyanArgParseDefinition> v(x.size() + 1);
        memset(v.data(), 0, v.size() * sizeof v[0]);
        for (size_t i = 0; i < x.size(); i++) { v[i].name = rom_str(x[i].name); v[i].boolean = x[i].boolean; v[i].required = x[i].required; }
        r.reset(new Rom(v.data(), v.size() * sizeof v[0]));
    }
    ZyanArgParseDefinition* raw() const { return null ? nullptr : (ZyanArgParseDefinition*)r->p; }
};
// ---- independent reference -------------------------------------------------------------------
struct Ent { int def; bool has; int tok; size_t off; }; // value = argv[tok] from off
struct Res { ZyanStatus st = ZYAN_STATUS_SUCCESS; enum { NONE, TOKEN, NAME, ANY } ek = NONE; int ei = 0; std::vector<Ent> e; };
static bool valid_name(const S& n) {
    if (n.size() < 2 || n[0] != '-') return false;
    return n[1] == '-' || n.size() == 2;
}
static Res reference(const Defs& d, const Ss& a, size_t mn, size_t mx) {
    Res r;
    auto err = [&](ZyanStatus s, decltype(r.ek) k, int i) { r.st = s; r.ek = k; r.ei = i; return r; };
    if (mn > mx) return err(ZYAN_STATUS_INVALID_ARGUMENT, Res::ANY, 0);
    for (auto& x : d) if (!valid_name(x.name)) return err(ZYAN_STATUS_INVALID_ARGUMENT, Res::ANY, 0);
    auto look = [&](const S& n) { for (size_t k = 0; k < d.size(); k++) if (d[k].name == n) return (int)k; return -1; };
    size_t unnamed = 0; bool opts = true;
    size_t i = 1;
    while (i < a.size()) {
        const S& t = a[i];
        if (opts && t == "--") { opts = false; i++; continue; }
        bool lng = opts && t.size() > 2 && t.substr(0, 2) == "--", sht = opts && !lng && t.size() > 1 && t[0] == '-';
        if (!lng && !sht) {
            if (++unnamed > mx) return err(ZYAN_STATUS_TOO_MANY_ARGS, Res::TOKEN, (int)i);
            r.e.push_back({-1, true, (int)i, 0}); i++; continue;
        }
        Ss names; if (lng) names.push_back(t); else for (size_t k = 1; k < t.size(); k++) names.push_back(S("-") + t[k]);
        size_t next = i + 1;
        for (size_t k = 0; k < names.size(); k++) {
            int df = look(names[k]); if (df < 0) return err(ZYAN_STATUS_ARG_NOT_UNDERSTOOD, Res::TOKEN, (int)i);
            if (d[df].boolean) { r.e.push_back({df, false, 0, 0}); continue; }
            if (sht && k + 1 < names.size()) { r.e.push_back({df, true, (int)i, k + 2}); break; }
            if (next >= a.size()) return err(ZYAN_STATUS_ARG_MISSES_VALUE, Res::TOKEN, (int)i);
            r.e.push_back({df, true, (int)next, 0}); next++; break;
        }
        i = next;
    }
    if (unnamed < mn) return err(ZYAN_STATUS_TOO_FEW_ARGS, Res::ANY, 0);
    for (size_t k = 0; k < d.size(); k++) if (d[k].required) {
        bool f = false; for (auto& x : r.e) if (x.def == (int)k) f = true;
        if (!f) return err(ZYAN_STATUS_REQUIRED_ARG_MISSING, Res::NAME, (int)k);
    }
    return r;
}
// ---- one execution ---------------------------------------------------------------------------
static S describe(const Table& t, const Ss& a, size_t mn, size_t mx) {
    S o = t.null ? "no definitions;" : "definitions"; for (auto& d : t.d) o += " " + qq(d.name) + (d.boolean ? " bool" : " value") + (d.required ? " required," : ",");
    o += " arguments"; for (auto& x : a) o += " " + qq(x); char b[80]; snprintf(b, 80, "; unnamed %zu..%zu ", mn, mx); return o + b;
}
static uint64_t K, FA, TOK;
static Tracker& parser_allocator() { static Tracker t; return t; }
enum Mode { PLAIN, TRACK, NOERR };
// fault: 0 none, k: k-th allocation fails, -k: all from the k-th on; returns allocations seen
static uint64_t one(const Table& t, const Ss& a, size_t mn, size_t mx, Mode m, int fault = 0) {
    K++; TOK += a.size(); beat(); Tracker& tr = parser_allocator();
    // argv: exact-size array, each token in read-only memory
    std::vector<const char*> tok(a.size()); for (size_t i = 0; i < a.size(); i++) tok[i] = rom_str(a[i]);
    static Guarded ga(pg::ARG); ga.init(a.size() * sizeof(char*), 0); if (!a.empty()) memcpy(ga.p, tok.data(), ga.n);
    heap::reset(); tr.reset();
    uint64_t n = 0;
    auto refuse = [&]() { n++; return fault > 0 ? n == (uint64_t)fault : fault < 0 ? n >= (uint64_t)-fault : false; };
    heap::refuse() = refuse; tr.refuse = refuse; if (m != PLAIN) heap::forbidden() = true;
    static pg::Mem<ZyanArgParseConfig> store(pg::ARG); ZyanArgParseConfig& cfg = *(ZyanArgParseConfig*)store.p; memset(&cfg, 0, sizeof cfg); cfg.argv = (const char**)ga.p; cfg.argc = a.size(); cfg.min_unnamed_args = mn; cfg.max_unnamed_args = mx; cfg.args = t.raw();
    ZyanArgParseConfig before = cfg; const char* E0 = "untouched"; const char* et = E0;
    ZyanVector v; memset(&v, mc::junk(0xEE), sizeof v);
    text_reset(); bool verb = E().replaying || K < 3; if (verb) { text("%s%s", describe(t, a, mn, mx).c_str(), m == PLAIN ? "default allocator " : m == NOERR ? "no error token " : ""); if (fault) text("allocation %d%s fails ", abs(fault), fault < 0 ? " and later" : ""); }
#define BAD(...) do { if (!verb) { text("%s%s", describe(t, a, mn, mx).c_str(), m == PLAIN ? "default allocator " : ""); if (fault) text("allocation %d%s fails ", abs(fault), fault < 0 ? " and later" : ""); } fail(__VA_ARGS__); } while (0)
    pg::Seal* sealed = E().seal ? new pg::Seal(pg::ARG) : nullptr;
    ZyanStatus s = m == PLAIN ? ZyanArgParse(&cfg, &v, &et) : ZyanArgParseEx(&cfg, &v, m == NOERR ? nullptr : &et, &tr.base);
    delete sealed; uint64_t failures = heap::failed() + tr.failed; FA += failures;
    if (verb) text("-> %s", st_name(s));
    if (memcmp(&cfg, &before, sizeof cfg)) BAD("the configuration was modified");
    if (!a.empty() && memcmp(ga.p, tok.data(), ga.n)) BAD("the argument vector was modified");
    Res r = reference(t.d, a, mn, mx);
    if (failures) {
        if (ZYAN_SUCCESS(s)) BAD("success reported although an allocation failed");
        if (s != ZYAN_STATUS_NOT_ENOUGH_MEMORY) BAD("an allocation failure was reported as %s", st_name(s));
        r.st = s; r.ek = Res::ANY;
    }
    if (s != r.st) BAD("status %s, expected %s", st_name(s), st_name(r.st));
    if (m != NOERR) {
        const char* we = r.ek == Res::TOKEN ? tok[r.ei] : r.ek == Res::NAME ? t.raw()[r.ei].name : nullptr;
        if (r.ek != Res::ANY && et != we) BAD("error token %s, expected %s", et ? qq(et).c_str() : "null", we ? qq(we).c_str() : "null");
        // no sensible token: untouched, null or some string of the caller
        if (r.ek == Res::ANY && et && et != E0) { bool in = false; for (auto x : tok) in |= x == et; for (size_t i = 0; i < t.d.size(); i++) in |= t.raw()[i].name == et; if (!in) BAD("the error token does not refer to an argument or a definition"); }
    }
    if (ZYAN_SUCCESS(s)) {
        ZyanUSize k = 0; if (ZyanVectorGetSize(&v, &k) != ZYAN_STATUS_SUCCESS || k != r.e.size()) BAD("%zu entries, expected %zu", (size_t)k, r.e.size());
        if (v.element_size != sizeof(ZyanArgParseArg)) BAD("element size %zu", (size_t)v.element_size);
        for (size_t i = 0; i < k; i++) {
            const ZyanArgParseArg* g = (const ZyanArgParseArg*)ZyanVectorGet(&v, i); const Ent& e = r.e[i];
            if (!g) BAD("entry %zu is missing", i);
            const ZyanArgParseDefinition* wd = e.def < 0 ? nullptr : t.raw() + e.def;
            if (g->def != wd) BAD("entry %zu refers to definition %td, expected %d", i, g->def ? g->def - t.raw() : (ptrdiff_t)-1, e.def);
            if (!!g->has_value != e.has) BAD("entry %zu: has_value %d, expected %d", i, g->has_value, e.has);
            if (e.has) {
                const char* dp = nullptr; ZyanUSize len = 0; const char* w = tok[e.tok] + e.off; size_t wl = a[e.tok].size() - e.off;
                if (ZyanStringViewGetData(&g->value, &dp) != ZYAN_STATUS_SUCCESS || ZyanStringViewGetSize(&g->value, &len) != ZYAN_STATUS_SUCCESS) BAD("entry %zu: value not accessible", i);
                if (len != wl || memcmp(dp, w, wl)) BAD("entry %zu: value %s, expected %s", i, qq(S(dp, len)).c_str(), qq(S(w, wl)).c_str());
                if (dp != w) BAD("entry %zu: the value does not refer into the argument vector", i);
            }
        }
        size_t blocks = heap::live().size() + tr.live.size(); if (blocks != 1) BAD("%zu blocks are allocated after a successful parse, expected only the result", blocks);
        heap::refuse() = nullptr; tr.refuse = nullptr;
        s = ZyanVectorDestroy(&v); if (s != ZYAN_STATUS_SUCCESS) BAD("destruction of the result: %s", st_name(s));
        if (!heap::live().empty() || !tr.live.empty()) BAD("storage remains allocated after the result was destroyed");
    } else if (!heap::live().empty() || !tr.live.empty()) BAD("leak: %zu block(s) remain allocated after a failed parse", heap::live().size() + tr.live.size());
    { Hash h; h.u64(s); h.u64((uint64_t)r.ek * 64 + (uint64_t)r.ei); h.u64(failures != 0); for (auto& e : r.e) { h.u64((uint64_t)(e.def + 1)); h.u64((uint64_t)e.has << 40 | (uint64_t)e.tok << 16 | e.off); } auto q = h.key(); outcome(q.a, q.b); }
    heap::refuse() = nullptr; tr.refuse = nullptr;
    ga.release();
    return n;
}
// every allocation failure of one parse
static void faults(const Table& t, const Ss& a, size_t mn, size_t mx, Mode m) {
    uint64_t n = one(t, a, mn, mx, m);
    for (uint64_t k = 1; k <= n; k++) { one(t, a, mn, mx, m, (int)k); one(t, a, mn, mx, m, -(int)k); }
}
static Ss words(const S& al, size_t maxlen) { Ss v = {""}; size_t b = 0; for (size_t l = 1; l <= maxlen; l++) { size_t e = v.size(); for (size_t i = b; i < e; i++) for (char c : al) v.push_back(v[i] + c); b = e; } return v; }
// all argument vectors program + up to n tokens of T
static void argvs(const Ss& T, size_t n, const std::function<void(const Ss&)>& f, int sh = 0, int nsh = 1) {
    for (size_t l = 0; l <= n; l++) {
        std::vector<size_t> ix(l, 0); Ss a(l + 1, "prog"); uint64_t c = 0;
        for (;;) {
            for (size_t i = 0; i < l; i++) a[i + 1] = T[ix[i]];
            if ((int)(c++ % nsh) == sh) f(a);
            size_t i = 0; for (; i < l; i++) { if (++ix[i] < T.size()) break; ix[i] = 0; }
            if (i == l) break;
        }
    }
}
