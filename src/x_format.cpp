// Explorer for number formatting (C14) and printf-style appending (C15).
#include "str.hpp"
#include <memory>
#include <wchar.h>
using namespace mc;
static std::string prefill(size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)('A' + i % 26); return s; }
static void drop(StrObj& o) { o.inited = false; ZyanStringDestroy(o.s); o.t.reset(); o.buf.release(); }

// Values whose digits exercise every digit in every position, all carries and all lengths.
static std::vector<uint64_t> values(bool T) {
    std::vector<uint64_t> v; auto around = [&](uint64_t x, int k) { for (int d = -k; d <= k; d++) v.push_back(x + (uint64_t)(int64_t)d); };
    around(0, T ? 3000 : 1200); around((uint64_t)1 << 63, 20);
    uint64_t p = 1; for (int i = 0; i < 20; i++, p *= 10) { around(p, 12); for (uint64_t d = 1; d < (i < 19 ? 100u : 2u); d++) { if (d > ~0ull / p) break; v.push_back(p * d); v.push_back(p * d - 1); v.push_back(p * d + p / 7); } }
    for (int b = 0; b < 64; b++) around((uint64_t)1 << b, 2);
    for (int s = 0; s < 64; s += 4) for (uint64_t n = 1; n < 16; n++) { v.push_back(n << s); v.push_back(~(n << s)); v.push_back(n << s | 0x123456789abcdefull >> (64 - std::max(s, 1))); uint64_t r = 0; for (int k = 0; k <= s; k += 4) r |= n << k; v.push_back(r); v.push_back(0 - r); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
// Direct call with exact comparison, on a string that is kept at its initial content between calls.
struct Fast {
    StrObj o; size_t n0; uint64_t k = 0; std::string keep;
    void init(StrCfg c, size_t pre) { n0 = pre; keep = prefill(pre); o.c = c; o.ck = 0; o.init(); o.append(keep); }
    void call(int kind, uint64_t v, unsigned pad, bool up, bool plus) {
        ZyanStatus st; k++;
        switch (kind) { case 0: st = ZyanStringAppendDecU(o.s, v, (ZyanU8)pad); break; case 1: st = ZyanStringAppendDecS(o.s, (ZyanI64)v, (ZyanU8)pad, plus, nullptr); break; case 2: st = ZyanStringAppendHexU(o.s, v, (ZyanU8)pad, up); break; default: st = ZyanStringAppendHexS(o.s, (ZyanI64)v, (ZyanU8)pad, up, plus, nullptr); }
        ZyanUSize n = 0; const char* d = nullptr; ZyanStringGetSize(o.s, &n); ZyanStringGetData(o.s, &d);
        char b[300]; int l; // independent text: the C formatter
        if (kind == 0) l = snprintf(b, sizeof b, "%0*llu", pad, (unsigned long long)v);
        else if (kind == 2) l = snprintf(b, sizeof b, up ? "%0*llX" : "%0*llx", pad, (unsigned long long)v);
        else { bool neg = (int64_t)v < 0; unsigned long long u = neg ? 0 - v : v; int z = 0; if (neg) b[z++] = '-'; else if (plus) b[z++] = '+'; l = z + snprintf(b + z, sizeof b - z, kind == 1 ? "%0*llu" : up ? "%0*llX" : "%0*llx", pad, u); }
        if (st != ZYAN_STATUS_SUCCESS || n != n0 + l || memcmp(d, keep.data(), n0) || memcmp(d + n0, b, l) || d[n]) {
            static const char* nm[] = {"DecU", "DecS", "HexU", "HexS"}; text("%s(0x%llx, padding %u%s%s) on %s ", nm[kind], (unsigned long long)v, pad, up ? ", upper" : "", plus ? ", sign" : "", q(keep).c_str());
            fail("status %s, content %s, expected %s followed by \"%s\"", st_name(st), q(std::string(d, n)).c_str(), q(keep).c_str(), b);
        }
        if ((k & 1023) == 0) beat();
        st = ZyanStringTruncate(o.s, n0); if (st != ZYAN_STATUS_SUCCESS && n != n0) fail("truncate failed");
    }
    void done() { o.m = keep; o.verify(); drop(o); count(0, k, 0); }
};
static void c14() {
    bool T = E().thorough; auto V = std::make_shared<std::vector<uint64_t>>(values(T));
    StrCfg c; c.growth = 2; c.thr = 0;
    // all of a dense range, and both halves' neighbourhoods, for every function
    for (int kind = 0; kind < 4; kind++) for (int sh = 0; sh < 8; sh++) task("dense kind" + std::to_string(kind) + " part" + std::to_string(sh), [=]() { dfs([&]() {
        Fast f; f.init(c, 3); uint64_t N = T ? 1u << 23 : 1u << 18; text("all values below %llu, part %d, and their negations ", (unsigned long long)N, sh); choose(1);
        for (uint64_t v = N / 8 * sh; v < N / 8 * (sh + 1); v++) { f.call(kind, v, 0, v & 1, v & 2); if (kind & 1) f.call(kind, 0 - v, v & 15, v & 1, v & 2); else if (kind == 2) f.call(kind, v << 33, 0, v & 1, false); else f.call(kind, ~v, 0, false, false); }
        f.done();
    }); });
    // every group of four digits at every place, followed by the lowest and by the highest digits; the same in front of the highest ones
    for (int kind = 0; kind < 4; kind++) for (int sh = 0; sh < 8; sh++) task("digits kind" + std::to_string(kind) + " part" + std::to_string(sh), [=]() { dfs([&]() {
        Fast f; f.init(c, 1); text("all groups of four digits, part %d ", sh); choose(1); uint64_t B = kind < 2 ? 10 : 16, G = B * B * B * B, top = kind < 2 ? 10000000000000000000ull : 0xFEDCBA9876543210ull;
        uint64_t p = 1; for (int k = 0; k <= (kind < 2 ? 16 : 12); k++, p *= B) { beat(); for (uint64_t g = G / 8 * (uint64_t)sh; g < G / 8 * (uint64_t)(sh + 1) && (p == 1 || g <= ~0ull / p); g++) { uint64_t v = g * p; f.call(kind, v, 0, g & 1, false); if (v + (p - 1) >= v) f.call(kind, v + (p - 1), 0, g & 1, false); f.call(kind, v > top ? v : top - v, 0, g & 1, g & 2); if (kind == 0 && v + top > v) f.call(kind, v + top, 0, false, false); if (kind & 1) f.call(kind, 0 - v, 0, g & 1, g & 2); } }
        f.done();
    }); });
    for (int kind = 0; kind < 4; kind++) for (int sh = 0; sh < 8; sh++) task("values x padding kind" + std::to_string(kind) + " part" + std::to_string(sh), [=]() { dfs([&]() {
        int var = choose(kind == 0 ? 1 : kind == 3 ? 4 : 2); bool up = kind == 3 ? var & 1 : kind == 2 && var, plus = kind == 3 ? var & 2 : kind == 1 && var; Fast f; f.init(c, 2); text("value set, all paddings, variant %d ", var);
        for (size_t i = sh; i < V->size(); i += 8) { uint64_t v = (*V)[i]; for (unsigned pad : {0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 254, 255}) f.call(kind, v, pad, up, plus); }
        const uint64_t few[] = {0, 1, 9, 10, 15, 16, 99, 100, 255, 256, 0xFFFFFFFF, 0x100000000, 999999999999ull, ~0ull, 1ull << 63, (1ull << 63) - 1, 0xabcdef0123456789ull};
        if (sh == 0) for (uint64_t v : few) for (unsigned pad = 0; pad < 256; pad++) f.call(kind, v, pad, up, plus);
        f.done();
    }); });
    // every initial length and every free capacity around what is needed; every allocation failure; buffers of every size
    const uint64_t few[] = {0, 7, 15, 10, 99, 100, 255, 0xFFFFFFFF, 0x100000000, ~0ull, 1ull << 63, 0xabcdef0123456789ull, (uint64_t)-3, (uint64_t)-255, (uint64_t)-1000000};
    auto F = std::make_shared<std::vector<uint64_t>>(few, few + sizeof few / 8);
    for (int kind = 0; kind < 4; kind++) for (int mode = 0; mode < 4; mode++) for (int sh = 0; sh < 4; sh++) task("capacity kind" + std::to_string(kind) + " mode" + std::to_string(mode) + " part" + std::to_string(sh), [=]() { dfs([&]() {
        uint64_t v = (*F)[choose((int)F->size())]; unsigned pads[] = {0, 1, 2, 5, 17, 33, 255}; unsigned pad = pads[choose(T ? 7 : 7)]; bool up = kind >= 2 && choose(2), plus = (kind & 1) && choose(2);
        std::string px, *pp = nullptr; if (kind & 1) { const char* P[] = {nullptr, "", "0x", "prefix_"}; int i = choose(4); if (P[i]) { px = P[i]; pp = &px; } }
        std::string x = StrObj::num(kind, v, pad, up, plus, pp); if (x.size() > 40 && pad != 255) throw Abort(); uint64_t k = 0;
        static const size_t pre[] = {0, 1, 5, 31, 32, 33}; size_t n0 = pre[choose(6)];
        StrObj o; o.ck = 0; 
        if (mode == 0) { // fixed buffers: from too small to more than enough
            for (size_t room = 0; room <= x.size() + 3; room += x.size() > 60 && room > 4 && room + 4 < x.size() ? 7 : 1) { text_reset(); o.c.fixed = true; o.c.fixcap = n0 + room + 1; o.init(); o.append(prefill(n0)); o.fmt(kind, v, pad, up, plus, pp); o.set(0 + (o.m.empty() ? 0 : o.m.size() - 1), 'Q'); drop(o); k++; }
        } else if (mode == 1) { // growable, capacity set exactly
            for (int g : {1, 2}) for (size_t room = 0; room <= x.size() + 2; room += x.size() > 60 && room > 4 && room + 4 < x.size() ? 7 : 1) { text_reset(); o.c.growth = g; o.c.thr = g == 2 ? 4 : 0; o.c.cap0 = n0 + room; o.init(); if (n0 + room < 32) { drop(o); continue; } o.append(prefill(n0)); o.fmt(kind, v, pad, up, plus, pp); o.fmt(kind, v, 0, up, plus, nullptr); o.destroy(); k++; }
        } else { // every single (mode 2) or permanent (mode 3) allocation failure; small capacities are forced by shrinking
            for (size_t room = 0; room <= std::min<size_t>(x.size(), 12); room++) for (int nth = 0; nth < 4; nth++) {
                text_reset(); o.c.growth = 1; o.c.thr = 0; o.c.cap0 = 0; o.init(); o.append(prefill(n0)); if (room) o.append(std::string(room, 'r')); o.shrink(); if (room) { o.del(n0, room); }
                text("allocation %d%s fails: ", nth, mode == 3 ? " and later" : ""); int cnt = 0; bool hit = false; std::string w = o.m + x;
                o.t.refuse = [&]() { bool r = mode == 3 ? cnt >= nth : cnt == nth; cnt++; if (r) { hit = true; E().sh->faults++; } return r; };
                ZyanStatus st; SrcView pv(px);
                switch (kind) { case 0: st = ZyanStringAppendDecU(o.s, v, (ZyanU8)pad); break; case 1: st = ZyanStringAppendDecS(o.s, (ZyanI64)v, (ZyanU8)pad, plus, pp ? &pv.v : nullptr); break; case 2: st = ZyanStringAppendHexU(o.s, v, (ZyanU8)pad, up); break; default: st = ZyanStringAppendHexS(o.s, (ZyanI64)v, (ZyanU8)pad, up, plus, pp ? &pv.v : nullptr); }
                o.t.refuse = nullptr; k++; static const char* nm[] = {"DecU", "DecS", "HexU", "HexS"}; text("%s(0x%llx,pad=%u,%d,%d,%s) ", nm[kind], (unsigned long long)v, pad, up, plus, pp ? q(px).c_str() : "-");
                if (hit) { CHECK(ZYAN_FAILED(st), "allocation failure not reported: %s", st_name(st)); } else { CHECK(st == ZYAN_STATUS_SUCCESS, "failed without an allocation failure: %s", st_name(st)); o.m = w; }
                o.verify(); o.append("ok"); o.destroy(); if (!hit) break;
            }
        }
        count(0, k, 0);
    }, sh, 4); });
}
// ------------------------------------------------------------------------------------ C15
struct FC { const char* n; std::function<ZyanStatus(ZyanString*)> f; std::string want; bool err; };
template <class... A> static FC mk(const char* n, const char* fmt, A... a) {
    int l = snprintf(nullptr, 0, fmt, a...); std::string w; if (l >= 0) { w.resize(l + 1); snprintf(&w[0], l + 1, fmt, a...); w.resize(l); }
    return {n, [=](ZyanString* s) { return ZyanStringAppendFormat(s, fmt, a...); }, w, l < 0};
}
#define F(fmt, ...) mk(#fmt " " #__VA_ARGS__, fmt, ##__VA_ARGS__)
static std::vector<FC>& formats() {
    static std::string long1(200, 'L'), long2; static wchar_t bad[2] = {(wchar_t)0x7FFFFFFF, 0};
    if (long2.empty()) for (int i = 0; i < 1000; i++) long2 += (char)('a' + i % 26);
    static std::vector<FC> v = {
        F("plain"), F("%%"), F("%s", ""), F("%s", "x"), F("%d", 42), F("%d", -1), F("%s=%d;", "key", 123456), F("%.3s|", "abcdef"), F("%5s|%-5s|", "ab", "cd"), F("%*d", 12, 7), F("%-*d|", 9, 7), F("%08.3f", 3.14159), F("%c%c%c", 'x', 0, 'y'), F("%x %X %o", 255, 255, 8), F("%llu %lld", ~0ull, -5ll), F("%p", (void*)0x1234),
        F("%s%s%s%s%s%s%s%s", "a", "bb", "ccc", "dddd", "eeeee", "ffffff", "ggggggg", "hhhhhhhh"), F("%d %f %d %f %d %f %d %f %d %f %d %f %d %f %d %f %d %f", 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 5.5, 6, 6.5, 7, 7.5, 8, 8.5, 9, 9.5), F("%s", long1.c_str()), F("%s", long2.c_str()), F("%300d", 5), F("%ls", L"wide"), F("<%s|%d|%s>", long1.c_str(), 7, long1.c_str()), F("%zu%hhd%s%%", (size_t)77, 300, "end"), F("%3$s %1$s %2$s", "p1", "p2", "p3"),
        F("abc%ls", bad), F("%s%ls", long1.c_str(), bad), F("%1000d%ls", 3, bad), 
    };
    return v;
}
static void c15() {
    bool T = E().thorough; (void)T; size_t NF = formats().size();
    for (size_t i = 0; i < NF; i++) for (int mode = 0; mode < 4; mode++) task("format " + std::to_string(i) + " mode " + std::to_string(mode), [=]() { dfs([&]() {
        FC& c = formats()[i]; size_t L = c.want.size(); static const size_t pre[] = {0, 1, 2, 7, 30, 31, 32, 33, 100, 255}; size_t n0 = pre[choose(10)];
        std::vector<size_t> rooms; size_t top = c.err ? 40 : L + 40; for (size_t r = 0; r <= top; r++) if (T || r < 12 || (r + 6 > L && r < L + 6) || r % 13 == 0) rooms.push_back(r);
        StrObj o; o.ck = 0; uint64_t k = 0;
        auto check = [&](bool must_fail, bool may_fail) {
            text("append format %s ", c.n); std::string before = o.m; ZyanStatus st = c.f(o.s); k++; beat();
            o.t.refuse = nullptr; heap::refuse() = nullptr;
            if (c.err || must_fail) { CHECK(ZYAN_FAILED(st), "reported %s", st_name(st)); if (must_fail && !c.err && o.c.fixed) CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "reported %s", st_name(st)); }
            else if (!ZYAN_FAILED(st)) { CHECK(st == ZYAN_STATUS_SUCCESS, "reported %s", st_name(st)); o.m += c.want; } else CHECK(may_fail, "failed with %s", st_name(st));
            o.verify(); 
        };
        for (size_t r : rooms) {
            text_reset(); o.dispose();
            if (mode == 0) { o.c.fixed = true; o.c.fixcap = n0 + r + 1; o.init(); o.append(prefill(n0)); check(L > r, false); if (!o.fits(o.m.size() + 1)) {} else o.append("+"); o.destroy(); }
            else if (mode == 1 || mode == 2) { // growable with exactly r free characters
                o.c.growth = mode; o.c.thr = mode == 2 ? 4 : 0; o.c.cap0 = 0; o.init(); std::string fill = prefill(n0 + r); o.append(fill); o.shrink(); 
                if (o.c.thr) { o.destroy(); o.c.cap0 = n0 + r; if (n0 + r < 32) continue; o.init(); o.append(prefill(n0)); } else if (r) { o.del(n0, r); }
                check(false, false); check(false, false); o.append("+"); o.destroy();
            } else for (int nth = 0; nth < 3; nth++) { // the nth allocation fails
                text_reset(); o.c.growth = 1; o.c.thr = 0; o.init(); o.append(prefill(n0 + r)); o.shrink(); if (r) o.del(n0, r);
                int cnt = 0; bool hit = false; text("allocation %d fails: ", nth); o.t.refuse = [&]() { bool x = cnt++ == nth; if (x) { hit = true; E().sh->faults++; } return x; };
                std::string before = o.m; ZyanStatus st = c.f(o.s); o.t.refuse = nullptr; k++; beat(); text("format %s ", c.n);
                if (hit || c.err) CHECK(ZYAN_FAILED(st), "reported %s", st_name(st)); else { CHECK(st == ZYAN_STATUS_SUCCESS, "reported %s", st_name(st)); o.m += c.want; }
                o.verify(); o.append("+"); o.destroy(); if (!hit) break;
            }
        }
        count(0, k, 0);
    }); });
    // outputs of all lengths around powers of two, onto contents of such lengths, into just enough and just too little room
    static const size_t OUT[] = {0, 1, 31, 63, 64, 65, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000};
    for (size_t len : OUT) for (int kind = 0; kind < 3; kind++) task("large output " + std::to_string(len) + " kind " + std::to_string(kind), [=]() { dfs([&]() {
        static const size_t pre[] = {0, 1, 31, 32, 127, 255, 256, 257, 511, 1023, 1024, 4095, 65535, 65536}; size_t n0 = pre[choose(14)]; uint64_t k = 0; if (kind == 2 && len < 12) throw Abort();
        std::string body; for (size_t i = 0; i < len; i++) body += (char)('!' + (i * 7 + i / 93) % 90); std::string want = kind == 1 ? std::string(len - std::min<size_t>(len, 2), ' ') + (len < 2 ? std::string("42") : std::string("42")) : body; if (kind == 2) want = "[" + body.substr(0, len - 9) + "|" + "-7" + "|abc]";
        auto run = [&](ZyanString* s) { return kind == 0 ? ZyanStringAppendFormat(s, "%s", body.c_str()) : kind == 1 ? ZyanStringAppendFormat(s, "%*d", (int)len, 42) : ZyanStringAppendFormat(s, "[%.*s|%d|%s]", (int)(len - 9), body.c_str(), -7, "abc"); };
        size_t L = want.size(); std::string base; for (size_t i = 0; i < n0; i++) base += (char)('A' + (i + i / 250) % 26); SrcView bv(base);
        for (int mode = 0; mode < 3; mode++) for (size_t room : {(size_t)0, (size_t)1, L / 2, L - 1, L, L + 1, L + 2, L + 40, (size_t)255, (size_t)256, (size_t)511}) {
            if (room > 2 * L + 600) continue; text_reset(); text("%zu characters onto %zu, %s, room for %zu ", L, n0, mode == 0 ? "buffer" : mode == 1 ? "growth factor 1" : "growth factor 2", room); beat(); k++;
            Tracker t; Guarded g(pg::OTHER); ZyanString s; ZyanStatus r; size_t cap = n0 + room;
            if (mode == 0) { g.init(cap + 1); r = ZyanStringInitCustomBuffer(&s, (char*)g.p, cap + 1); } else r = ZyanStringInitEx(&s, cap, &t.base, (ZyanU8)mode, mode == 2 ? 4 : 0);
            CHECK(r == ZYAN_STATUS_SUCCESS, "init: %s", st_name(r)); r = ZyanStringAppend(&s, &bv.v); CHECK(r == ZYAN_STATUS_SUCCESS, "append: %s", st_name(r));
            r = run(&s); bool fits = mode || L <= room; if (fits) CHECK(r == ZYAN_STATUS_SUCCESS, "reported %s", st_name(r)); else CHECK(r == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "reported %s", st_name(r));
            ZyanUSize n = 0; const char* d = nullptr; ZyanStringGetSize(&s, &n); ZyanStringGetData(&s, &d); std::string w = fits ? base + want : base; CHECK(n == w.size(), "%zu characters instead of %zu", (size_t)n, w.size()); CHECK(!memcmp(d, w.data(), n) && !d[n], "wrong content");
            SrcView e("+"); r = ZyanStringAppend(&s, &e.v); if (mode || n < cap) CHECK(r == ZYAN_STATUS_SUCCESS, "append: %s", st_name(r)); else CHECK(r == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "append: %s", st_name(r)); ZyanStringDestroy(&s); t.expect_no_leak("after destroying the string"); if (mode == 0) g.release();
        }
        count(0, k, 0);
    }); });
    // sequences of formatted appends interleaved with edits
    for (int g = 0; g < 3; g++) for (int sh = 0; sh < 4; sh++) task("sequences " + std::to_string(g) + " part " + std::to_string(sh), [=]() { dfs([&]() {
        StrObj o; o.ck = 0; if (g < 2) { o.c.growth = g + 1; o.c.thr = g ? 4 : 0; } else { o.c.fixed = true; o.c.fixcap = 24; } o.init();
        static const size_t use[] = {0, 2, 6, 8, 10, 12, 18, 25, 26}; 
        for (int d = 0; d < (T ? 4 : 3); d++) {
            int op = choose(13);
            if (op < 9) { FC& c = formats()[use[op]]; text("format %s ", c.n); size_t n = o.m.size() + c.want.size(); ZyanStatus st = c.f(o.s); if (c.err) CHECK(ZYAN_FAILED(st), "reported %s", st_name(st)); else if (!o.fits(n)) CHECK(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "reported %s", st_name(st)); else { CHECK(st == ZYAN_STATUS_SUCCESS, "reported %s", st_name(st)); o.m += c.want; } o.verify(); }
            else if (op == 9) o.shrink(); else if (op == 10) o.clear(); else if (op == 11) o.append("12345"); else { if (o.m.empty()) throw Abort(); o.del(o.m.size() / 2, o.m.size() - o.m.size() / 2); }
        }
        o.destroy();
    }, sh, 4); });
}
int main(int argc, char** argv) { return main_(argc, argv, [] { if (E().prop == "C14") c14(); else c15(); }); }
