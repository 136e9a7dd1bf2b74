// Explorer for the argument parser: C20 (grammar and results) and C21 (failures leave nothing
// behind): every definition table over a pool of names, every argument vector over an alphabet of
// tokens, every unnamed-argument limit, every allocation failure.
#include "argp.hpp"
static void done() { count_outcomes(TOK, K); TOK = 0; E().sh->faults += FA; sample(E().s->text); }
typedef std::pair<size_t, size_t> Lim;
static const size_t INF = ~(size_t)0;

static std::vector<Defs> tables(const Ss& names, size_t maxn) {
    std::vector<Defs> o = {{}}; size_t b = 0;
    for (size_t l = 1; l <= maxn; l++) { size_t e = o.size(); for (size_t i = b; i < e; i++) for (auto& n : names) { bool dup = false; for (auto& d : o[i]) dup |= d.name == n; if (!dup) for (int f = 0; f < 4; f++) { Defs d = o[i]; d.push_back({n, (f & 1) != 0, (f & 2) != 0}); o.push_back(d); } } b = e; }
    return o;
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough, F = E().prop == "C21";
        auto run = [F](const Table& t, const Ss& a, Lim l, int k) { if (F) faults(t, a, l.first, l.second, k & 1 ? PLAIN : TRACK); else one(t, a, l.first, l.second, (Mode)(k % 3)); };
        const std::vector<Lim> L = {{0, 0}, {0, 1}, {1, 1}, {1, 2}, {0, INF}, {2, INF}, {3, 3}};
        // A: all tables
        Ss TA = {"x", "-", "--", "-a", "-b", "-ab", "-ba", "-ax", "--a", "--ab", "--a=", "-\xff", ""};
        int NA = 32;
        for (int sh = 0; sh < NA; sh++) task("all tables " + std::to_string(sh), [=] {
            K = FA = 0; int i = 0; auto all = tables({"-a", "-b", "--a", "--ab"}, T ? 3 : 2);
            for (auto& d : all) if (i++ % NA == sh) { Table t(d); int k = i; argvs(TA, T && d.size() < 3 && !F ? 4 : 3, [&](const Ss& a) { run(t, a, L[k % 5], k / 5); if (!F || T) run(t, a, L[4], k / 7); k++; }); }
            done(); });
        // B: rich tables, long argument vectors, all limits
        std::vector<Defs> RT = {
            {}, {{"-a", true, false}, {"-b", false, false}, {"--ab", false, true}}, {{"-a", true, true}, {"-b", false, true}, {"--ab", true, false}}, {{"--ab", true, true}, {"-b", true, true}, {"-a", true, true}},
            {{"--ab", false, false}, {"-b", false, false}, {"-a", false, false}}, {{"-b", true, false}, {"-a", true, false}}, {{"--a", true, false}, {"--ab", false, false}, {"--abc", true, true}, {"-a", true, false}}, {{"--abc", false, false}, {"--ab", true, false}, {"--a", false, true}, {"-b", true, false}, {"-a", false, false}},
        };
        Ss TB = {"x", "-", "--", "-a", "-b", "-ab", "-ba", "--ab"};
        for (size_t ti = 0; ti < RT.size(); ti++) for (size_t li = 0; li < L.size(); li++) if (!F || T || (li + ti) % 2) task("argument vectors table " + std::to_string(ti) + " limits " + std::to_string(li), [=] {
            K = FA = 0; Table t(RT[ti]); int k = 0; argvs(TB, F ? (T ? 5 : 4) : T ? 6 : 5, [&](const Ss& a) { run(t, a, L[li], k++); }); done(); });
        // C: every token text
        std::vector<Defs> CT = {
            {{"-a", true, false}, {"-b", false, false}, {"--a", true, false}, {"--b", false, false}}, {{"-a", false, false}, {"-b", true, false}, {"--a", false, false}, {"--ab", true, false}, {"--b", true, false}, {"---", true, false}},
            {{"-=", true, false}, {"-\xff", false, false}, {"--a=", false, false}, {"--a=b", true, false}, {"---a", false, false}, {"----", true, false}}, {{"--aaaa", true, false}, {"--aaa", false, false}, {"--aa", true, false}, {"-a", true, false}, {"-b", true, false}, {"-=", true, false}, {"-\xff", true, false}},
        };
        for (size_t ti = 0; ti < CT.size(); ti++) for (int sh = 0; sh < 4; sh++) task("token texts table " + std::to_string(ti) + "." + std::to_string(sh), [=] {
            K = FA = 0; Table t(CT[ti]); auto W = words("-ab=\xff", F ? 4 : T ? 7 : 6); int k = 0;
            for (size_t i = (size_t)sh; i < W.size(); i += 4) for (int nx = 0; nx < 4; nx++) { Ss a = {"p", W[i]}; if (nx) a.push_back(nx == 1 ? "--" : nx == 2 ? "-ab" : ""); run(t, a, {0, 2}, k++); if (nx == 3) { a = {"p", "--a", W[i], "-b"}; run(t, a, {0, 2}, k++); a = {W[i]}; run(t, a, {0, 2}, k++); a = {"p", "--", W[i], W[i]}; run(t, a, {0, 2}, k++); } }
            done(); });
        // D: every definition name, anywhere in the table, valid or not; limits
        task("definition names", [=] {
            K = FA = 0; auto W = words("-ab", 4); W.push_back("-\xff"); W.push_back("--\xff"); W.push_back("-ab\xff"); int k = 0;
            for (auto& w : W) if (w != "--") for (int pos = 0; pos < 3; pos++) for (int f = 0; f < 4; f++) {
                Defs d = {{"-z", true, false}, {"--zz", false, false}}; d.insert(d.begin() + pos, {w, (f & 1) != 0, (f & 2) != 0}); Table t(d);
                for (auto& a : std::vector<Ss>{{"p"}, {"p", "x"}, {"p", w}, {"p", w, "v"}, {"p", "-z", w, "--zz", w}}) for (Lim l : {Lim{0, 0}, Lim{0, 5}, Lim{1, 0}, Lim{INF, 1}, Lim{2, INF}}) run(t, a, l, k++);
            }
            Table n({}, true); for (size_t c = 0; c < 4; c++) for (size_t mn = 0; mn < 4; mn++) for (size_t mx = 0; mx < 4; mx++) for (int m = 0; m < 3; m++) { Ss a(c, "x"); run(n, a, {mn, mx}, m); }
            argvs(TA, 3, [&](const Ss& a) { run(n, a, L[k % 7], k); k++; });
            done(); });
        // E: many entries: the result grows repeatedly
        task("long command lines", [=] {
            K = FA = 0; Defs d; for (char c = 'a'; c <= 'z'; c++) d.push_back({S("-") + c, c != 'z', c == 'a' || c == 'q'}); d.push_back({"--long", false, false}); Table t(d); int k = 0;
            S group; for (char c = 'a'; c < 'z'; c++) group += c;
            for (size_t n = 0; n <= (F && !T ? 12 : 40); n++) for (size_t m = 0; m <= 4; m++) {
                Ss a = {"p"}; S g = "-"; for (size_t i = 0; i < n; i++) g += group[i % 25]; if (n) a.push_back(g); for (size_t i = 0; i < m; i++) { a.push_back("-" + group); a.push_back("--long"); a.push_back("-x"); a.push_back(S("n") + char('0' + i)); }
                for (Lim l : {Lim{0, INF}, Lim{m, m}, Lim{0, m ? m - 1 : 0}, Lim{m + 1, INF}}) { run(t, a, l, k++); Ss b = a; b.push_back("-z"); run(t, b, l, k); b = a; b.push_back(g + "z"); run(t, b, l, k++); b = a; b.push_back(g + "zvalue"); run(t, b, l, k); b = a; b.push_back(g + "?"); run(t, b, l, k++); b = a; b.push_back("--"); for (size_t i = 0; i < n; i++) b.push_back("-z"); run(t, b, l, k++); }
            }
            for (size_t n : {100, 1000, 5000}) { Ss a = {"p", "-" + S(n, 'b'), "-aq"}; one(t, a, 0, 0, TRACK); one(t, a, 0, 0, PLAIN); Ss b = {"p", "-aq"}; b.resize(n, "u"); one(t, b, n - 2, n - 2, TRACK); one(t, b, n - 1, n, PLAIN); one(t, b, 0, n - 3, PLAIN); }
            done(); });
        // F: many definitions, one of them required, wherever it is
        for (size_t n : {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}) task("large definition tables " + std::to_string(n), [=] {
            K = FA = 0; int k = 0; auto nm = [](size_t i) { return i % 3 == 1 && i / 3 < 26 ? S("-") + (char)('a' + i / 3) : S("--opt") + std::to_string(i); };
            auto table = [&](size_t req) { Defs d; for (size_t i = 0; i < n; i++) d.push_back({nm(i), i % 2 == 0, i == req || (req == INF && i % 5)}); return d; };
            auto give = [&](Ss& a, size_t i) { a.push_back(nm(i)); if (i % 2) a.push_back("v" + std::to_string(i)); };
            std::vector<size_t> R; for (size_t i = 0; i < n; i++) if (n < 70 || i < 3 || i + 3 > n || i % 32 == 0 || i % 32 == 31 || i % 37 == 5) R.push_back(i);
            for (size_t r : R) { Table t(table(r));
                std::vector<size_t> others = {n}; for (size_t o : {(size_t)1, (size_t)8, (size_t)16, (size_t)32, (size_t)64, (size_t)128, (size_t)256}) { if (r >= o) others.push_back(r - o); if (r + o < n) others.push_back(r + o); } // every definition but the required one; a definition near or some power of two away instead; both
                for (size_t o : others) for (int both = 0; both < 2; both++) for (int l = 0; l < 2; l++) { Ss a = {"p"}; if (o < n) give(a, o); if (both) give(a, r); if (l) a.push_back("unnamed"); run(t, a, {0, 2}, k++); } }
            for (size_t m : R) { Table t(table(INF)); Ss a = {"p"}; for (size_t i = 0; i < n; i++) if (i != m) give(a, i); one(t, a, 0, INF, (Mode)(k++ % 3)); std::reverse(a.begin() + 1, a.end()); one(t, a, 0, INF, (Mode)(k++ % 3)); a.push_back("--unknown"); one(t, a, 0, INF, (Mode)(k++ % 3)); if (m == R[0]) { give(a, m); one(t, a, 0, 0, TRACK); } }
            { Table t(table(INF)); Ss a = {"p"}; for (size_t i = 0; i < n; i++) give(a, i); run(t, a, {0, 0}, k++); }
            done(); });
        // G: long names that differ in one place, long values
        task("long names and values", [=] {
            K = FA = 0; int k = 0;
            for (size_t n : {3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}) {
                S base = "--"; for (size_t i = 2; i < n; i++) base += (char)('a' + i % 23); std::vector<size_t> at; for (size_t i = 2; i < n; i++) if (i < 4 || i + 4 > n || i % 8 == 0 || i % 8 == 7) at.push_back(i);
                for (size_t i : at) { S other = base; other[i] = 'Z'; S pre = base.substr(0, i), more = base + "x"; 
                    for (int f = 0; f < 4; f++) { Defs d = {{base, (f & 1) != 0, false}, {other, (f & 2) != 0, false}}; if (f == 3 && pre.size() > 2) d.insert(d.begin(), {pre, true, false}); if (f == 2) d.push_back({more, true, true}); if (f == 1) std::swap(d[0], d[1]); Table t(d);
                        for (auto& a : std::vector<Ss>{{"p", base, "v"}, {"p", other, "v"}, {"p", pre, "v"}, {"p", more, base, other}, {"p", other, base, other, base}, {"p", base + "=v", "x"}}) run(t, a, {0, 1}, k++); } }
                S val(n, 'v'), group = "-" + S(n, 'b'); Defs d = {{"-a", false, false}, {"-b", true, false}, {"--long", false, true}}; Table t(d);
                for (auto& a : std::vector<Ss>{{"p", "-a" + val, "--long", val}, {"p", "--long", val, val}, {"p", "--long", group, group}, {"p", group + "a" + val, "--long", ""}, {"p", group + "a", val, "--long", val}, {"p", group + "?", "--long", val}, {"p", val, "--", group}}) run(t, a, {0, 2}, k++);
            }
            done(); });
        // H: counts and lengths beyond 16 bits
        for (size_t n : {65534, 65535, 65536, 65537, 70001}) task("more than 16 bits " + std::to_string(n), [=] {
            K = FA = 0; Table t({{"-a", false, false}, {"-b", true, false}, {"--long", false, false}, {"-q", true, true}}); S val(n, 'v'), group = "-" + S(n, 'b'); Ss un(n + 1, "u"); un[0] = "p";
            auto add = [](Ss a, const Ss& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
            int k = 0; for (Lim l : {Lim{0, INF}, Lim{n, n}, Lim{n + 1, INF}, Lim{0, n - 1}, Lim{0, 0}, Lim{n - 65534, n}, Lim{0, 65535}, Lim{65536, INF}}) { beat(); one(t, add(un, {"-q"}), l.first, l.second, (Mode)(k++ % 3)); if (l.second == n) { one(t, add(add({"p", "-q", "--"}, un), {"--long"}), 2 + l.first, 2 + l.second, (Mode)(k++ % 3)); one(t, un, l.first, l.second, (Mode)(k++ % 3)); } }
            Ss opts = {"p"}; for (size_t i = 0; i < n; i++) opts.push_back(i % 3 ? "-b" : "--long"); // every second value is an option name
            for (auto& a : std::vector<Ss>{{"p", "-a" + val, "-q"}, {"p", "--long", val, "-q"}, {"p", val, "-q"}, {"p", "-q", group}, {"p", group + "q"}, {"p", group + "a" + val, "-q"}, {"p", group + "q" + "?"}, {"p", "--" + val, "-q"}, {"p", "-" + val, "-q"}, {"p", "--long" + val}, {"p", "-q", group + "a"}}) { beat(); one(t, a, 0, 1, (Mode)(k++ % 3)); }
            for (auto& e : {"-q", "-a", "x", "--unknown"}) { beat(); one(t, add(opts, {e}), 0, 1, (Mode)(k++ % 3)); }
            done(); });
    });
}
