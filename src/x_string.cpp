// Explorer for the string properties C09 (editing, termination) and C02's string part.
#include "large.hpp"
using namespace mc;
static std::string prop;
static int flags() { return prop == "C02" ? CK_CAP : CK_CONTENT; }

int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        prop = E().prop; bool T = E().thorough;
        auto dyn = [&](int g, int t, size_t cap0) { StrCfg q; q.growth = g; q.thr = t; q.cap0 = cap0; return q; };
        auto fix = [&](size_t n) { StrCfg q; q.fixed = true; q.fixcap = n; return q; };
        StrCfg df; df.deflt = true;
        int g[] = {1, 2, 3, 2, 1}, t[] = {0, 4, 3, 2, 1}; size_t c0[] = {0, 0, 40, 33, 32};
        size_t M = T ? 4 : 3;
        auto closure = [&](StrCfg c, size_t m) { task("closure " + c.str() + " max=" + std::to_string(m), [=]() { StrSys y(c, flags(), m, false, true); bfs(y, 99); }); };
        for (int i = 0; i < 5; i++) closure(dyn(g[i], t[i], c0[i]), M);
        closure(df, M);
        if (prop != "C02") { for (size_t n : {1, 2, 4}) closure(fix(n), n); if (T) closure(fix(5), 5); }
        std::vector<size_t> S = {0, 1, 2, 7, 16, 30, 31, 32, 33, 34, 63, 64, 65, 100};
        if (T) for (size_t k : {127, 128, 255, 256, 257, 600}) S.push_back(k);
        int gs[] = {2, 1, 3, 2, 255, 4, 1, 16}, ts[] = {4, 0, 1, 2, 255, 4, 1, 0}; size_t cs[] = {0, 0, 10, 64, 3, 32, 33, 100};
        for (int j = 0; j < 8; j++) str_large(dyn(gs[j], ts[j], cs[j]), S, flags(), T ? 3 : 2);
        std::vector<size_t> W = {127, 128, 255, 256, 257, 1025, 4097, 65534, 65535, 65536, 65537}; // around the widths of 8- and 16-bit counters
        str_large(dyn(2, 4, 0), W, flags(), 1); str_large(dyn(1, 1, 70), W, flags(), 1); if (prop != "C02") { str_large(fix(65537), {65534, 65535, 65536}, flags(), 1); str_large(fix(257), {254, 255, 256}, flags(), 1); }
        if (prop != "C02") for (size_t n : {1, 2, 9, 33, 80}) str_large(fix(n), S, flags(), T ? 3 : 2);
    });
}
