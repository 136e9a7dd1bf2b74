// Explorer for the vector properties C01 (sequence), C02 (capacity), C30 (failed construction).
#include "large.hpp"
using namespace mc;

static std::string prop;
static int flags() {
    if (prop == "C02") return CK_CAP;
    if (prop == "C30") return CK_CONTENT | CK_DTOR;
    return CK_CONTENT;
}
static void closure(VecCfg c, size_t maxsize, int depth, bool failctor, uint64_t maxstates = ~0ull) {
    task("closure " + c.str() + " max=" + std::to_string(maxsize), [=]() { VecSys y(c, flags(), maxsize, false, failctor); bfs(y, depth, maxstates); });
}

int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        prop = E().prop; bool T = E().thorough, fc = prop == "C30";
        auto dyn = [&](size_t es, int g, int t, size_t cap0, bool dtor = false) { VecCfg q; q.es = es; q.growth = g; q.thr = t; q.cap0 = cap0; q.dtor = dtor; return q; };
        auto fix = [&](size_t es, size_t n) { VecCfg q; q.es = es; q.fixed = true; q.fixcap = n; return q; };
        VecCfg df; df.deflt = true; df.es = 8; df.growth = 2; df.thr = 4; df.cap0 = 0;
        size_t M = T ? 4 : 3;
        int g[] = {1, 2, 3, 2, 1, 4}, t[] = {0, 4, 3, 2, 1, 0}; size_t es[] = {4, 1, 8, 3, 2, 12}, c0[] = {0, 1, 2, 5, 4, 3};
        for (int i = 0; i < 6; i++) closure(dyn(es[i], g[i], t[i], c0[i], prop == "C30" && i % 2), M, 99, fc);
        closure(df, M, 99, fc);
        if (prop != "C02") { closure(fix(4, 3), 4, 99, fc); closure(fix(1, 1), 2, 99, fc); if (T) closure(fix(24, 5), 6, 99, fc); }
        std::vector<size_t> S = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100};
        if (T) for (size_t k : {127, 128, 129, 255, 256, 257, 300, 600}) S.push_back(k);
        int D = T ? 2 : 1;
        size_t ess[] = {1, 2, 3, 4, 5, 8, 12, 16, 24, 40};
        int gs[] = {2, 1, 3, 255, 2, 4, 1, 5, 16, 2}, ts[] = {4, 0, 1, 255, 0, 2, 1, 5, 3, 2}; size_t cs[] = {0, 1, 10, 64, 3, 7, 0, 2, 100, 33};
        for (int i = 0; i < 10; i++) for (int j = 0; j < 10; j++) if (T || (i * 3 + j) % 4 == 0 || i == j) vec_large(dyn(ess[i], gs[j], ts[j], cs[j]), S, flags(), D, false, fc);
        if (prop != "C02") for (size_t e : {1, 4, 24}) for (size_t k : {1, 8, 17, 64}) vec_large(fix(e, k), S, flags(), D, false, fc);
        // around the widths of 8- and 16-bit counters
        std::vector<size_t> W = {255, 256, 257, 1025, 4097, 65535, 65536, 65537};
        for (size_t e : {1, 4, 12}) { if (e < 12 || T) vec_large(dyn(e, e == 1 ? 1 : 2, e == 1 ? 1 : 4, 0), W, flags(), 1, false, fc && T); }
        if (prop != "C02") { vec_large(fix(4, 65537), {65535, 65536, 65537}, flags(), 1, false, false); vec_large(fix(3, 257), {255, 256, 257}, flags(), 1, false, fc); }
        if (prop == "C02") long_runs(T);
        // wide elements
        for (size_t e : {17, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 513, 1000, 1024, 2049, 4097, 70000}) {
            vec_large(dyn(e, 2, 4, e % 3), {0, 1, 2, 3, 8}, flags(), e <= 300 || T ? 2 : 1, false, fc); if (e % 2 && prop != "C02") vec_large(fix(e, 4), {0, 2, 3, 4}, flags(), 1, false, fc);
        }
    });
}
