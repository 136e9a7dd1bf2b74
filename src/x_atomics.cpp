// Explorer for C23: atomic operations. Every schedule of every small program at memory-access
// granularity; the recorded histories have to be linearizable. All boundary operands sequentially.
#include "sched.hpp"
using namespace mc;
typedef uint64_t U;
struct Ops { const char* name; int width; U (*inc)(void*); U (*dec)(void*); U (*cas)(void*, U, U); };
#define DECL(fl, m, w) U fl##_##m##inc##w(void*); U fl##_##m##dec##w(void*); U fl##_##m##cas##w(void*, U, U);
#define DECLS(fl) DECL(fl, , 32) DECL(fl, , 64) DECL(fl, , p) DECL(fl, m, 32) DECL(fl, m, 64) DECL(fl, m, p)
extern "C" { DECLS(clang) DECLS(gcc) DECLS(clangxx) DECLS(gxx) }
#define OPS(fl, m, w, n) {#fl " " #m #w, n, fl##_##m##inc##w, fl##_##m##dec##w, fl##_##m##cas##w}
#define ROW(fl) {OPS(fl, , 32, 32), OPS(fl, , 64, 64), OPS(fl, , p, 64), OPS(fl, m, 32, 32), OPS(fl, m, 64, 64), OPS(fl, m, p, 64)}
static const Ops TAB[4][6] = {ROW(clang), ROW(gcc), ROW(clangxx), ROW(gxx)};
static U mask(int w) { return w == 32 ? 0xffffffffull : ~0ull; }

enum K { INC, DEC, CAS };
struct Op { K k; U c, v; };
static U apply(const Op& o, U& x, U m) {
    if (o.k == INC) return x = (x + 1) & m;
    if (o.k == DEC) return x = (x - 1) & m;
    U r = x; if (x == (o.c & m)) x = o.v & m; return r;
}
struct Ev { Op o; U ret, inv, resp; int th; };
// is there a sequential order that respects completion before invocation?
static bool lin(const std::vector<Ev>& e, unsigned done, U x, U fin, U m) {
    if (done == (1u << e.size()) - 1) return x == fin;
    U first = ~0ull; for (size_t i = 0; i < e.size(); i++) if (!(done >> i & 1)) first = std::min(first, e[i].resp);
    for (size_t i = 0; i < e.size(); i++) if (!(done >> i & 1) && e[i].inv < first) { U y = x; if (apply(e[i].o, y, m) == e[i].ret && lin(e, done | 1u << i, y, fin, m)) return true; }
    return false;
}
static void show(const Op& o) { if (o.k == CAS) text("cas(%llx->%llx) ", (unsigned long long)o.c, (unsigned long long)o.v); else text(o.k == INC ? "inc " : "dec "); }
static U call(const Ops& f, void* p, const Op& o) { return o.k == INC ? f.inc(p) : o.k == DEC ? f.dec(p) : f.cas(p, o.c, o.v); }
static void onacc(const volatile void* p, size_t, bool) { if (!sc::own_stack(p)) sc::point(); }
// scheduling points of the most complex operation when it runs alone
static uint64_t npoints; static void countacc(const volatile void* p, size_t, bool) { if (!sc::own_stack(p)) npoints++; }
static int complexity(const Ops& f) {
    static sc::Th dummy; sc::me = &dummy; sc::stack_of(&dummy); auto old = sc::on_access; sc::on_access = countacc; uint64_t mx = 0; static U mem[4];
    for (int k = 0; k < 4; k++) { npoints = 0; mem[1] = 0; Op o = k == 0 ? Op{INC, 0, 0} : k == 1 ? Op{DEC, 0, 0} : Op{CAS, k == 2, 5}; call(f, &mem[1], o); mx = std::max(mx, npoints); }
    sc::me = nullptr; sc::on_access = old; return (int)mx;
}
static void programs(const Ops& f, int threads, int ops, U x0, int sh, int nsh) {
    char nm[100]; snprintf(nm, sizeof nm, "%s: %d threads, %d operations each, from 0x%llx, part %d", f.name, threads, ops, (unsigned long long)x0, sh);
    const Ops* F = &f;
    task(nm, [=] {
        U m = mask(F->width); std::vector<Op> A = {{INC, 0, 0}, {DEC, 0, 0}, {CAS, x0, x0 + 1}, {CAS, x0 + 1, x0}, {CAS, x0, x0 - 1}};
        int np = 1; for (int i = 0; i < ops; i++) np *= (int)A.size();
        sc::on_access = onacc; struct { U pre, cell, post; } mem;
        // operations of several steps: all schedules of the smaller programs, fewer preemptions in the larger ones
        int bound = !E().thorough && complexity(*F) > 1 && threads * ops > 4 ? 1 : -1;
        dfs([&] {
            int lo = 0; std::vector<std::vector<Op>> pr(threads);
            text("%s from 0x%llx: ", F->name, (unsigned long long)x0);
            for (int t = 0; t < threads; t++) { int p = lo + choose(np - lo); lo = p; text("thread %d: ", t); for (int i = 0; i < ops; i++) { pr[t].push_back(A[p % A.size()]); p /= (int)A.size(); show(pr[t].back()); } }
            U G = 0xA5A5A5A5A5A5A5A5ull; mem.pre = mem.post = G; mem.cell = F->width == 32 ? (G & ~m) | (x0 & m) : x0;
            std::vector<Ev> ev; ev.reserve((size_t)(threads * ops)); std::vector<std::function<void()>> fs;
            for (int t = 0; t < threads; t++) fs.push_back([&, t] { for (auto& o : pr[t]) { Ev e{o, 0, sc::tick(), 0, t}; e.ret = call(*F, &mem.cell, o); e.resp = sc::tick(); ev.push_back(e); } });
            sc::run(fs, bound, false);
            if (E().replaying) { for (auto& e : ev) { text("[thread %d ", e.th); show(e.o); text("= 0x%llx] ", (unsigned long long)e.ret); } text("final 0x%llx", (unsigned long long)(mem.cell & m)); }
            CHECK(mem.pre == G && mem.post == G && (F->width == 64 || (mem.cell & ~m) == (G & ~m)), "memory next to the value was modified");
            CHECK(lin(ev, 0, x0 & m, mem.cell & m, m), "no sequential order of the operations explains the returned values and the final value 0x%llx", (unsigned long long)(mem.cell & m));
        }, sh, nsh);
    });
}
static std::vector<U> values(int w) {
    std::vector<U> v; U m = mask(w); auto add = [&](U x) { v.push_back(x & m); };
    for (int k = 0; k < w; k++) for (int d = -1; d <= 1; d++) { add((1ull << k) + (U)d); add(0 - (1ull << k) + (U)d); }
    for (U k = 0; k < 20; k++) add(k); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
static void sequential(const Ops& f) {
    const Ops* F = &f;
    task(std::string(f.name) + ": all boundary operands", [=] {
        U m = mask(F->width), G = 0xA5A5A5A5A5A5A5A5ull, n = 0; auto V = values(F->width); sc::on_access = nullptr;
        struct { U pre; union { U cell; uint32_t half[2]; }; U post; } mem;
        auto one = [&](U x, const Op& o, int half) {
            n++; beat(); text_reset(); text("%s value 0x%llx ", F->name, (unsigned long long)x); show(o);
            mem.pre = mem.post = mem.cell = G; void* p = &mem.cell; if (F->width == 32) { mem.half[half] = (uint32_t)x; p = &mem.half[half]; } else mem.cell = x;
            U w = x, wr = apply(o, w, m), r = call(*F, p, o), y = F->width == 32 ? mem.half[half] : mem.cell;
            if (n < 4000000) outcome(y);
            CHECK(r == wr, "returned 0x%llx, expected 0x%llx", (unsigned long long)r, (unsigned long long)wr);
            CHECK(y == w, "the value is 0x%llx, expected 0x%llx", (unsigned long long)y, (unsigned long long)w);
            CHECK(mem.pre == G && mem.post == G && (F->width == 64 || mem.half[!half] == (uint32_t)G), "memory next to the value was modified");
        };
        for (int h = 0; h < (F->width == 32 ? 2 : 1); h++) for (U x : V) { one(x, {INC, 0, 0}, h); one(x, {DEC, 0, 0}, h); for (U v : V) { one(x, {CAS, x, v}, h); one(x, {CAS, v, x + 1}, h); one(x, {CAS, v, 0}, h); } }
        if (E().thorough && F->width == 32) for (U x = 0; x <= m; x++) { one(x, {INC, 0, 0}, 0); one(x, {DEC, 0, 0}, 0); }
        count_outcomes(n, V.size());
    });
}
// the value is 64-bit misaligned neighbours: two adjacent 32-bit values used by different threads
static void neighbours(const Ops& f) {
    const Ops* F = &f;
    task(std::string(f.name) + ": adjacent values", [=] {
        sc::on_access = onacc; static const U X[] = {0, 0xffffffffull};
        dfs([&] {
            uint32_t v[2]; U x[2]; std::vector<Op> pr[2]; for (int t = 0; t < 2; t++) { x[t] = X[choose(2)]; v[t] = (uint32_t)x[t]; text("value %d 0x%llx: ", t, (unsigned long long)x[t]); for (int i = 0; i < 2; i++) { int k = choose(3); pr[t].push_back(k == 0 ? Op{INC, 0, 0} : k == 1 ? Op{DEC, 0, 0} : Op{CAS, x[t], 7}); show(pr[t].back()); } }
            U got[2][2]; std::vector<std::function<void()>> fs; for (int t = 0; t < 2; t++) fs.push_back([&, t] { for (int i = 0; i < 2; i++) got[t][i] = call(*F, &v[t], pr[t][i]); });
            sc::run(fs, -1, false);
            for (int t = 0; t < 2; t++) { U w = x[t]; for (int i = 0; i < 2; i++) { U r = apply(pr[t][i], w, mask(32)); CHECK(got[t][i] == r, "operation %d on value %d returned 0x%llx, expected 0x%llx", i, t, (unsigned long long)got[t][i], (unsigned long long)r); } CHECK(v[t] == w, "value %d is 0x%x, expected 0x%llx", t, v[t], (unsigned long long)w); }
        });
    });
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough;
        for (int fl = 0; fl < 4; fl++) for (int w = 0; w < 6; w++) {
            const Ops& f = TAB[fl][w]; bool full = T || (fl < 2 && w < 3);
            for (U x0 : {(U)0, ~(U)0}) {
                int parts = full ? 8 : 1;
                for (int p = 0; p < parts; p++) { programs(f, 2, full ? 3 : 2, x0, p, parts); if (full && (T || (fl == 0 && x0 == 0))) programs(f, 3, 2, x0, p, parts); }
                if (full) { programs(f, 2, 2, x0, 0, 1); programs(f, 3, 1, x0, 0, 1); }
            }
            sequential(f); if (f.width == 32) neighbours(f);
        }
        if (T) for (int w = 0; w < 3; w++) for (int p = 0; p < 32; p++) { programs(TAB[0][w], 2, 4, 0, p, 32); programs(TAB[0][w], 4, 1, 0, p, 32); }
    });
}
