// Explorer for C24 (critical sections) and C25 (thread-local slots): all schedules of all small
// thread programs on real threads, one running at a time, against ideal owners and slots.
#include "sched.hpp"
#include "st.hpp"
extern "C" {
#include <Zycore/API/Synchronization.h>
#include <Zycore/API/Thread.h>
}
using namespace mc;
static int (*g_err)(const char*);
static const char* g_where; static int g_code;
static int g_nth_refused = -1, g_hits; // -1: every request, n: only the n-th
static int refuser(const char* w) { if (!g_where || strcmp(w, g_where)) return 0; if (g_nth_refused >= 0 && g_nth_refused-- != 0) return 0; g_hits++; return g_code; }
static void refuse_once(const char* w, int e, int nth) { g_where = w; g_code = e; g_nth_refused = nth; g_hits = 0; sc_w::refuse = refuser; }
static void refuse_off() { g_where = nullptr; g_nth_refused = -1; sc_w::refuse = nullptr; }
static void onacc(const volatile void* p, size_t, bool) { if (!sc::own_stack(p)) sc::point(); }

// ---- C24 ---------------------------------------------------------------------------------------
enum { ENTER, TRY, LEAVE };
struct Op { int k, s; };
typedef std::vector<Op> Prog;
static const char* opname(int k) { return k == ENTER ? "enter" : k == TRY ? "try" : "leave"; }
// all programs of exactly n operations; blocking entries respect the order of the sections
static std::vector<Prog> programs(int n, int secs) {
    std::vector<Prog> out; Prog p; int lo[2] = {0, 0}, hi[2] = {0, 0}; // certain and possible depth
    std::function<void(int)> go = [&](int i) {
        if (i == n) { out.push_back(p); return; }
        for (int s = 0; s < secs; s++) for (int k = 0; k < 3; k++) {
            if (k == LEAVE && !hi[s]) continue;
            if (k == ENTER && s == 0 && hi[1] && !lo[0]) continue; // could deadlock
            int l = lo[s], h = hi[s];
            if (k == ENTER) lo[s]++, hi[s]++; else if (k == TRY) { hi[s]++; if (lo[s]) lo[s]++; } else { hi[s]--; lo[s] = std::max(0, lo[s] - 1); }
            p.push_back({k, s}); go(i + 1); p.pop_back(); lo[s] = l; hi[s] = h;
        }
    };
    go(0); return out;
}
struct Sec { // what is certain and possible about a section
    int owner = -1, depth[8] = {0}; bool poss[8] = {false}; uint64_t ended[8] = {0};
    void begin(int t) { poss[t] = true; }
    void end(int t) { poss[t] = false; ended[t] = sc::tick(); }
};
static ZyanCriticalSection g_cs[2]; static Sec g_sec[2]; static int g_nth;
static void entered(Sec& x, int t, int s) {
    if (x.owner >= 0 && x.owner != t) fail("threads %d and %d are inside section %d at the same time", x.owner, t, s);
    x.owner = t; x.depth[t]++;
}
static void step(int t, const Op& o) {
    Sec& x = g_sec[o.s]; ZyanCriticalSection* c = &g_cs[o.s]; bool tr = E().replaying;
    if (o.k == LEAVE) {
        if (!x.depth[t]) return; // an earlier attempt did not succeed
        if (!--x.depth[t]) x.owner = -1;
        ZyanStatus r = ZyanCriticalSectionLeave(c); if (tr) text("%d:leave%d ", t, o.s);
        CHECK(r == ZYAN_STATUS_SUCCESS, "thread %d could not leave section %d that it owns: %s", t, o.s, st_name(r));
        if (!x.depth[t]) x.end(t);
        return;
    }
    bool had = x.depth[t] > 0; uint64_t inv = sc::tick(); x.begin(t);
    if (o.k == ENTER) {
        ZyanStatus r = ZyanCriticalSectionEnter(c); if (tr) text("%d:enter%d ", t, o.s);
        CHECK(r == ZYAN_STATUS_SUCCESS, "thread %d could not enter section %d: %s", t, o.s, st_name(r));
        entered(x, t, o.s); return;
    }
    sc::me->no_block = true; ZyanBool r = ZyanCriticalSectionTryEnter(c); sc::me->no_block = false; if (tr) text("%d:try%d=%d ", t, o.s, r);
    if (r) { entered(x, t, o.s); return; }
    CHECK(!had, "thread %d could not try-enter section %d that it already owns", t, o.s);
    bool other = false; for (int u = 0; u < g_nth; u++) if (u != t) other |= x.poss[u] || x.ended[u] > inv;
    CHECK(other, "thread %d could not try-enter section %d although it was free", t, o.s);
    x.end(t);
}
static void run_programs(const std::vector<Prog>& pr, int secs, int bound) {
    int n = (int)pr.size(); g_nth = n;
    for (int t = 0; t < n; t++) { text("thread %d: ", t); for (auto& o : pr[t]) text("%s%d ", opname(o.k), o.s); }
    memset(g_cs, 0xE7, sizeof g_cs);
    for (int s = 0; s < secs; s++) { g_sec[s] = Sec(); ZyanStatus r = ZyanCriticalSectionInitialize(&g_cs[s]); CHECK(r == ZYAN_STATUS_SUCCESS, "initialization: %s", st_name(r)); }
    std::vector<std::function<void()>> fs;
    for (int t = 0; t < n; t++) fs.push_back([&, t] { for (auto& o : pr[t]) step(t, o); for (int s = secs; s-- > 0;) while (g_sec[s].depth[t]) step(t, {LEAVE, s}); });
    sc::run(fs, bound, false);
    for (int s = 0; s < secs; s++) {
        ZyanBool e = ZyanCriticalSectionTryEnter(&g_cs[s]); CHECK(e, "section %d cannot be entered after all threads have left it", s);
        ZyanStatus r = ZyanCriticalSectionLeave(&g_cs[s]); CHECK(r == ZYAN_STATUS_SUCCESS, "leave: %s", st_name(r));
        r = ZyanCriticalSectionDelete(&g_cs[s]); CHECK(r == ZYAN_STATUS_SUCCESS, "deletion of a free section: %s", st_name(r));
    }
}
static void sections(const char* what, int threads, int len, int secs, int parts, int bound) {
    auto P = std::make_shared<std::vector<Prog>>(programs(len, secs));
    for (int p = 0; p < parts; p++) task(std::string(what) + ", part " + std::to_string(p), [=] {
        sc::on_access = onacc;
        dfs([&] { size_t lo = 0; std::vector<Prog> pr; for (int t = 0; t < threads; t++) { size_t i = lo + (size_t)choose((int)(P->size() - lo)); lo = i; pr.push_back((*P)[i]); } run_programs(pr, secs, bound); }, p, parts);
    });
}
static void c24(bool T) {
    sections("two threads, one section, four operations", 2, 4, 1, 8, -1);
    sections("two threads, one section, five operations", 2, 5, 1, 16, -1);
    sections("two threads, two sections, three operations", 2, 3, 2, 24, -1);
    sections("three threads, one section, two operations", 3, 2, 1, 8, -1);
    sections("three threads, one section, three operations", 3, 3, 1, 16, T ? 4 : 2);
    if (T) { sections("two threads, two sections, four operations", 2, 4, 2, 32, 3); sections("two threads, one section, six operations", 2, 6, 1, 32, 4); sections("four threads, one section, two operations", 4, 2, 1, 16, 3); }
    task("deep recursion", [=] { // the section stays closed to others until the last leave
        sc::on_access = onacc; 
        dfs([&] {
            static const int DEP[] = {2, 3, 17, 255, 256, 257, 1000}; int d = DEP[choose(7)]; text("%d times ", d); g_nth = 2; g_sec[0] = Sec(); memset(g_cs, 0xE7, sizeof g_cs); CHECK(ZyanCriticalSectionInitialize(&g_cs[0]) == ZYAN_STATUS_SUCCESS, "initialization");
            bool held = false, done = false;
            sc::run({[&] { for (int i = 0; i < d; i++) { bool e = i & 1 ? (bool)ZyanCriticalSectionTryEnter(&g_cs[0]) : ZyanCriticalSectionEnter(&g_cs[0]) == ZYAN_STATUS_SUCCESS; CHECK(e, "entry number %d failed", i); held = true; } for (int i = 0; i < d; i++) { if (i == d - 1) held = false; ZyanStatus r = ZyanCriticalSectionLeave(&g_cs[0]); CHECK(r == ZYAN_STATUS_SUCCESS, "leave number %d: %s", i, st_name(r)); } done = true; },
                     [&] { for (int i = 0; i < 2; i++) { bool h0 = held, d0 = done; ZyanBool r = ZyanCriticalSectionTryEnter(&g_cs[0]); CHECK(!(r && h0 && held), "entered a section that another thread owns"); CHECK(r || !d0, "a released section cannot be entered"); if (r) CHECK(ZyanCriticalSectionLeave(&g_cs[0]) == ZYAN_STATUS_SUCCESS, "leave"); } }}, 1, false);
            CHECK(ZyanCriticalSectionDelete(&g_cs[0]) == ZYAN_STATUS_SUCCESS, "deletion");
        });
    });
    task("refused by the system", [=] {
        sc_w::refuse = refuser; ZyanCriticalSection c; uint64_t n = 0;
        for (const char* w : {"mutexattr", "mutex"}) for (int e : {ENOMEM, EAGAIN, EPERM, EINVAL, EBUSY, ENOSYS}) { g_where = w; g_code = e; text_reset(); text("%s refused with %d ", w, e); beat(); n++; ZyanStatus r = ZyanCriticalSectionInitialize(&c); CHECK(!ZYAN_SUCCESS(r), "initialization succeeded although the system refused it"); E().sh->faults++; }
        g_where = nullptr; text_reset(); text("not refused "); ZyanStatus r = ZyanCriticalSectionInitialize(&c); CHECK(r == ZYAN_STATUS_SUCCESS, "initialization: %s", st_name(r)); CHECK(ZyanCriticalSectionDelete(&c) == ZYAN_STATUS_SUCCESS, "deletion"); sc_w::refuse = nullptr; count(0, n, 1);
    });
    task("entry and leave refused by the system", [=] { // a refused request has no effect and is not reported as a success
        sc::on_access = onacc;
        dfs([&] {
            static const int ERR[] = {EINVAL, EAGAIN, EPERM, EDEADLK, ENOTRECOVERABLE, ENOMEM};
            int op = choose(3), depth = choose(3), e = ERR[choose(6)], nth = choose(3); static const char* const N[] = {"enter", "try-enter", "leave"};
            text("%s at depth %d, request %d of the system refused with %d ", N[op], depth, nth, e); g_nth = 2; g_sec[0] = Sec(); memset(g_cs, 0xE7, sizeof g_cs); CHECK(ZyanCriticalSectionInitialize(&g_cs[0]) == ZYAN_STATUS_SUCCESS, "initialization");
            for (int i = 0; i < depth; i++) CHECK(ZyanCriticalSectionEnter(&g_cs[0]) == ZYAN_STATUS_SUCCESS, "entry number %d", i);
            if (op == 2 && !depth) { CHECK(ZyanCriticalSectionDelete(&g_cs[0]) == ZYAN_STATUS_SUCCESS, "deletion"); return; }
            refuse_once(op == 2 ? "unlock" : "lock", e, nth);
            bool ok = op == 0 ? ZYAN_SUCCESS(ZyanCriticalSectionEnter(&g_cs[0])) : op == 1 ? (bool)ZyanCriticalSectionTryEnter(&g_cs[0]) : ZYAN_SUCCESS(ZyanCriticalSectionLeave(&g_cs[0]));
            int hits = g_hits; refuse_off(); if (hits) E().sh->faults++; CHECK(ok || hits, "%s failed", N[op]);
            if (ok) depth += op == 2 ? -1 : 1;
            for (;; depth--) { // as often as it was entered, the section has to be left
                bool got = false; sc::run({[&] { got = ZyanCriticalSectionTryEnter(&g_cs[0]); if (got) CHECK(ZyanCriticalSectionLeave(&g_cs[0]) == ZYAN_STATUS_SUCCESS, "leave"); }}, 0, false);
                CHECK(got == !depth, "the section was %s; now it is entered %d times, but another thread %s enter", ok ? "reported as entered or left" : "not entered or left", depth, got ? "can" : "can not");
                if (!depth) break;
                CHECK(ZyanCriticalSectionLeave(&g_cs[0]) == ZYAN_STATUS_SUCCESS, "leave");
            }
            CHECK(ZyanCriticalSectionDelete(&g_cs[0]) == ZYAN_STATUS_SUCCESS, "deletion");
        });
    });
}

// ---- C25 ---------------------------------------------------------------------------------------
enum { SET, NUL, GET, FREE, ALLOC, ID };
static const int NS = 3;
struct TSlot { bool used = false, moving = false, dtor = true; int busy = 0; ZyanThreadTlsIndex ix = 0; };
struct Dead { int slot, thread; void* v; };
static TSlot g_slot[NS]; static void* g_val[8][NS]; static uint64_t g_vals; static std::vector<Dead> g_dead;
static void dead(int s, void* v) { if (E().replaying) text("destroyed%d(%p) ", s, v); if (g_dead.size() < 64) g_dead.push_back({s, sc::me ? sc::me->id : -1, v}); }
ZYAN_THREAD_DECLARE_TLS_CALLBACK(dtor0, void, v) { dead(0, v); }
ZYAN_THREAD_DECLARE_TLS_CALLBACK(dtor1, void, v) { dead(1, v); }
ZYAN_THREAD_DECLARE_TLS_CALLBACK(dtor2, void, v) { dead(2, v); }
static const ZyanThreadTlsCallback DT[NS] = {dtor0, dtor1, dtor2};
static ZyanThreadId g_id[8]; static bool g_has[8], g_live[8];
static void alloc(int s) {
    TSlot& x = g_slot[s]; x.moving = true; ZyanStatus r = ZyanThreadTlsAlloc(&x.ix, x.dtor ? DT[s] : nullptr); x.moving = false;
    CHECK(r == ZYAN_STATUS_SUCCESS, "allocation of slot %d: %s", s, st_name(r));
    for (int i = 0; i < NS; i++) if (i != s && g_slot[i].used) CHECK(g_slot[i].ix != x.ix, "slots %d and %d are the same", i, s);
    x.used = true; for (auto& v : g_val) v[s] = nullptr;
}
static void get(int t, int s) {
    TSlot& x = g_slot[s]; x.busy++; void* p = (void*)0x77; ZyanStatus r = ZyanThreadTlsGetValue(x.ix, &p); x.busy--;
    CHECK(r == ZYAN_STATUS_SUCCESS, "thread %d, slot %d: read failed: %s", t, s, st_name(r));
    CHECK(p == g_val[t][s], "thread %d reads %p from slot %d, expected %p", t, p, s, g_val[t][s]);
}
static void ident(int t) {
    for (int i = 0; i < 2; i++) {
        ZyanThreadId id; memset(&id, 0xEE, sizeof id); ZyanThread th; memset(&th, 0xEE, sizeof th);
        CHECK(ZyanThreadGetCurrentThreadId(&id) == ZYAN_STATUS_SUCCESS && ZyanThreadGetCurrentThread(&th) == ZYAN_STATUS_SUCCESS, "thread identifier not available");
        CHECK(pthread_equal(th, pthread_self()), "the current thread is not the calling thread");
        if (g_has[t]) CHECK(g_id[t] == id, "the identifier of thread %d changed from %llx to %llx", t, (unsigned long long)g_id[t], (unsigned long long)id);
        g_id[t] = id; g_has[t] = true;
        for (int u = 0; u < g_nth; u++) if (u != t && g_live[u] && g_has[u]) CHECK(g_id[u] != id, "threads %d and %d have the same identifier %llx", u, t, (unsigned long long)id);
    }
}
static void tls_step(int t, const Op& o) {
    TSlot& x = g_slot[o.s]; bool tr = E().replaying;
    switch (o.k) {
    case SET: case NUL: { if (!x.used || x.moving) return; void* v = o.k == NUL ? nullptr : (void*)(uintptr_t)(0x1000 + (++g_vals) * 16 + (uint64_t)(o.s + 1));
        x.busy++; if (tr) text("%d:set%d=%p ", t, o.s, v); ZyanStatus r = ZyanThreadTlsSetValue(x.ix, v); x.busy--; CHECK(r == ZYAN_STATUS_SUCCESS, "thread %d, slot %d: store failed: %s", t, o.s, st_name(r)); g_val[t][o.s] = v; return; }
    case GET: if (!x.used || x.moving) return; if (tr) text("%d:get%d ", t, o.s); get(t, o.s); return;
    case FREE: { if (!x.used || x.moving || x.busy) return; x.moving = true; if (tr) text("%d:free%d ", t, o.s); ZyanStatus r = ZyanThreadTlsFree(x.ix); CHECK(r == ZYAN_STATUS_SUCCESS, "release of slot %d: %s", o.s, st_name(r)); x.used = false; x.moving = false; return; }
    case ALLOC: if (x.used || x.moving) return; if (tr) text("%d:alloc%d ", t, o.s); alloc(o.s); return;
    default: if (tr) text("%d:id ", t); ident(t);
    }
}
static const char* TN[] = {"set", "clear", "get", "free", "alloc", "id"};
static std::vector<void*> g_want; static int g_end;
static void tls(const char* what, int threads, int len, const std::vector<Op>& A, int parts, bool dt1, int bound) {
    auto al = std::make_shared<std::vector<Op>>(A);
    for (int p = 0; p < parts; p++) task(std::string(what) + ", part " + std::to_string(p), [=] {
        sc::on_access = onacc; int np = 1; for (int i = 0; i < len; i++) np *= (int)al->size();
        dfs([&] {
            int lo = 0; std::vector<Prog> pr((size_t)threads); g_nth = threads;
            for (int t = 0; t < threads; t++) { int q = lo + choose(np - lo); lo = q; text("thread %d: ", t); for (int i = 0; i < len; i++) { Op o = (*al)[(size_t)q % al->size()]; q /= (int)al->size(); pr[(size_t)t].push_back(o); text("%s%d ", TN[o.k], o.s); } }
            for (auto& x : g_slot) x = TSlot(); g_slot[1].dtor = dt1; memset(g_val, 0, sizeof g_val); g_vals = 0; g_dead.clear(); memset(g_has, 0, sizeof g_has); memset(g_live, 0, sizeof g_live);
            alloc(0); alloc(1);
            // expectations for a thread are fixed when it ends; destructors run before any other thread continues
            std::vector<std::vector<Dead>> want((size_t)threads); std::vector<Dead> maybe;
            std::vector<std::function<void()>> fs;
            for (int t = 0; t < threads; t++) fs.push_back([&, t] {
                g_live[t] = true;
                for (auto& o : pr[(size_t)t]) tls_step(t, o);
                sc::me->quiet = true; // the remaining checks happen at once
                for (int s = 0; s < NS; s++) if (g_slot[s].used && !g_slot[s].moving) get(t, s);
                ident(t); g_live[t] = false;
                for (int s = 0; s < NS; s++) if (g_slot[s].used && g_slot[s].dtor && g_val[t][s]) (g_slot[s].moving ? maybe : want[(size_t)t]).push_back({s, t, g_val[t][s]}); // maybe: is being released right now
            });
            sc::run(fs, bound, true);
            for (int t = 0; t < threads; t++) for (auto& w : want[(size_t)t]) { int k = 0; for (auto& d : g_dead) if (d.slot == w.slot && d.thread == t && d.v == w.v) k++; CHECK(k == 1, "the destructor of slot %d ran %d times for value %p of thread %d", w.slot, k, w.v, t); }
            size_t n = 0; for (auto& w : want) n += w.size();
            if (g_dead.size() != n) for (auto& d : g_dead) { bool ok = false; for (auto& w : want) for (auto& x : w) ok |= x.v == d.v && x.slot == d.slot && x.thread == d.thread; for (auto& x : maybe) ok |= x.v == d.v && x.slot == d.slot && x.thread == d.thread; CHECK(ok, "the destructor of slot %d ran in thread %d for value %p that was null, released or replaced", d.slot, d.thread, d.v); }
            size_t before = g_dead.size(); for (int s = 0; s < NS; s++) if (g_slot[s].used) { ZyanStatus r = ZyanThreadTlsFree(g_slot[s].ix); CHECK(r == ZYAN_STATUS_SUCCESS, "release of slot %d: %s", s, st_name(r)); } CHECK(g_dead.size() == before, "releasing a slot ran a destructor");
        }, p, parts);
    });
}
static void c25(bool T) {
    std::vector<Op> full, mid = {{SET, 0}, {NUL, 0}, {GET, 0}, {SET, 1}, {FREE, 0}, {ALLOC, 0}}, small = {{SET, 0}, {SET, 1}, {FREE, 0}, {ALLOC, 0}};
    for (int s = 0; s < NS; s++) for (int k = SET; k <= ALLOC; k++) full.push_back({k, s}); full.push_back({ID, 0});
    tls("two threads, two operations, all slots", 2, 2, full, 16, true, -1);
    tls("two threads, two operations, slot without destructor", 2, 2, {{SET, 0}, {SET, 1}, {NUL, 1}, {GET, 1}, {FREE, 1}, {ALLOC, 1}, {ID, 0}}, 4, false, -1);
    tls("two threads, three operations", 2, 3, mid, 24, true, -1);
    tls("three threads, one operation", 3, 1, full, 8, true, -1);
    tls("three threads, two operations", 3, 2, small, 16, true, -1);
    tls("two threads, four operations", 2, 4, {{SET, 0}, {FREE, 0}, {ALLOC, 0}}, 16, true, T ? -1 : 2);
    tls("one thread, six operations", 1, 6, {{SET, 0}, {NUL, 0}, {GET, 0}, {FREE, 0}, {ALLOC, 0}, {SET, 1}, {GET, 1}}, 16, true, -1);
    tls("two threads, set, get, free, alloc", 2, 4, {{SET, 0}, {GET, 0}, {FREE, 0}, {ALLOC, 0}}, 32, true, T ? 2 : 0);
    if (T) { tls("one thread, eight operations", 1, 8, {{SET, 0}, {GET, 0}, {FREE, 0}, {ALLOC, 0}, {SET, 1}, {GET, 1}}, 64, true, -1); tls("two threads, three operations, all slots", 2, 3, full, 64, true, 1); tls("two threads, four operations, two slots", 2, 4, small, 32, true, 3); tls("four threads, one operation", 4, 1, full, 32, true, -1); }
    task("many slots", [=] { // until the system has no more; every slot keeps its own value
        uint64_t n = 0; text("allocate all slots ");
        std::vector<ZyanThreadTlsIndex> v; for (;;) { beat(); n++; ZyanThreadTlsIndex i; memset(&i, 0xEE, sizeof i); ZyanStatus r = ZyanThreadTlsAlloc(&i, nullptr); if (!ZYAN_SUCCESS(r)) break; for (auto x : v) CHECK(x != i, "slot %zu was handed out twice", (size_t)i); v.push_back(i); CHECK(v.size() < 100000, "endless supply of slots"); }
        CHECK(v.size() > 8, "only %zu slots", v.size());
        for (int round = 0; round < 2; round++) { for (size_t i = 0; i < v.size(); i++) { n++; CHECK(ZyanThreadTlsSetValue(v[i], (void*)(0x1000 + i * 2 + (size_t)round)) == ZYAN_STATUS_SUCCESS, "store into slot number %zu", i); } for (size_t i = 0; i < v.size(); i++) { n++; void* p = nullptr; CHECK(ZyanThreadTlsGetValue(v[i], &p) == ZYAN_STATUS_SUCCESS && p == (void*)(0x1000 + i * 2 + (size_t)round), "slot number %zu reads %p", i, p); } }
        for (size_t i = 0; i < v.size(); i++) CHECK(ZyanThreadTlsFree(v[i]) == ZYAN_STATUS_SUCCESS, "release of slot number %zu", i);
        for (size_t i = 0; i < 10; i++) { ZyanThreadTlsIndex k; void* p = (void*)1; CHECK(ZyanThreadTlsAlloc(&k, nullptr) == ZYAN_STATUS_SUCCESS, "allocation after release"); CHECK(ZyanThreadTlsGetValue(k, &p) == ZYAN_STATUS_SUCCESS && !p, "a new slot reads %p", p); CHECK(ZyanThreadTlsFree(k) == ZYAN_STATUS_SUCCESS, "release"); }
        count(0, n, 1);
    });
    task("refused by the system", [=] {
        sc_w::refuse = refuser; uint64_t n = 0; for (int e : {EAGAIN, ENOMEM, EINVAL, EPERM, ENOSYS}) { g_where = "key"; g_code = e; text_reset(); text("refused with %d ", e); n++; ZyanThreadTlsIndex i = (ZyanThreadTlsIndex)12345; ZyanStatus r = ZyanThreadTlsAlloc(&i, nullptr); CHECK(!ZYAN_SUCCESS(r), "allocation succeeded although the system refused it"); E().sh->faults++; }
        g_where = nullptr; sc_w::refuse = nullptr; count(0, n, 1);
    });
    task("storing refused by the system", [=] { // a refused store is reported and changes nothing
        dfs([&] {
            static const int ERR[] = {ENOMEM, EINVAL, EAGAIN}; int e = ERR[choose(3)], nth = choose(2), before = choose(2), v = choose(2); text("store of %s after %s, request %d of the system refused with %d ", v ? "a value" : "null", before ? "a value" : "nothing", nth, e);
            ZyanThreadTlsIndex i; CHECK(ZyanThreadTlsAlloc(&i, nullptr) == ZYAN_STATUS_SUCCESS, "allocation"); void* want = nullptr;
            if (before) { want = (void*)0x10; CHECK(ZyanThreadTlsSetValue(i, want) == ZYAN_STATUS_SUCCESS, "store"); }
            refuse_once("store", e, nth); ZyanStatus r = ZyanThreadTlsSetValue(i, v ? (void*)0x20 : nullptr); int hits = g_hits; refuse_off(); if (hits) E().sh->faults++;
            CHECK(ZYAN_SUCCESS(r) || hits, "store: %s", st_name(r)); if (ZYAN_SUCCESS(r)) want = v ? (void*)0x20 : nullptr;
            void* p = (void*)1; CHECK(ZyanThreadTlsGetValue(i, &p) == ZYAN_STATUS_SUCCESS && p == want, "the store returned %s, then the slot reads %p instead of %p", st_name(r), p, want);
            CHECK(ZyanThreadTlsFree(i) == ZYAN_STATUS_SUCCESS, "release");
        });
    });
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] { bool T = E().thorough; (void)g_err; if (E().prop == "C24") c24(T); else c25(T); });
}
