// mc.hpp - small explicit-state / stateless model-checking engine that runs the real code.
//
//  * tasks are distributed over forked workers; every worker records the execution it is currently
//    running (choices + readable text) in shared memory, so that a crash, a sanitizer report, an
//    assertion or a hang of the code under test is attributed to one concrete execution;
//  * dfs():  re-executes a body under every sequence of choose() results (stateless exploration);
//  * bfs():  breadth-first closure of a System's reachable states, re-executing histories on the
//    real object, states identified by an opaque canonical image of the object graph;
//  * a violation is written to a replay file and re-executed before it is reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <algorithm>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace mc {

static const int MAXW = 64, MAXC = 1 << 15, MAXT = 1 << 16;

struct Slot {
    std::atomic<uint64_t> beat;
    std::atomic<int> patience; // > 0: seconds without a beat before this is a hang, instead of the engine's
    int task, failed, nchoices, mode; // mode: 1 choices recorded (dfs), 2 ops recorded (bfs), 0 loop
    int32_t choices[MAXC];
    char msg[4096];
    int tlen;
    char text[MAXT];
};
struct Shared {
    std::atomic<uint64_t> next, execs, states, trans, distinct, closed, open_, maxdepth, faults;
    std::atomic<int> nsamples;
    char samples[24][600];
    Slot slot[MAXW];
};

struct Task { std::string name; std::function<void()> fn; };

struct Engine {
    std::string prop = "?", tier = "quick", outdir = ".", replay, only;
    int jobs = 8, hang = 60;
    bool thorough = false, replaying = false, verbose = false;
    bool quiet = false; // re-executing a prefix that has been checked before
    bool throwing = false; // lockstep: a failed check is thrown, so that two executions can be compared
    bool mute = false;     // do not record text
    bool seal = false;     // objects and arguments live in pages that can be write-protected
    int fill = -1;         // what all memory holds that nothing has been written to (-1: a pattern of its own per place)
    std::vector<Task> tasks;
    std::vector<std::string> notes;
    std::string rule;
    Shared* sh = nullptr;
    Slot* s = nullptr;
    std::vector<int32_t> forced;
    int forced_mode = 0;
    int64_t replay_target = -1; // unused for loop tasks
};
inline Engine& E() { static Engine e; return e; }

inline int junk(int d) { return E().fill < 0 ? d : E().fill; }
inline void beat() { E().s->beat.fetch_add(1, std::memory_order_relaxed); }

// ---- current-execution recording -----------------------------------------------------------
inline void text_reset() { if (E().mute) return; E().s->tlen = 0; E().s->text[0] = 0; }
inline void text(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void text(const char* f, ...) {
    Slot* s = E().s;
    if (E().mute) return;
    int room = MAXT - s->tlen - 2;
    if (room <= 0) return;
    va_list a; va_start(a, f);
    int n = vsnprintf(s->text + s->tlen, room, f, a);
    va_end(a);
    if (n > 0) s->tlen += std::min(n, room - 1);
    s->text[s->tlen] = 0;
    if (E().verbose) { va_start(a, f); vfprintf(stderr, f, a); va_end(a); }
}
[[noreturn]] inline void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));
struct Failure { std::string msg; };
[[noreturn]] inline void fail(const char* f, ...) {
    Slot* s = E().s;
    va_list a; va_start(a, f);
    vsnprintf(s->msg, sizeof s->msg, f, a);
    va_end(a);
    if (E().throwing) throw Failure{s->msg};
    s->failed = 1;
    fflush(stdout);
    _exit(77);
}
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define CHECK(c, ...) do { if (!(c)) ::mc::fail(__VA_ARGS__); } while (0)

inline void sample(const char* t) {
    Shared* sh = E().sh;
    int i = sh->nsamples.fetch_add(1);
    if (i < 24) { snprintf(sh->samples[i], sizeof sh->samples[i], "%.590s", t); }
}
// record a sample for roughly the first few executions of a task and then at powers of 4
inline void maybe_sample(uint64_t k) {
    if (k == 0 || k == 100 || k == 1000 || k == 20000)
        if (E().sh->nsamples.load() < 24) sample(E().s->text);
}

// ---- stateless DFS over choices ------------------------------------------------------------
struct Dfs {
    struct P { int32_t c, n; };
    std::vector<P> st; size_t pos = 0; int shard = 0; uint64_t fresh = 0;
};
inline Dfs& D() { static Dfs d; return d; }
struct Abort {};   // thrown by a body to prune the current execution
struct NoShard {}; // this shard has no first choice
inline int choose(int n) {
    Dfs& d = D(); Engine& e = E();
    if (n <= 1) n = 1;
    int c;
    if (e.replaying) {
        c = d.pos < e.forced.size() ? e.forced[d.pos] : 0;
        if (c >= n) c = 0;
        d.pos++;
    } else {
        if (d.pos == d.st.size()) { int c0 = d.pos == 0 ? d.shard : 0; if (c0 >= n) throw NoShard(); d.st.push_back({c0, n}); d.fresh++; }
        if (d.st[d.pos].n != n) fail("internal: nondeterministic choice point (%d vs %d) at %zu", d.st[d.pos].n, n, d.pos);
        c = d.st[d.pos].c; d.pos++;
    }
    Slot* s = e.s;
    if (s->nchoices < MAXC) s->choices[s->nchoices++] = c;
    beat();
    return c;
}
inline void exec_begin() {
    Slot* s = E().s; s->nchoices = 0; s->tlen = 0; s->text[0] = 0; D().pos = 0; beat();
}
// Explores body under all choice sequences; with nsh > 1 only those whose first choice is
// congruent to sh modulo nsh (a task per sh covers everything).
inline uint64_t dfs(const std::function<void()>& body, int sh = 0, int nsh = 1, uint64_t limit = ~0ull) {
    Engine& e = E(); Dfs& d = D();
    e.s->mode = 1;
    if (e.replaying) { exec_begin(); try { body(); } catch (Abort&) {} return 1; }
    d.st.clear(); d.shard = sh; d.fresh = 0;
    uint64_t n = 0, trans = 0; size_t base = 0;
    for (;;) {
        exec_begin();
        try { body(); n++; trans += d.pos - std::min(d.pos, base); maybe_sample(n - 1); } catch (Abort&) {} catch (NoShard&) { break; }
        if (n >= limit) break;
        while (d.st.size() > d.pos) d.st.pop_back();
        while (!d.st.empty()) {
            int inc = d.st.size() == 1 ? nsh : 1;
            if (d.st.back().c + inc < d.st.back().n) { d.st.back().c += inc; base = d.st.size() - 1; break; }
            d.st.pop_back();
        }
        if (d.st.empty()) break;
    }
    e.sh->execs += n; e.sh->states += d.fresh + n; e.sh->trans += trans; // nodes and edges of the choice tree
    return n;
}

// ---- hashing -------------------------------------------------------------------------------
struct Hash {
    uint64_t a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
    void u64(uint64_t x) {
        a ^= x; a *= 0xff51afd7ed558ccdull; a ^= a >> 32;
        b += x * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29; b *= 0x9FB21C651E98DF25ull; b ^= b >> 31;
    }
    void bytes(const void* p, size_t n) {
        const uint8_t* q = (const uint8_t*)p;
        while (n >= 8) { uint64_t x; memcpy(&x, q, 8); u64(x); q += 8; n -= 8; }
        if (n) { uint64_t x = 0; memcpy(&x, q, n); u64(x ^ (0xABull << 56) ^ ((uint64_t)n << 48)); }
    }
    struct Key { uint64_t a, b; bool operator==(const Key& o) const { return a == o.a && b == o.b; } };
    Key key() const { return {a, b}; }
};
struct KeyH { size_t operator()(const Hash::Key& k) const { return k.a ^ (k.b * 31); } };

// ---- BFS closure over a system ---------------------------------------------------------------
struct System {
    virtual ~System() {}
    virtual int nops() = 0;
    virtual void reset() = 0;               // fresh object
    virtual int step(int op) = 0;           // 0: not applicable (nothing was run), 1: done, 2: done, but do not explore from here
    virtual void key(Hash& h) = 0;          // canonical image of the current state
    virtual void finish() = 0;              // destroy, final checks
    virtual void visit() {}                 // in every distinct state
};
struct BfsResult { uint64_t states = 0, trans = 0; bool closed = false; int depth = 0; };
inline BfsResult bfs(System& y, int maxdepth, uint64_t maxstates = ~0ull) {
    Engine& e = E(); Slot* s = e.s; s->mode = 2;
    BfsResult r;
    auto run_path = [&](const std::vector<int32_t>& p) {
        s->nchoices = 0; text_reset(); beat();
        e.quiet = !p.empty();
        y.reset();
        for (int32_t o : p) { if (s->nchoices < MAXC) s->choices[s->nchoices++] = o; if (!y.step(o)) fail("internal: replayed operation %d not applicable", o); }
        e.quiet = false;
    };
    if (e.replaying) {
        std::vector<int32_t> p = e.forced;
        s->nchoices = 0; text_reset(); y.reset(); y.visit();
        for (int32_t o : p) { s->choices[s->nchoices++] = o; if (!y.step(o)) break; y.visit(); }
        y.finish();
        return r;
    }
    struct Node { int64_t parent; int32_t op; int32_t depth; };
    std::vector<Node> nodes;
    std::unordered_set<Hash::Key, KeyH> seen;
    auto path = [&](int64_t n) { std::vector<int32_t> p; while (n > 0) { p.push_back(nodes[n].op); n = nodes[n].parent; } std::reverse(p.begin(), p.end()); return p; };
    run_path({});
    { Hash h; y.key(h); seen.insert(h.key()); }
    y.visit(); y.finish();
    nodes.push_back({-1, -1, 0});
    uint64_t execs = 1;
    size_t i = 0; bool truncated = false;
    int n = y.nops();
    for (; i < nodes.size(); i++) {
        if (nodes[i].depth >= maxdepth) { truncated = true; break; }
        if (nodes.size() > maxstates) { truncated = true; break; }
        std::vector<int32_t> p = path((int64_t)i);
        bool at = false;
        for (int op = 0; op < n; op++) {
            if (!at) { run_path(p); at = true; }
            s->nchoices = (int)p.size(); if (s->nchoices < MAXC) s->choices[s->nchoices++] = op;
            int tl = s->tlen;
            int k = y.step(op);
            if (!k) { s->tlen = tl; s->text[tl] = 0; continue; }
            r.trans++; execs++;
            if (k == 2) { y.finish(); at = false; continue; }
            Hash h; y.key(h);
            bool fresh = seen.insert(h.key()).second;
            if (fresh) { y.visit(); nodes.push_back({(int64_t)i, op, nodes[i].depth + 1}); r.depth = std::max(r.depth, nodes[i].depth + 1); }
            maybe_sample(execs - 2);
            y.finish();
            at = false;
        }
        if (at) y.finish();
    }
    r.states = nodes.size(); r.closed = !truncated;
    e.sh->execs += execs; e.sh->states += r.states; e.sh->trans += r.trans;
    if (r.closed) e.sh->closed++; else e.sh->open_++;
    uint64_t md = e.sh->maxdepth; while ((uint64_t)r.depth > md && !e.sh->maxdepth.compare_exchange_weak(md, r.depth)) {}
    return r;
}

// ---- task registration and main --------------------------------------------------------------
inline void task(const std::string& name, std::function<void()> fn) { E().tasks.push_back({name, fn}); }
inline void count(uint64_t states, uint64_t trans, uint64_t execs = 0) { E().sh->states += states; E().sh->trans += trans; E().sh->execs += execs; }
// distinct results observed by the current task: the states of explorers that enumerate calls of functions without an object
inline std::unordered_set<Hash::Key, KeyH>& outcomes() { static std::unordered_set<Hash::Key, KeyH> s; return s; }
inline void outcome(uint64_t a, uint64_t b = 0) { Hash h; h.u64(a); h.u64(b); outcomes().insert(h.key()); }
inline void count_outcomes(uint64_t trans, uint64_t execs) { count(outcomes().size(), trans, execs); outcomes().clear(); }
inline void note(const std::string& n) { E().notes.push_back(n); }

inline std::string jesc(const char* p) {
    std::string o;
    for (; *p; p++) { unsigned char c = *p; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
inline std::string slurp_tail(const std::string& f, size_t n) {
    FILE* fp = fopen(f.c_str(), "r"); if (!fp) return "";
    std::string s; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, fp)) > 0) s.append(b, k); fclose(fp);
    return s.size() > n ? s.substr(0, n) : s;
}
inline std::string crash_summary(const std::string& log) {
    std::string o;
    const char* keys[] = {"ERROR: AddressSanitizer", "SUMMARY:", "Assertion", "runtime error"};
    for (auto k : keys) { size_t p = log.find(k); if (p != std::string::npos) { size_t q = log.find('\n', p); o += log.substr(p, std::min<size_t>(q == std::string::npos ? 200 : q - p, 300)) + "; "; } }
    return o;
}
inline void worker_redirect(const std::string& f) {
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// runs one replay in a child; returns true if it fails again
inline bool rerun(int ti, int mode, const std::vector<int32_t>& ch, std::string& what) {
    Engine& e = E();
    Slot* s = &e.sh->slot[MAXW - 1];
    s->failed = 0; s->msg[0] = 0; s->tlen = 0; s->nchoices = 0; s->task = ti; s->mode = 0;
    std::string lf = e.outdir + "/replay.log";
    pid_t p = fork();
    if (p == 0) {
        if (!e.verbose) worker_redirect(lf);
        e.s = s; e.replaying = mode != 0; e.forced = ch; e.forced_mode = mode;
        e.tasks[ti].fn();
        _exit(0);
    }
    uint64_t lb = s->beat; double lt = now(); int st;
    for (;;) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if (s->beat != lb) { lb = s->beat; lt = now(); }
        if (now() - lt > (s->patience > 0 ? s->patience.load() : e.hang)) { kill(p, SIGKILL); waitpid(p, &st, 0); what = "no progress (hang) during this execution"; return true; }
        usleep(2000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (s->failed) { what = s->msg; return true; }
    std::string log = slurp_tail(lf, 1 << 20);
    what = crash_summary(log);
    if (what.empty()) { char b[100]; snprintf(b, 100, "terminated abnormally (status 0x%x)", st); what = b; }
    return true;
}

inline int main_(int argc, char** argv, std::function<void()> setup) {
    Engine& e = E();
    if (const char* t = getenv("VERIF_TIER")) e.tier = t;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") e.prop = nx();
        else if (a == "--tier") e.tier = nx();
        else if (a == "--outdir") e.outdir = nx();
        else if (a == "--jobs") e.jobs = atoi(nx().c_str());
        else if (a == "--replay") e.replay = nx();
        else if (a == "--only") e.only = nx();
        else if (a == "--fill") e.fill = (int)strtol(nx().c_str(), nullptr, 16);
        else if (a == "--seal") e.seal = true;
        else if (a == "--verbose") e.verbose = true;
    }
    e.thorough = e.tier == "thorough";
    e.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (e.sh == MAP_FAILED) { perror("mmap"); return 2; }
    e.s = &e.sh->slot[0];
    setup();
    if (!e.only.empty()) {
        std::vector<Task> t; for (auto& x : e.tasks) { // alternatives separated by |
            bool in = false; for (size_t b = 0; b <= e.only.size() && !in;) { size_t q = std::min(e.only.find('|', b), e.only.size()); in = x.name.find(e.only.substr(b, q - b)) != std::string::npos; b = q + 1; }
            if (in) t.push_back(x);
        }
        e.tasks = t;
    }
    if (!e.replay.empty()) {
        FILE* f = fopen(e.replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
        char line[65536]; std::string tn; int mode = 0; std::vector<int32_t> ch;
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "task: ", 6)) { tn = line + 6; while (!tn.empty() && tn.back() == '\n') tn.pop_back(); }
            if (!strncmp(line, "mode: ", 6)) mode = atoi(line + 6);
            if (!strncmp(line, "choices:", 8)) { char* p = line + 8; int v, n; while (sscanf(p, " %d%n", &v, &n) == 1) { ch.push_back(v); p += n; } }
        }
        fclose(f);
        for (size_t i = 0; i < e.tasks.size(); i++) if (e.tasks[i].name == tn) {
            std::string w; bool b = rerun((int)i, mode, ch, w);
            Slot* s = &e.sh->slot[MAXW - 1];
            printf("execution: %s\n%s %s\n", s->text, b ? "REPRODUCED:" : "not reproduced", w.c_str());
            return b ? 1 : 0;
        }
        fprintf(stderr, "task not found: %s\n", tn.c_str()); return 2;
    }
    double t0 = now();
    int W = std::min<int>(e.jobs, std::min<int>((int)e.tasks.size(), MAXW - 1));
    std::vector<pid_t> pid(W, 0);
    std::vector<int> retried(e.tasks.size(), 0);
    auto spawn = [&](int w, int first) {
        fflush(stdout); fflush(stderr);
        e.sh->slot[w].failed = 0; e.sh->slot[w].task = -1;
        pid_t p = fork();
        if (p == 0) {
            e.s = &e.sh->slot[w];
            if (!e.verbose) worker_redirect(e.outdir + "/worker." + std::to_string(w) + ".log");
            if (first >= 0) { e.s->task = first; text_reset(); e.s->nchoices = 0; e.s->mode = 0; e.tasks[first].fn(); }
            for (;;) {
                uint64_t t = e.sh->next.fetch_add(1);
                if (t >= e.tasks.size()) _exit(0);
                e.s->task = (int)t; text_reset(); e.s->nchoices = 0; e.s->mode = 0; beat();
                double a = now();
                e.tasks[t].fn();
                if (getenv("MC_TIMES")) { FILE* f = fopen((e.outdir + "/times").c_str(), "a"); if (f) { fprintf(f, "%.2f %s\n", now() - a, e.tasks[t].name.c_str()); fclose(f); } }
            }
        }
        pid[w] = p;
    };
    for (int w = 0; w < W; w++) spawn(w, -1);
    std::vector<uint64_t> lb(W, 0); std::vector<double> lt(W, now());
    int alive = W; bool viol = false;
    struct V { int task, mode; std::vector<int32_t> ch; std::string msg, text; };
    std::vector<V> vs; int infra = 0;
    auto collect = [&](int w, int st, bool hung) {
        Slot* s = &e.sh->slot[w];
        V v; v.task = s->task; v.mode = s->mode; v.ch.assign(s->choices, s->choices + s->nchoices); s->text[MAXT - 1] = 0; v.text = s->text;
        if (s->failed) v.msg = s->msg;
        else if (hung) v.msg = "no progress (hang) during this execution";
        else {
            v.msg = crash_summary(slurp_tail(e.outdir + "/worker." + std::to_string(w) + ".log", 1 << 20));
            if (v.msg.empty()) { char b[100]; snprintf(b, 100, "terminated abnormally (wait status 0x%x)", st); v.msg = b; }
        }
        vs.push_back(v);
    };
    while (alive > 0 && !viol) {
        int st; pid_t q = waitpid(-1, &st, WNOHANG);
        if (q > 0) {
            for (int w = 0; w < W; w++) if (pid[w] == q) {
                pid[w] = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; break; }
                int t = e.sh->slot[w].task;
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && t >= 0 && retried[t]++ < 2) { fprintf(stderr, "worker killed from outside, retrying task %s\n", e.tasks[t].name.c_str()); spawn(w, t); break; }
                if (t < 0) { infra = 1; alive--; break; }
                collect(w, st, false); viol = true; alive--;
            }
            continue;
        }
        for (int w = 0; w < W; w++) if (pid[w]) {
            uint64_t b = e.sh->slot[w].beat;
            if (b != lb[w]) { lb[w] = b; lt[w] = now(); }
            else if (now() - lt[w] > (e.sh->slot[w].patience > 0 ? e.sh->slot[w].patience.load() : e.hang)) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; collect(w, 0, true); viol = true; alive--; }
        }
        usleep(2000);
    }
    for (int w = 0; w < W; w++) if (pid[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
    int rc = 0; std::string rf;
    auto hangs = [](const V& v) { return v.msg.compare(0, 11, "no progress") == 0; };
    std::stable_sort(vs.begin(), vs.end(), [&](const V& a, const V& b) { return hangs(a) < hangs(b); });
    for (auto& v : vs) {
        if (rc) break; // one confirmed violation is enough
        std::string w2; bool again = rerun(v.task, v.mode, v.ch, w2);
        if (!again && v.mode) { again = rerun(v.task, 0, {}, w2); if (again) v.mode = 0; }
        if (v.text.empty()) v.text = e.sh->slot[MAXW - 1].text; // described only when replayed
        rf = e.outdir + "/violation.txt";
        FILE* f = fopen(rf.c_str(), "w");
        if (f) {
            fprintf(f, "property: %s\ntask: %s\nmode: %d\nchoices:", e.prop.c_str(), e.tasks[v.task].name.c_str(), v.mode);
            for (auto c : v.ch) fprintf(f, " %d", c);
            fprintf(f, "\nexecution: %s\nfinding: %s\nreplayed: %s\n", v.text.c_str(), v.msg.c_str(), again ? "yes" : "no");
            fclose(f);
        }
        fprintf(stderr, "task %s\nexecution: %.1500s\nfinding: %s\nreplay: %s\n", e.tasks[v.task].name.c_str(), v.text.c_str(), v.msg.c_str(), again ? "reproduced" : "NOT reproduced");
        if (again) rc = 1; else infra = 1;
    }
    if (rc == 0 && infra) rc = 2;
    std::string of = e.outdir + "/result.json";
    FILE* f = fopen(of.c_str(), "w");
    if (f) {
        fprintf(f, "{\"execs\":%llu,\"states\":%llu,\"trans\":%llu,\"distinct\":%llu,\"faults\":%llu,\"closed\":%llu,\"open\":%llu,\"maxdepth\":%llu,\"tasks\":%zu,\"wall\":%.2f,\"rc\":%d,\"samples\":[",
            (unsigned long long)e.sh->execs, (unsigned long long)e.sh->states, (unsigned long long)e.sh->trans, (unsigned long long)e.sh->distinct, (unsigned long long)e.sh->faults,
            (unsigned long long)e.sh->closed, (unsigned long long)e.sh->open_, (unsigned long long)e.sh->maxdepth, e.tasks.size(), now() - t0, rc);
        int ns = std::min<int>(24, e.sh->nsamples);
        for (int i = 0; i < ns; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(e.sh->samples[i]).c_str());
        fprintf(f, "],\"rule\":\"%s\",\"notes\":[", jesc(e.rule.c_str()).c_str());
        for (size_t i = 0; i < e.notes.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(e.notes[i].c_str()).c_str());
        fprintf(f, "]}\n"); fclose(f);
    }
    return rc;
}
} // namespace mc
