// Explorer for page protection and release (C26) and for terminal detection (C31).
#include "zy.hpp"
#include <setjmp.h>
#include <stdio.h>
extern "C" { // these headers have no linkage specification of their own
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
#include <Zycore/API/Terminal.h>
}
#include <pty.h>
#include <stdio_ext.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <memory>
using namespace mc;

// ---- C26: all reachable protection states of a few pages ---------------------------------------
static const size_t PS = 4096;
static sigjmp_buf jb; static volatile int in_probe;
static void on_fault(int sig) { if (!in_probe) { signal(sig, SIG_DFL); raise(sig); return; } siglongjmp(jb, 1); }
__attribute__((no_sanitize("address"), noinline)) static bool probe(int kind, volatile uint8_t* p, uint32_t want) {
    in_probe = 1;
    if (sigsetjmp(jb, 1)) { in_probe = 0; return false; }
    if (kind == 0) { if (p[1] != (uint8_t)want) { in_probe = 0; fail("the contents of page changed: byte 0x%02x, expected 0x%02x", p[1], (uint8_t)want); } }
    else if (kind == 1) p[1] = (uint8_t)want;
    else { uint32_t r = ((uint32_t(*)())p)(); if (r != want) { in_probe = 0; fail("code in an executable page returned 0x%x, expected 0x%x", r, want); } }
    in_probe = 0; return true;
}
struct Pages : System {
    int P, kind; bool flush_only_mapped; // P pages under test, one page before and one behind that nothing may touch
    uint8_t* base = (uint8_t*)0x300000000000ull; int fd = -1;
    std::vector<int> m; // protection of every page, -1: unmapped
    std::vector<uint8_t> content; int depth = 0;
    struct Op { int what; long off; size_t size; int prot; };
    std::vector<Op> ops;
    Pages(int p, int k) : P(p), kind(k) {
        static const int pr[] = {ZYAN_PAGE_READONLY, ZYAN_PAGE_READWRITE, ZYAN_PAGE_EXECUTE, ZYAN_PAGE_EXECUTE_READ, ZYAN_PAGE_EXECUTE_READWRITE};
        for (int a = 0; a < P; a++) for (int n = 1; n <= P - a; n++) for (size_t cut : {(size_t)0, (size_t)(n & 1 ? PS - 1 : 1)}) {
            for (int x : pr) ops.push_back({0, (long)(a * PS), n * PS - cut, x});
            ops.push_back({1, (long)(a * PS), n * PS - cut, 0});
            if (cut) { ops.push_back({2, (long)(a * PS), n * PS - cut, 0}); ops.push_back({2, (long)(a * PS) + 17, n * PS - cut > 20 ? n * PS - cut - 17 : 1, 0}); }
        }
        for (int x : pr) for (int a = 0; a < P; a++) { // refused requests
            for (long d : {1L, 16L, (long)PS - 1}) ops.push_back({0, (long)(a * PS) + d, PS, x});
            ops.push_back({0, (long)(a * PS), ~(size_t)0, x}); ops.push_back({0, (long)(a * PS), ~(size_t)0 - PS, x}); ops.push_back({0, (long)(a * PS), 0, x});
        }
        for (int a = 0; a < P; a++) {
            ops.push_back({1, (long)(a * PS) + 8, PS, 0}); ops.push_back({1, (long)(a * PS) + 8, PS - 8, 0}); ops.push_back({1, (long)(a * PS), 0, 0}); ops.push_back({1, (long)(a * PS), ~(size_t)0, 0});
            ops.push_back({0, (long)(a * PS), PS, 0x40}); ops.push_back({0, (long)(a * PS), PS, PROT_READ | 0x100}); ops.push_back({2, (long)(a * PS), ~(size_t)0, 0});
        }
        size_t total = (P + 2) * PS; content.resize(total);
        for (size_t i = 0; i < total; i++) content[i] = (uint8_t)(i * 7 + i / PS * 31 + 3);
        for (int i = 0; i < P + 2; i++) { uint32_t v = value(i); content[i * PS] = 0xB8; memcpy(&content[i * PS + 1], &v, 4); content[i * PS + 5] = 0xC3; }
    }
    static uint32_t value(int i) { return 0x51424300u + 0x11u * (unsigned)i; }
    int nops() override { return (int)ops.size(); }
    uint8_t* start() { return base + PS; }
    void reset() override {
        size_t total = (P + 2) * PS; 
        static bool sig = false; if (!sig) { sig = true; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_fault; sa.sa_flags = SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); }
        if (kind >= 2 && fd < 0) { char t[] = "/tmp/zyv_pages_XXXXXX"; int w = mkstemp(t); if (w < 0 || write(w, content.data(), total) != (ssize_t)total) fail("internal: temporary file"); fd = kind == 3 ? open(t, O_RDONLY) : w; if (kind == 3) close(w); unlink(t); }
        int fl = kind == 1 ? MAP_SHARED | MAP_ANONYMOUS : kind == 0 ? MAP_PRIVATE | MAP_ANONYMOUS : kind == 2 ? MAP_PRIVATE : MAP_SHARED;
        int init = kind == 3 ? PROT_READ : PROT_READ | PROT_WRITE;
        void* p = mmap(base, total, init, fl | MAP_FIXED, kind >= 2 ? fd : -1, 0); if (p != base) fail("internal: mmap %d", errno);
        if (kind < 2) memcpy(base, content.data(), total);
        m.assign(P + 2, init); depth = 0;
    }
    bool mapped(int i) { unsigned char v; return mincore(base + i * PS, PS, &v) == 0; }
    void page(int i, int prot) {
        uint8_t* p = base + i * PS; bool r, w, x;
        if (prot < 0) { if (mapped(i)) fail("page %d is still mapped after its release", i - 1); return; }
        if (!mapped(i)) fail("page %d was unmapped although it was not released", i - 1);
        r = probe(0, p, value(i) & 0xFF); w = probe(1, p, value(i) & 0xFF); x = probe(2, p, value(i));
        bool wr = prot & PROT_READ, ww = prot & PROT_WRITE, wx = prot & PROT_EXEC;
        if (prot == PROT_EXEC) wr = r; // not every processor can make code unreadable
        if (r != wr || w != ww || x != wx) fail("page %d permits %s%s%s, expected %s%s%s", i - 1, r ? "r" : "-", w ? "w" : "-", x ? "x" : "-", wr ? "r" : "-", ww ? "w" : "-", wx ? "x" : "-");
    }
    void verify() { for (int i = 0; i < P + 2; i++) page(i, m[i]); }
    int step(int k) override {
        Op o = ops[k]; uint8_t* a = start() + o.off; ZyanStatus s; std::vector<int> w = m;
        size_t lo = o.off / PS + 1, n = (o.off % PS + (o.size > (size_t)1 << 40 ? 0 : o.size) + PS - 1) / PS; bool huge = o.size > (size_t)1 << 40, unal = o.off % PS;
        bool hole = false; for (size_t i = 0; i < n; i++) if (lo + i >= w.size() || w[lo + i] < 0) hole = true;
        if (o.what != 2 && unal && lo + n >= w.size() + 1) return 0;
        text("%s(page %ld%+ld, %zu%s", o.what == 0 ? "protect" : o.what == 1 ? "release" : "flush", o.off / (long)PS, o.off % (long)PS, o.size, o.what == 0 ? ", " : ""); if (o.what == 0) text("0x%x", o.prot); text(") ");
        int rc = 1;
        if (o.what == 0) {
            s = ZyanMemoryVirtualProtect(a, o.size, (ZyanMemoryPageProtection)o.prot);
            bool bad = unal || huge || (o.prot & ~7) || hole || (kind == 3 && (o.prot & PROT_WRITE) && n);
            if (o.size == 0) { if (!unal) s = ZYAN_STATUS_SUCCESS; } // either way, nothing changes
            else if (bad) {
                if (!ZYAN_FAILED(s)) fail("a protection change that the system refuses was reported as successful (%s)", st_name(s));
                if (hole && !unal && !huge && !(o.prot & ~7)) { // the system may have changed the pages in front of the hole
                    for (size_t i = lo; i < w.size() && w[i] >= 0 && i < lo + n; i++) { m[i] = -2; }
                    rc = 2;
                }
            } else { if (s != ZYAN_STATUS_SUCCESS) fail("a valid protection change failed: %s", st_name(s)); for (size_t i = 0; i < n; i++) m[lo + i] = o.prot; }
        } else if (o.what == 1) {
            s = ZyanMemoryVirtualFree(a, o.size);
            if (unal || huge || o.size == 0) { if (!ZYAN_FAILED(s)) fail("a release that the system refuses was reported as successful (%s)", st_name(s)); }
            else { if (s != ZYAN_STATUS_SUCCESS) fail("a valid release failed: %s", st_name(s)); for (size_t i = 0; i < n; i++) m[lo + i] = -1; }
        } else {
            s = ZyanProcessFlushInstructionCache(a, o.size);
            if (!hole && !huge && s != ZYAN_STATUS_SUCCESS) fail("flushing the instruction cache of mapped memory failed: %s", st_name(s));
            if (hole && !huge && !ZYAN_FAILED(s)) fail("flushing the instruction cache of memory that is not mapped was reported as successful (%s)", st_name(s));
        }
        text("%s ", st_name(s));
        if (E().quiet) return rc;
        for (int i = 0; i < P + 2; i++) if (m[i] != -2) page(i, m[i]); else if (!mapped(i)) fail("page %d was unmapped by a protection change", i - 1);
        // contents, including pages that are not readable now
        for (int i = 0; i < P + 2; i++) if (m[i] != -1) {
            if (mprotect(base + i * PS, PS, PROT_READ)) fail("internal: mprotect"); int c = memcmp(base + i * PS, &content[i * PS], PS);
            if (c) fail("the contents of page %d changed", i - 1);
        }
        return rc;
    }
    void key(Hash& h) override { for (int x : m) h.u64((uint64_t)x); }
    void finish() override {}
};

// ---- C31: every combination of kinds of standard streams ---------------------------------------
enum Kind { TTY, PIPE, FILE_, NUL, SOCK, CLOSED, TTYM, DIR_, NK };
static const char* KN[] = {"terminal", "pipe", "file", "/dev/null", "socket", "closed", "terminal master", "directory"};
static void terminal(int k0, int k1, int k2, int depth) {
    int kd[3] = {k0, k1, k2}; text_reset(); text("stdin %s, stdout %s, stderr %s: ", KN[k0], KN[k1], KN[k2]); E().s->mode = 0;
    pid_t pid = fork();
    if (pid == 0) {
        int fds[3] = {-1, -1, -1}, other[3] = {-1, -1, -1};
        for (int i = 0; i < 3; i++) { // all helper descriptors above 2
            int a[2] = {-1, -1};
            switch (kd[i]) {
            case TTY: if (openpty(&a[1], &a[0], nullptr, nullptr, nullptr)) fail("internal: openpty %d", errno); { struct termios t; tcgetattr(a[0], &t); cfmakeraw(&t); tcsetattr(a[0], TCSANOW, &t); } break;
            case TTYM: if (openpty(&a[0], &a[1], nullptr, nullptr, nullptr)) fail("internal: openpty %d", errno); { struct termios t; tcgetattr(a[1], &t); cfmakeraw(&t); tcsetattr(a[1], TCSANOW, &t); } break;
            case PIPE: if (pipe(i == 0 ? a : a)) fail("internal: pipe"); if (i) std::swap(a[0], a[1]); if (i == 0 && write(a[1], "data", 4) != 4) fail("internal: write"); break;
            case FILE_: { char t[] = "/tmp/zyv_term_XXXXXX"; a[0] = mkstemp(t); unlink(t); if (a[0] < 0 || write(a[0], "0123456789", 10) != 10) fail("internal: file"); lseek(a[0], 3, SEEK_SET); break; }
            case NUL: a[0] = open("/dev/null", O_RDWR); break;
            case SOCK: if (socketpair(AF_UNIX, SOCK_STREAM, 0, a)) fail("internal: socketpair"); break;
            case DIR_: a[0] = open("/tmp", O_RDONLY); break;
            }
            if (a[0] >= 0) { fds[i] = fcntl(a[0], F_DUPFD, 50); close(a[0]); } if (a[1] >= 0) { other[i] = fcntl(a[1], F_DUPFD, 50); close(a[1]); fcntl(other[i], F_SETFL, fcntl(other[i], F_GETFL) | O_NONBLOCK); }
        }
        for (int i = 0; i < 3; i++) { if (fds[i] >= 0) dup2(fds[i], i); else close(i); }
        setvbuf(stdout, nullptr, _IOFBF, 4096); fputs("pending", stdout);
        int cur[3], alt[NK]; memcpy(cur, kd, sizeof cur); memset(alt, -1, sizeof alt); // what the streams are now; other things they can be redirected to
        { int a, b; if (openpty(&a, &b, nullptr, nullptr, nullptr)) fail("internal: openpty %d", errno); struct termios t; tcgetattr(b, &t); cfmakeraw(&t); tcsetattr(b, TCSANOW, &t); alt[TTY] = fcntl(b, F_DUPFD, 50); fcntl(a, F_DUPFD, 50); close(a); close(b); a = open("/dev/null", O_RDWR); alt[NUL] = fcntl(a, F_DUPFD, 50); close(a); char n[] = "/tmp/zyv_term_XXXXXX"; a = mkstemp(n); unlink(n); alt[FILE_] = fcntl(a, F_DUPFD, 50); close(a); }
        for (int i = 0; i < 3; i++) if (fds[i] >= 0) dup2(fds[i], i); else close(i); // opening took the places of closed streams
        auto redirect = [&](int i, int k) { if (k == CLOSED) close(i); else dup2(alt[k], i); cur[i] = k; };
        auto restore = [&]() { for (int i = 0; i < 3; i++) if (cur[i] != kd[i]) { if (fds[i] >= 0) dup2(fds[i], i); else close(i); cur[i] = kd[i]; } };
        struct Look { struct stat st[3]; int fl[3], fdfl[3], avail[3], oavail[3]; off_t pos[3]; struct termios t[3]; size_t pend; };
        auto look = [&]() { auto l = std::make_unique<Look>(); memset(l.get(), 0, sizeof(Look)); for (int i = 0; i < 3; i++) { l->fdfl[i] = fcntl(i, F_GETFD); if (cur[i] == CLOSED) continue; fstat(i, &l->st[i]); l->fl[i] = fcntl(i, F_GETFL); l->pos[i] = lseek(i, 0, SEEK_CUR); ioctl(i, FIONREAD, &l->avail[i]); if (other[i] >= 0) ioctl(other[i], FIONREAD, &l->oavail[i]); tcgetattr(i, &l->t[i]); } l->pend = __fpending(stdout); return l; };
        auto before = look();
        auto call = [&](int op, int e0) {
            errno = e0;
            if (op < 3) {
                ZyanStatus s = ZyanTerminalIsTTY((ZyanStandardStream)op), w = cur[op] == CLOSED ? ZYAN_STATUS_INVALID_ARGUMENT : cur[op] == TTY || cur[op] == TTYM ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE;
                text("query %d with errno %d: %s ", op, e0, st_name(s)); CHECK(s == w, "terminal query of stream %d (%s): %s, expected %s", op, KN[cur[op]], st_name(s), st_name(w));
            } else {
                static const int SV[] = {0, 1, 2, 3, -1}; int v = SV[op - 3]; ZyanStatus s = ZyanTerminalEnableVT100((ZyanStandardStream)v), w = v == 1 || v == 2 ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_ARGUMENT;
                text("enable %d: %s ", v, st_name(s)); CHECK(s == w, "enabling escape sequences for stream %d: %s, expected %s", v, st_name(s), st_name(w));
            }
            auto after = look();
            for (int i = 0; i < 3; i++) {
                CHECK(before->fdfl[i] == after->fdfl[i], "the descriptor of stream %d was opened, closed or changed", i); if (cur[i] == CLOSED) continue;
                CHECK(before->st[i].st_ino == after->st[i].st_ino && before->st[i].st_dev == after->st[i].st_dev && before->fl[i] == after->fl[i], "stream %d was redirected or its flags changed", i);
                CHECK(before->pos[i] == after->pos[i] && before->st[i].st_size == after->st[i].st_size, "the position or size of stream %d changed", i);
                CHECK(before->avail[i] == after->avail[i] && before->oavail[i] == after->oavail[i], "data was read from or written to stream %d", i);
                CHECK(!memcmp(&before->t[i], &after->t[i], sizeof(struct termios)), "the terminal settings of stream %d changed", i);
            }
            CHECK(before->pend == after->pend, "pending output was flushed");
        };
        auto header = [&]() { text("stdin %s, stdout %s, stderr %s: ", KN[k0], KN[k1], KN[k2]); };
        dfs([&]() {
            header(); int redirections = choose(2);
            if (!redirections) { int n = 1 + choose(depth); static const int ERR[] = {0, EBADF, ENOTTY, EINVAL}; for (int k = 0; k < n; k++) { int op = choose(8); call(op, ERR[choose(4)]); } return; }
            // a call, a stream becomes something else, the next call
            static const int TO[] = {TTY, NUL, CLOSED, FILE_}; static const int OPS[] = {0, 1, 2, 4, 5};
            struct Back { std::function<void()> f; ~Back() { f(); } } back{[&]() { restore(); before = look(); }};
            for (int k = 0; k < (depth > 2 ? 2 : 1); k++) {
                call(OPS[choose(k ? 3 : 5)], 0); int i = choose(3), to = TO[choose(4)]; if (to == cur[i]) throw Abort();
                redirect(i, to); text("stream %d becomes %s, ", i, KN[to]); before = look();
            }
            call(OPS[choose(5)], 0);
        });
        __fpurge(stdout); _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (E().s->failed) _exit(77); fail("the process terminated abnormally (wait status 0x%x)", st); }
}

int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough;
        if (E().prop == "C26") {
            if (sysconf(_SC_PAGE_SIZE) != (long)PS) { fprintf(stderr, "page size %ld not supported by this explorer\n", sysconf(_SC_PAGE_SIZE)); exit(2); }
            static const char* N[] = {"private memory", "shared memory", "private file mapping", "shared read-only file mapping"};
            for (int k = 0; k < 4; k++) for (int p = 1; p <= (T ? 4 : 3); p++) task(std::string(N[k]) + ", " + std::to_string(p) + " pages", [=] { Pages y(p, k); bfs(y, 100); });
            if (T) task("private memory, 5 pages", [=] { Pages y(5, 0); bfs(y, 100); });
            else task("private memory, 4 pages", [=] { Pages y(4, 0); bfs(y, 100); });
            task("page size", [] { for (int i = 0; i < 3; i++) { ZyanU32 a = ZyanMemoryGetSystemPageSize(), b = ZyanMemoryGetSystemAllocationGranularity(); CHECK(a == PS, "page size reported as %u", a); CHECK(b == PS, "allocation granularity reported as %u", b); count(1, 2, 2); } });
        } else {
            for (int a = 0; a < NK; a++) for (int b = 0; b < NK; b++) task(std::string("stdin ") + KN[a] + ", stdout " + KN[b], [=] { for (int c = 0; c < NK; c++) terminal(a, b, c, T ? 3 : 2); });
        }
    });
}
