// Explorer for operands that alias (C35): an object as its own source, an own element as the stored value.
#include "str.hpp"
#include "bits.hpp"
#include "list.hpp"
using namespace mc;
static const size_t BIG[] = {(size_t)-1, (size_t)-2, p2(63)};

static std::string pattern(size_t n) { static const char al[] = "aBbAcZ\xE1" "dEfgHiJ"; std::string s; for (size_t i = 0; i < n; i++) s += al[i % 14] ? (char)(al[i % 14] + (i >= 14 ? i / 14 % 3 : 0)) : 'x'; if (n > 3) s[3] = 0; return s; }
// One self operation; false: the combination is not applicable (the same state as another one).
struct SelfStr : StrObj {
    // inserting or appending nothing may be refused
    void done(ZyanStatus r, const std::string& w, bool nothing, const char* what) {
        if (nothing && r == ZYAN_STATUS_INVALID_ARGUMENT) { refused(r, r, what); return; }
        settle(r, w.size(), w, nothing ? 'x' : 'g', what);
    }
    void app(bool f) { text("append(self)%s ", f ? "!" : ""); pre(f); ZyanStatus r = ZyanStringAppend(s, view()); done(r, m + m, m.empty(), "append of the string to itself"); }
    void appx(size_t i, size_t n, bool f) {
        text("append(self,%zu,%zu)%s ", i, n, f ? "!" : ""); pre(f); ZyanStatus r = ZyanStringAppendEx(s, view(), i, n);
        if (i > m.size() || n > m.size() - i) refused(r, ZYAN_STATUS_OUT_OF_RANGE, "append of a range outside the string"); else done(r, m + m.substr(i, n), !n, "append of a part of the string to itself");
    }
    void ins(size_t at, bool f) {
        text("insert(%zu,self)%s ", at, f ? "!" : ""); pre(f); ZyanStatus r = ZyanStringInsert(s, at, view());
        if (at > m.size()) { refused(r, ZYAN_STATUS_OUT_OF_RANGE, "insert past the end"); return; }
        std::string w = m; w.insert(at, m); done(r, w, m.empty(), "insert of the string into itself");
    }
    void insx(size_t at, size_t i, size_t n, bool f) {
        text("insert(%zu,self,%zu,%zu)%s ", at, i, n, f ? "!" : ""); pre(f); ZyanStatus r = ZyanStringInsertEx(s, at, view(), i, n);
        if (at > m.size() || i > m.size() || n > m.size() - i) { refused(r, ZYAN_STATUS_OUT_OF_RANGE, "insert outside the string"); return; }
        std::string w = m; w.insert(at, m.substr(i, n)); done(r, w, !n, "insert of a part of the string into itself");
    }
    void queries() {
        size_t n = m.size(); ZyanISize at; ZyanI32 c;
        for (int ci = 0; ci < 2; ci++) {
            c = 77; ZyanStatus r = ci ? ZyanStringCompareI(view(), view(), &c) : ZyanStringCompare(view(), view(), &c);
            CHECK(r == ZYAN_STATUS_TRUE && c == 0, "comparison of %s with itself: %s, %d", q(m).c_str(), st_name(r), c);
            if (!n) continue;
            for (int right = 0; right < 2; right++) for (size_t i = 0; i <= n; i++) for (size_t k = 0; i + k <= n; k++) {
                at = -77; size_t from = right ? n - i : i; bool whole = i == 0 && k == n;
                r = right ? (ci ? ZyanStringRPosIEx(view(), view(), &at, from, k) : ZyanStringRPosEx(view(), view(), &at, from, k)) : (ci ? ZyanStringLPosIEx(view(), view(), &at, from, k) : ZyanStringLPosEx(view(), view(), &at, from, k));
                CHECK(r == (whole ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && at == (whole ? 0 : -1), "search of %s in its own range (%zu,%zu): %s, %td", q(m).c_str(), from, k, st_name(r), at);
            }
            at = -77; r = ci ? ZyanStringLPosI(view(), view(), &at) : ZyanStringLPos(view(), view(), &at); CHECK(r == ZYAN_STATUS_TRUE && at == 0, "search of %s in itself: %s, %td", q(m).c_str(), st_name(r), at);
            at = -77; r = ci ? ZyanStringRPosI(view(), view(), &at) : ZyanStringRPos(view(), view(), &at); CHECK(r == ZYAN_STATUS_TRUE && at == 0, "right search of %s in itself: %s, %td", q(m).c_str(), st_name(r), at);
        }
        verify();
    }
    // a concatenation and a duplicate whose sources are the same object
    void concat(int how, bool f) {
        text("concat(self,self) "); Tracker t2; Guarded g; ZyanString d; bool hit = false; heap::forbidden() = how != 1 && !c.deflt;
        if (f) { if (how == 0) t2.refuse = [&]() { hit = true; return true; }; else if (how == 1) heap::refuse() = [&]() { hit = true; return true; }; else return; }
        if (how == 2) g.init(2 * m.size() + 1);
        ZyanStatus r = how == 0 ? ZyanStringConcatEx(&d, view(), view(), 0, &t2.base, 2, 4) : how == 1 ? ZyanStringConcat(&d, view(), view(), 0) : ZyanStringConcatCustomBuffer(&d, view(), view(), (char*)g.p, g.n);
        t2.refuse = nullptr; heap::refuse() = nullptr;
        if (hit) CHECK(r == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "concatenation: %s although the allocation failed", st_name(r));
        else {
            CHECK(r == ZYAN_STATUS_SUCCESS, "concatenation of a string with itself: %s", st_name(r)); ZyanUSize n = 0; const char* p = nullptr;
            CHECK(ZyanStringGetSize(&d, &n) == ZYAN_STATUS_SUCCESS && ZyanStringGetData(&d, &p) == ZYAN_STATUS_SUCCESS && n == 2 * m.size() && std::string(p, n) == m + m && !p[n], "concatenation of %s with itself is %s", q(m).c_str(), q(std::string(p, n)).c_str());
            r = ZyanStringDestroy(&d); CHECK(r == ZYAN_STATUS_SUCCESS, "destruction: %s", st_name(r));
        }
        t2.expect_no_leak("after concatenation of a string with itself"); verify();
    }
    void build(const std::string& x) { init(); if (x.size()) append(x); }
};
static StrCfg dyn(int g, int t, size_t cap0) { StrCfg c; c.growth = g; c.thr = t; c.cap0 = cap0; return c; }
static void strings(bool T) {
    std::vector<StrCfg> cs; const int G[] = {1, 2, 3, 1, 2, 255}, H[] = {0, 4, 0, 1, 255, 0}; for (int i = 0; i < 6; i++) for (size_t c0 : {(size_t)0, (size_t)7, (size_t)40}) cs.push_back(dyn(G[i], H[i], c0));
    StrCfg df; df.deflt = true; cs.push_back(df); df.cap0 = 50; cs.push_back(df);
    for (size_t n : {1, 2, 3, 5, 7, 8, 11, 13, 16, 40}) { StrCfg f; f.fixed = true; f.fixcap = n; cs.push_back(f); }
    size_t L = T ? 9 : 6;
    // one self operation on every content length, every position and range, every allocation outcome
    for (auto c : cs) task("one self operation " + c.str(), [=]() { dfs([=]() {
        SelfStr o; o.c = c; o.ck = CK_CONTENT | CK_CAP; size_t len = choose((int)L + 1); if (c.fixed && len >= c.fixcap) throw Abort();
        std::string x = pattern(len); uint64_t k = 0, fl = 0;
        auto run = [&](const std::function<void(bool)>& op) { for (int f = 0; f < (c.fixed ? 1 : 2); f++) { text_reset(); o.build(x); op(f); k++; if (o.fault_hit) { fl++; o.fault_hit = false; op(false); } o.append(o.fits(o.m.size() + 1) ? "q" : ""); o.destroy(); } };
        run([&](bool f) { o.app(f); });
        for (size_t at = 0; at <= len + 2; at++) if (at != len + 1) run([&](bool f) { o.ins(at, f); });
        for (size_t i = 0; i <= len + 1; i++) for (size_t n = 0; i + n <= len + 1; n++) {
            run([&](bool f) { o.appx(i, n, f); });
            for (size_t at = 0; at <= len + 2; at++) if (at != len + 1) run([&](bool f) { o.insx(at, i, n, f); });
        }
        for (size_t b : BIG) {
            run([&](bool f) { o.appx(0, b, f); }); run([&](bool f) { o.appx(b, 1, f); }); run([&](bool f) { o.appx(1, b, f); }); run([&](bool f) { o.appx(b, 0 - b, f); });
            run([&](bool f) { o.ins(b, f); }); run([&](bool f) { o.insx(0, 1, b, f); }); run([&](bool f) { o.insx(b, 0, 0, f); }); run([&](bool f) { o.insx(0, b, 0 - b, f); });
        }
        run([&](bool) { o.queries(); });
        for (int how = 0; how < 3; how++) run([&](bool f) { o.concat(how, f); });
        count(0, k, k); E().sh->faults += fl;
    }); });
    // sequences of self operations: the string is a product of its own history
    for (auto c : {dyn(1, 0, 0), dyn(2, 4, 0), dyn(3, 0, 7), dyn(1, 1, 0)}) for (int sh = 0; sh < 4; sh++) task("sequences " + c.str() + " part " + std::to_string(sh), [=]() { dfs([=]() {
        SelfStr o; o.c = c; o.ck = CK_CONTENT; size_t len = 1 + choose(T ? 9 : 3); o.build(pattern(len));
        for (int d = 0; d < 3; d++) {
            size_t n = o.m.size(), P[] = {0, std::min<size_t>(1, n), n / 2, n}; int op = choose(5); bool f = false;
            switch (op) {
            case 0: f = choose(2); o.app(f); break;
            case 1: o.ins(P[choose(4)], false); break;
            case 2: { size_t i = P[choose(4)]; size_t r = n - i; o.appx(i, choose(2) ? r : (r + 1) / 2, false); break; }
            case 3: { size_t at = P[choose(4)], i = P[choose(4)], r = n - i; f = choose(2); o.insx(at, i, choose(2) ? r : (r + 1) / 2, f); break; }
            default: if (!n) throw Abort(); o.del(n / 3, (n - n / 3 + 1) / 2); break;
            }
            if (f) E().sh->faults++;
            if (o.m.size() > 60) break;
        }
        o.destroy();
    }, sh, 4); });
    // lengths around the growth steps
    task("long strings", [=]() { dfs([=]() {
        size_t LS[] = {15, 16, 31, 32, 33, 63, 64, 100, 255, 256}; size_t len = LS[choose(T ? 10 : 8)]; StrCfg c = choose(2) ? dyn(2, 4, 0) : dyn(1, 0, 0); SelfStr o; o.c = c; o.ck = CK_CONTENT | CK_CAP; uint64_t k = 0;
        size_t P[] = {0, 1, len / 2, len - 1, len};
        auto run = [&](const std::function<void(bool)>& op) { for (int f = 0; f < 2; f++) { text_reset(); o.build(pattern(len)); op(f); if (o.fault_hit) { o.fault_hit = false; op(false); } o.destroy(); k++; } };
        run([&](bool f) { o.app(f); }); for (size_t at : P) { run([&](bool f) { o.ins(at, f); }); for (size_t i : P) for (size_t n : P) if (i + n <= len) { run([&](bool f) { o.insx(at, i, n, f); }); if (!at) run([&](bool f) { o.appx(i, n, f); }); } }
        count(0, k, k);
    }); });
}
static void bits(bool T) {
    size_t M = T ? 18 : 12;
    for (int kind = 0; kind < 3; kind++) for (int sh = 0; sh < 4; sh++) task("bitset with itself kind=" + std::to_string(kind) + " part " + std::to_string(sh), [=]() { dfs([=]() {
        int op = choose(6); size_t n = choose((int)M + 1); BitObj o; o.c.n0 = n; o.c.fixed = kind == 1; o.c.fixcap = B8(n) + 1; o.c.deflt = kind == 2; o.ck = CK_CONTENT | CK_CAP; uint64_t k = 0;
        for (uint32_t v = 0; v < 1u << n; v++) {
            if (n > 8 && (v >> 3 & 7) != (v >> (n - 3)) % 8 && !T) continue; // the bytes are treated alike: the last one follows the first one
            text_reset(); o.building = true; o.init(); for (size_t i = 0; i < n; i++) o.one(v >> i & 1 ? 0 : 1, i); o.building = false;
            o.bulk(op, o); bool odd = v & 1; o.bulk(odd ? 0 : 1, o); o.destroy(); k++; if (!(k & 255)) beat();
        }
        count(0, k, k);
    }, sh, 4); });
}
struct SelfList : ListObj {
    const void* data(size_t i) { return ZyanListGetNodeData(m[i].n); }
    void push_own(bool front, size_t i, bool f) { text("push_%s(own %zu)%s ", front ? "front" : "back", i, f ? "!" : ""); pre(f); uint32_t x = m[i].v; W w = with(front, x); ZyanStatus r = front ? ZyanListPushFront(l, data(i)) : ZyanListPushBack(l, data(i)); settle(r, w, {}, "push of an own element"); }
    void set_own(size_t i, size_t j) { text("set(%zu, own %zu) ", i, j); pre(); W w = m; w[i].v = m[j].v; ZyanStatus r = ZyanListSetNodeData(l, m[i].n, data(j)); settle(r, w, {}, "set from an own element"); }
    void resize_own(size_t n, size_t i, bool f, int skip) { text("resize(%zu, own %zu)%s ", n, i, f ? "!" : ""); pre(f, skip); W w = m; while (w.size() < n) w.push_back({m[i].v, nullptr}); ZyanStatus r = ZyanListResizeEx(l, n, data(i)); settle(r, w, {}, "resize with an own element"); }
};
static void lists(bool T) {
    for (int kind = 0; kind < 3; kind++) for (size_t es : {1, 4, 24}) task("list own elements kind=" + std::to_string(kind) + " es=" + std::to_string(es), [=]() { dfs([=]() {
        SelfList o; o.c.es = es; o.c.fixed = kind == 1; o.c.slots = 5; o.c.deflt = kind == 2; o.init();
        size_t n = 1 + choose(3); for (size_t i = 0; i < n; i++) o.push(i & 1, (uint32_t)(3 + i));
        for (int d = 0; d < (T ? 3 : 2); d++) {
            n = o.m.size(); if (!n) break;
            int op = choose(5); size_t i = choose((int)n); bool f = kind != 1 && op != 2 && op != 4 && choose(2);
            switch (op) {
            case 0: o.push_own(false, i, f); break;
            case 1: o.push_own(true, i, f); break;
            case 2: o.set_own(i, choose((int)n)); break;
            case 3: { size_t add = 1 + choose(3); o.resize_own(n + add, i, f, f ? choose((int)add) : 0); break; }
            default: o.remove(i, i, false); break;
            }
            if (f) E().sh->faults++;
        }
        o.destroy();
    }); });
}
static ZyanI32 cmp32(const void* a, const void* b) { uint32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y ? -1 : x > y; }
static ZyanBool eq32(const void* a, const void* b) { return !memcmp(a, b, 4); }
struct SelfVec : VecObj {
    const void* at(size_t i) { const void* p = ZyanVectorGet(v, i); CHECK(p, "element %zu of %zu is null", i, m.size()); return p; }
    void set_own(size_t i, size_t j) { text("set(%zu, own %zu) ", i, j); pre(); Seq w = m, r; w[i] = m[j]; ZyanStatus s = ZyanVectorSet(v, i, at(j)); settle(s, 0, w, r, 'n', "set from an own element"); }
    // where no storage moves the source stays valid
    void push_own(size_t i) { text("push(own %zu) ", i); pre(); Seq w = m, r; w.push_back(m[i]); ZyanStatus s = ZyanVectorPushBack(v, at(i)); settle(s, w.size(), w, r, 'g', "push of an own element"); }
    void queries() {
        if (c.es != 4) return;
        size_t n = m.size();
        for (size_t i = 0; i < n; i++) {
            ZyanISize x = -77; ZyanISize first = (ZyanISize)(std::find(m.begin(), m.end(), m[i]) - m.begin()); ZyanStatus s = ZyanVectorFind(v, at(i), &x, eq32); CHECK(s == ZYAN_STATUS_TRUE && x == first, "search of the own element %zu: %s, %td", i, st_name(s), x);
            if (std::is_sorted(m.begin(), m.end())) { ZyanUSize u = 77; size_t lo = std::lower_bound(m.begin(), m.end(), m[i]) - m.begin(); s = ZyanVectorBinarySearch(v, at(i), &u, cmp32); CHECK(s == ZYAN_STATUS_TRUE && u == lo, "binary search of the own element %zu: %s, %zu, expected %zu", i, st_name(s), (size_t)u, lo); }
        }
        verify();
    }
};
static void vectors(bool T) {
    for (int kind = 0; kind < 3; kind++) for (size_t es : {1, 4, 24}) task("vector own elements kind=" + std::to_string(kind) + " es=" + std::to_string(es), [=]() { dfs([=]() {
        SelfVec o; o.c.es = es; o.c.fixed = kind == 1; o.c.fixcap = 6; o.c.deflt = kind == 2; o.c.thr = 0; o.c.cap0 = 10; o.init(); size_t n = 1 + choose(4), pat = choose(2); for (size_t i = 0; i < n; i++) o.push((uint32_t)(pat ? 3 + i / 2 : 9 - i));
        for (int d = 0; d < (T ? 4 : 3); d++) {
            n = o.m.size(); if (n >= 9 || !n) break; size_t i = choose((int)n);
            switch (choose(4)) {
            case 0: o.set_own(i, choose((int)n)); break;
            case 1: o.push_own(i); break;
            case 2: o.queries(); break;
            default: o.swap(i, i); break;
            }
        }
        o.destroy();
    }); });
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] { bool T = E().thorough; strings(T); bits(T); lists(T); vectors(T); });
}
