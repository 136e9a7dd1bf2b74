// Explorer for C37: in every distinct container state everything that is only read - the object, its storage, source
// objects, elements, views and characters handed over - is write-protected while it is read.
#include "large.hpp"
using namespace mc;
static ZyanBool eqb(const void* a, const void* b); static ZyanI32 cmpb(const void* a, const void* b);
static size_t ES = 1;
static ZyanBool eqb(const void* a, const void* b) { return !memcmp(a, b, ES); }
static ZyanI32 cmpb(const void* a, const void* b) { int d = memcmp(a, b, ES); return d < 0 ? -1 : d > 0; }

struct RVec : VecSys { using VecSys::VecSys;
    void visit() override {
        ES = o.c.es; size_t n = o.m.size(); int tl = E().s->tlen; text("queries ");
        for (uint32_t x : {o.m.empty() ? 1u : o.m[0], o.m.empty() ? 2u : o.m[n - 1], 0u, 77u}) {
            auto e = o.enc({x}); pg::Seal sealed; ZyanISize at; ZyanUSize u;
            ZyanStatus s = ZyanVectorFind(o.v, e.data(), &at, eqb); CHECK(s == ZYAN_STATUS_TRUE || s == ZYAN_STATUS_FALSE || !n, "search: %s", st_name(s));
            s = ZyanVectorBinarySearch(o.v, e.data(), &u, cmpb); CHECK(s == ZYAN_STATUS_TRUE || s == ZYAN_STATUS_FALSE || !n, "binary search: %s", st_name(s));
            for (size_t i = 0; i <= n + 1; i++) for (size_t k = 0; i + k <= n + 1; k++) { ZyanVectorFindEx(o.v, e.data(), &at, eqb, i, k); ZyanVectorBinarySearchEx(o.v, e.data(), &u, cmpb, i, k); }
        }
        for (size_t i = 0; i <= n; i++) { pg::Seal sealed; const void* p = ZyanVectorGet(o.v, i); CHECK(!p == (i >= n), "element %zu of %zu", i, n); }
        // copies
        for (int how = 0; how < 3; how++) for (size_t cap : {(size_t)0, n, n + 3}) {
            pg::In in(pg::OTHER); Tracker t; Guarded g; pg::Mem<ZyanVector> d; ZyanVector* v = (ZyanVector*)d.p; memset(d.p, junk(0xEE), sizeof *v); heap::forbidden() = false; ZyanStatus s;
            if (how == 2) { if (!cap || cap < n) continue; g.init(cap * o.c.es); }
            { pg::Seal sealed; s = how == 0 ? ZyanVectorDuplicateEx(v, o.v, cap, &t.base, 2, 4) : how == 1 ? ZyanVectorDuplicate(v, o.v, cap) : ZyanVectorDuplicateCustomBuffer(v, o.v, g.p, cap); }
            CHECK(s == ZYAN_STATUS_SUCCESS, "duplication %d with capacity %zu of %zu elements: %s", how, cap, n, st_name(s));
            for (size_t i = 0; i < n; i++) CHECK(!memcmp(ZyanVectorGet(v, i), ZyanVectorGet(o.v, i), ES), "element %zu of the copy differs", i);
            v->destructor = nullptr; s = ZyanVectorDestroy(v); CHECK(s == ZYAN_STATUS_SUCCESS, "destruction of the copy: %s", st_name(s));
        }
        heap::forbidden() = !o.c.deflt; E().s->tlen = tl; E().s->text[tl] = 0;
    }
};
struct RStr : StrSys { using StrSys::StrSys;
    void visit() override {
        const std::string m = o.m; size_t n = m.size(); int tl = E().s->tlen; text("queries "); const ZyanStringView* self = o.view();
        { // views
            pg::Seal sealed; ZyanStringView w; const char* p; ZyanUSize k; ZyanStatus s;
            for (size_t i = 0; i <= n; i++) for (size_t l = 0; i + l <= n; l++) {
                s = ZyanStringViewInsideViewEx(&w, self, i, l); if (s == ZYAN_STATUS_SUCCESS) CHECK(ZyanStringViewGetSize(&w, &k) == s && k == l && ZyanStringViewGetData(&w, &p) == s && !memcmp(p, &m[i], l), "view of (%zu,%zu)", i, l);
                else CHECK(i == n && s == ZYAN_STATUS_OUT_OF_RANGE, "view of (%zu,%zu) of %zu: %s", i, l, n, st_name(s));
            }
            s = ZyanStringViewInsideView(&w, self); CHECK(s == ZYAN_STATUS_SUCCESS, "view: %s", st_name(s)); s = ZyanStringViewInsideBuffer(&w, o.data()); CHECK(s == ZYAN_STATUS_SUCCESS, "view of the characters: %s", st_name(s)); s = ZyanStringViewInsideBufferEx(&w, o.data(), n); CHECK(s == ZYAN_STATUS_SUCCESS || !n, "view of the characters: %s", st_name(s));
            for (size_t i = 0; i <= n; i++) { ZyanUSize x; char ch; (void)x; s = ZyanStringGetChar(self, i, &ch); CHECK(s == (i < n ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE), "character %zu of %zu: %s", i, n, st_name(s)); }
        }
        for (const std::string& x : {std::string("a"), std::string("B"), std::string("aB"), m, m + "a", std::string()}) {
            SrcView q(x); pg::Seal sealed; ZyanISize at; ZyanI32 c;
            ZyanStringLPos(self, &q.v, &at); ZyanStringLPosI(self, &q.v, &at); ZyanStringRPos(self, &q.v, &at); ZyanStringRPosI(self, &q.v, &at); ZyanStringLPos(&q.v, self, &at); ZyanStringRPosI(&q.v, self, &at);
            for (size_t i = 0; i <= n + 1; i++) for (size_t k = 0; k <= n + 1; k++) { if (i + k <= n + 1) { ZyanStringLPosEx(self, &q.v, &at, i, k); ZyanStringLPosIEx(self, &q.v, &at, i, k); } if (k <= i) { ZyanStringRPosEx(self, &q.v, &at, i, k); ZyanStringRPosIEx(self, &q.v, &at, i, k); } }
            ZyanStatus s = ZyanStringCompare(self, &q.v, &c); CHECK(s == (m == x ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "comparison: %s", st_name(s)); s = ZyanStringCompare(&q.v, self, &c); CHECK(s == (m == x ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "comparison: %s", st_name(s)); ZyanStringCompareI(self, &q.v, &c); ZyanStringCompareI(&q.v, self, &c);
        }
        // as the source of another string
        SrcView tail("xY"); ZyanStatus s;
        for (int what = 0; what < 6; what++) for (int how = 0; how < 3; how++) {
            pg::In in(pg::OTHER); Tracker t; Guarded g; pg::Mem<ZyanString> d; ZyanString* v = (ZyanString*)d.p; memset(d.p, junk(0xEE), sizeof *v); heap::forbidden() = false; std::string want;
            if (how == 2) g.init(2 * n + 8); char* b = (char*)g.p; size_t cap = g.n; ZyanAllocator* al = &t.base;
            if (what > 2) { s = how == 0 ? ZyanStringInitEx(v, 0, al, 1, 0) : how == 1 ? ZyanStringInit(v, 0) : ZyanStringInitCustomBuffer(v, b, cap); if (s == ZYAN_STATUS_SUCCESS) s = ZyanStringAppend(v, &tail.v); CHECK(s == ZYAN_STATUS_SUCCESS, "preparation: %s", st_name(s)); }
            { pg::Seal sealed;
            switch (what) {
            case 0: want = m; s = how == 0 ? ZyanStringDuplicateEx(v, self, 0, al, 1, 0) : how == 1 ? ZyanStringDuplicate(v, self, 0) : ZyanStringDuplicateCustomBuffer(v, self, b, cap); break;
            case 1: want = m + "xY"; s = how == 0 ? ZyanStringConcatEx(v, self, &tail.v, 0, al, 1, 0) : how == 1 ? ZyanStringConcat(v, self, &tail.v, 0) : ZyanStringConcatCustomBuffer(v, self, &tail.v, b, cap); break;
            case 2: want = "xY" + m; s = how == 0 ? ZyanStringConcatEx(v, &tail.v, self, 0, al, 1, 0) : how == 1 ? ZyanStringConcat(v, &tail.v, self, 0) : ZyanStringConcatCustomBuffer(v, &tail.v, self, b, cap); break;
            case 3: want = "xY" + m; s = ZyanStringAppend(v, self); break;
            case 4: want = "x" + m + "Y"; s = ZyanStringInsert(v, 1, self); break;
            default: want = "xY" + m + "|"; s = ZyanStringAppendFormat(v, "%s|", o.data()); break; // the content has no zero characters here
            } }
            if (what == 5 && m.find('\0') != std::string::npos) want = "xY" + std::string(m.c_str()) + "|";
            if (!n && s == ZYAN_STATUS_INVALID_ARGUMENT) want = "xY"; // inserting nothing may be refused
            else CHECK(s == ZYAN_STATUS_SUCCESS, "operation %d/%d with %s as the source: %s", what, how, q(m).c_str(), st_name(s));
            const char* p = nullptr; ZyanUSize k = 0; CHECK(ZyanStringGetData(v, &p) == ZYAN_STATUS_SUCCESS && ZyanStringGetSize(v, &k) == ZYAN_STATUS_SUCCESS && std::string(p, k) == want, "operation %d/%d with %s as the source: the result is %s", what, how, q(m).c_str(), q(std::string(p, k)).c_str());
            s = ZyanStringDestroy(v); CHECK(s == ZYAN_STATUS_SUCCESS, "destruction: %s", st_name(s));
        }
        heap::forbidden() = !o.c.deflt; E().s->tlen = tl; E().s->text[tl] = 0;
    }
};
struct RBits : BitSys { using BitSys::BitSys;
    // as the second operand of operations on other bitsets
    void visit() override {
        int tl = E().s->tlen; text("as an operand of "); size_t n = o.m.size();
        for (size_t k : {(size_t)0, n ? n - 1 : 1, n, n + 5}) for (int op = 0; op < 6; op++) {
            pg::In in(pg::OTHER); BitObj d; d.c.n0 = k; d.c.growth = 2; d.c.thr = 2; d.init(); for (size_t i = 0; i < k; i += 2) d.one(0, i);
            { pg::Seal sealed; d.bulk(op, o); } d.destroy();
        }
        heap::forbidden() = !o.c.deflt; E().s->tlen = tl; E().s->text[tl] = 0;
    }
};
template <class Sys, class... A> static void closure(const char* kind, const std::string& name, int depth, A... a) { task(std::string(kind) + " " + name, [=]() { Sys y(a...); bfs(y, depth); }); }
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        E().seal = true; bool T = E().thorough; size_t M = T ? 5 : 4; const int ck = CK_CONTENT | CK_CAP;
        for (int i = 0; i < 7; i++) {
            VecCfg c; size_t es[] = {4, 1, 8, 3, 4, 12, 8}; c.es = es[i]; c.growth = i % 3 + 1; c.thr = i * 2 % 5; c.cap0 = (size_t)i % 4; c.fixed = i == 4 || i == 5; c.fixcap = i - 1u; c.deflt = i == 6; if (c.deflt) { c.growth = 2; c.thr = 4; c.cap0 = 0; } c.dtor = i == 2;
            closure<RVec>("vector", c.str(), 99, c, (int)CK_CONTENT, c.fixed ? c.fixcap + 1 : M, false, i == 0, 2);
        }
        for (int i = 0; i < 7; i++) {
            StrCfg c; c.growth = i % 3 + 1; c.thr = i * 2 % 5; size_t c0[] = {0, 7, 33, 40, 0, 0, 0}; c.cap0 = c0[i]; c.fixed = i == 4 || i == 5; c.fixcap = i - 1u; c.deflt = i == 6; if (c.deflt) { c.growth = 2; c.thr = 4; }
            closure<RStr>("string", c.str(), 99, c, ck, c.fixed ? c.fixcap : M - 1, false, true);
        }
        for (size_t n : {0, 1, 7, 8, 9, 15, 16, 17, 24}) for (int kind = 0; kind < 3; kind++) {
            BitCfg c; c.n0 = n; c.growth = (int)n % 3 + 1; c.thr = (int)n % 4; c.fixed = kind == 1; c.fixcap = B8(n) + 1; c.deflt = kind == 2; if (c.deflt) c.growth = c.thr = 2;
            closure<RBits>("bitset", c.str(), n > 9 ? (T ? 5 : 3) : T ? 6 : 4, c, ck, n + 2, false, kind == 0, std::vector<size_t>{0, n / 2, n});
        }
        for (int i = 0; i < 6; i++) {
            ListCfg c; size_t es[] = {4, 1, 12, 8, 8, 24}; c.es = es[i]; c.dtor = i == 2; c.fixed = i == 3 || i == 4; c.slots = i; c.extra = i == 4 ? 7 : 0; c.deflt = i == 5;
            closure<ListSys>("list", c.str(), c.fixed ? (T ? 9 : 6) : 99, c, (int)CK_CONTENT, M, false, true, i ? 1 : 2);
        }
        // larger objects
        std::vector<size_t> L = {0, 1, 7, 8, 33, 64, 130};
        { VecCfg c; c.es = 4; vec_large(c, L, CK_CONTENT, T ? 2 : 1); StrCfg s; str_large(s, L, ck, 2); BitCfg b; bits_large(b, L, ck, 1); ListCfg l; l.es = 4; list_large(l, L, CK_CONTENT, 2); }
    });
}
