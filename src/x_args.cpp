// Explorer for C08: every operation with every combination of ordinary, out-of-range and
// overflowing arguments; null objects.
#include "vec.hpp"
#include "str.hpp"
#include "bits.hpp"
#include "list.hpp"
using namespace mc;
typedef wide_t u128;
static const size_t MX = ~(size_t)0;
// values around the size n, around powers of two, and around the points where a sum with n, a
// product with es or a shift wraps around
static std::vector<size_t> vals(size_t n, size_t cap, size_t es) {
    std::vector<size_t> v = {0, 1, 2, n, n + 1, n + 2, cap, cap + 1, cap + 2, 100, MX, MX - 1, MX - 2, MX - 7, MX - 8, MX - n, MX - n + 1, MX - n - 1, MX - cap, MX - cap + 1, p2(63), (p2(63)) - 1, (p2(63)) + 1, p2(62), (p2(62)) + 1, p2(61), (p2(61)) + n,
        (p2(61)) - 1, p2(32), (p2(32)) + 1, (p2(32)) - 1, p2(31), p2(33), MX / es, MX / es + 1, MX / es + 2, MX / es - n, MX / 2, MX / 2 - n, MX / 3, MX / 3 + 1};
    if (n) { v.push_back(n - 1); v.push_back(n / 2); }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
static const size_t BIG = 100000; // anything larger cannot be honoured by the checking allocator's limit or is not attempted
static void failed(ZyanStatus s, const char* what) { CHECK(ZYAN_FAILED(s), "%s accepted arguments it cannot honour (%s)", what, st_name(s)); }
// an operation that is valid and needs `need` elements of room either succeeds or, if that is
// impossible, fails
enum Out { REFUSE, DONE };

static void vectors(VecCfg c, std::vector<size_t> sizes) {
    task("vector " + c.str(), [=]() { dfs([&]() {
        VecObj o; o.c = c; o.ck = CK_CONTENT | CK_DTOR; o.init(); size_t n = sizes[choose((int)sizes.size())]; if (c.fixed && n > c.fixcap) throw Abort();
        for (size_t i = 0; i < n; i++) o.push((uint32_t)(50 + i));
        std::vector<size_t> V = vals(n, o.cap(), c.es); int op = choose(19); size_t a = V[choose((int)V.size())], b = 0; ZyanStatus s = 0;
        std::vector<uint32_t> src = {7, 8, 9}; auto e = o.enc(src); o.pre(); std::vector<uint32_t> w = o.m, rem; bool ok = true; size_t cp = o.cap();
        auto room = [&](u128 k) { return c.fixed ? k <= c.fixcap : k <= BIG; };
        if (op == 1 || op == 5 || op == 6 || op == 7 || op == 10) b = V[choose((int)V.size())];
        static const char* N[] = {"insert", "insert range", "set", "get", "emplace", "swap", "delete range", "find range", "delete", "reserve", "binary search", "resize", "resize with initializer", "push", "pop", "get pointer", "insert two", "clear", "insert three"};
        text("%s(%zu,%zu) ", N[op], a, b);
        switch (op) {
        case 0: s = ZyanVectorInsert(o.v, a, e.data()); ok = a <= n && room(n + 1); if (ok) w.insert(w.begin() + a, 7); break;
        case 1: // the source holds three elements: larger counts must be impossible for another reason
            if (b == 0 || (a <= n && b > 3 && room((u128)n + b))) throw Abort();
            s = ZyanVectorInsertRange(o.v, a, e.data(), b); ok = a <= n && room((u128)n + b); if (ok) w.insert(w.begin() + a, src.begin(), src.begin() + b); break;
        case 2: s = ZyanVectorSet(o.v, a, e.data()); ok = a < n; if (ok) { rem = {w[a]}; w[a] = 7; } break;
        case 3: { const void* p = ZyanVectorGet(o.v, a); void* q = ZyanVectorGetMutable(o.v, a); CHECK((p != nullptr) == (a < n) && p == q && (!p || el_is((uint8_t*)p, c.es, o.m[a])), "get returned a wrong element"); s = a < n ? 0x100000 : 0x80000000; ok = a < n; break; }
        case 4: { void* p = (void*)1; o.ctor_fail = false; o.ctor_val = 7; s = ZyanVectorEmplaceEx(o.v, a, &p, VecObj::s_ctor); ok = a <= n && room(n + 1); CHECK(o.ctor_calls == (ok ? 1 : 0), "constructor called %d times", o.ctor_calls); if (ok) w.insert(w.begin() + a, 7); break; }
        case 5: s = ZyanVectorSwapElements(o.v, a, b); ok = a < n && b < n; if (ok && n == cp && ZYAN_FAILED(s)) ok = false; if (ok) std::swap(w[a], w[b]); break;
        case 6: if (b == 0) throw Abort(); s = ZyanVectorDeleteRange(o.v, a, b); ok = a <= n && b <= n - a; if (ok) { rem.assign(w.begin() + a, w.begin() + a + b); w.erase(w.begin() + a, w.begin() + a + b); } break;
        case 7: { ZyanISize at = -5; s = ZyanVectorFindEx(o.v, e.data(), &at, [](const void*, const void*) { return (ZyanBool)ZYAN_FALSE; }, a, b); ok = a <= n && b <= n - a; if (a == n && ZYAN_FAILED(s)) ok = false; if (ok) CHECK(s == ZYAN_STATUS_FALSE && at == -1, "find: %s", st_name(s)); break; }
        case 8: s = ZyanVectorDelete(o.v, a); ok = a < n; if (ok) { rem = {w[a]}; w.erase(w.begin() + a); } break;
        case 9: s = ZyanVectorReserve(o.v, a); ok = c.fixed ? a <= c.fixcap : a <= cp || (u128)a * c.es <= o.t.refuse_above; if (ok) CHECK(o.cap() >= a, "capacity %zu after reserving %zu", o.cap(), a); break;
        case 10: { ZyanUSize at = 0; s = ZyanVectorBinarySearchEx(o.v, e.data(), &at, [](const void*, const void*) { return (ZyanI32)-1; }, a, b); ok = a <= n && b <= n - a; if (ok) CHECK(s == ZYAN_STATUS_FALSE && at == a + b, "binary search: %s at %zu", st_name(s), at); break; }
        case 11: case 12:
            ok = room(a); if (!ok && !c.fixed && (u128)a * c.es * c.growth <= o.t.refuse_above) throw Abort();
            s = op == 11 ? ZyanVectorResize(o.v, a) : ZyanVectorResizeEx(o.v, a, e.data());
            if (ok) { if (a < n) { rem.assign(w.begin() + a, w.end()); } w.resize(a, 7); if (op == 11 && a > n && ZYAN_SUCCESS(s)) for (size_t i = n; i < a; i++) { void* p = ZyanVectorGetMutable(o.v, i); CHECK(p, "resized element missing"); el_fill((uint8_t*)p, c.es, 7); } } break;
        case 13: if (a) throw Abort(); s = ZyanVectorPushBack(o.v, e.data()); ok = room(n + 1); if (ok) w.push_back(7); break;
        case 14: if (a) throw Abort(); s = ZyanVectorPopBack(o.v); ok = n > 0; if (ok) { rem = {w.back()}; w.pop_back(); } break;
        case 15: { const void* p = (void*)1; void* q = (void*)1; s = ZyanVectorGetPointer(o.v, a, &p); ZyanStatus s2 = ZyanVectorGetPointerMutable(o.v, a, &q); ok = a < n; CHECK(s2 == s && p == q && (ok || p == (void*)1), "element pointers disagree"); break; }
        case 16: case 18: { size_t k = op == 16 ? 2 : 3; s = ZyanVectorInsertRange(o.v, a, e.data(), k); ok = a <= n && room(n + k); if (ok) w.insert(w.begin() + a, src.begin(), src.begin() + k); break; }
        case 17: if (a) throw Abort(); s = ZyanVectorClear(o.v); rem = w; w.clear(); break;
        }
        if (!ok) { failed(s, N[op]); o.check_dead({}, "by a refused operation"); CHECK(o.cap() == cp, "the capacity changed from %zu to %zu by a refused operation", cp, o.cap()); }
        else { CHECK(!ZYAN_FAILED(s), "%s failed with %s", N[op], st_name(s)); o.m = w; o.check_dead(rem, ""); }
        o.verify(); if (!c.fixed || o.m.size() < c.fixcap) o.push(99); o.destroy();
    }); });
}
static void strings(StrCfg c, std::vector<size_t> sizes) {
    task("string " + c.str(), [=]() { dfs([&]() {
        StrObj o; o.c = c; o.init(); size_t n = sizes[choose((int)sizes.size())]; if (c.fixed && n + 1 > c.fixcap) throw Abort();
        if (n) o.append(std::string("aBcDeFgHiJ").substr(0, n));
        std::vector<size_t> V = vals(n, o.cap(), 1); int op = choose(20); size_t a = V[choose((int)V.size())], b = 0, k = 0; ZyanStatus s = 0;
        std::string x = "xYz"; SrcView sv(x); SrcView nd("c"); o.pre(); std::string w = o.m; bool ok = true; size_t cp = o.cap();
        auto room = [&](u128 z) { return c.fixed ? z + 1 <= c.fixcap : z <= BIG; };
        bool two = op == 1 || op == 2 || op == 3 || op == 8 || op == 9 || (op >= 11 && op <= 15); if (two) b = V[choose((int)V.size())];
        if (op == 15) { size_t z[6] = {0, 1, n, n + 1, MX, MX - n}; k = z[choose(6)]; }
        static const char* N[] = {"insert", "append part", "insert part at 0", "delete", "truncate", "set", "get", "resize", "to upper", "to lower", "reserve", "lpos", "rpos", "lposi", "rposi", "insert part", "get mutable", "view", "rposi2", "clear"};
        text("%s(%zu,%zu,%zu) ", N[op], a, b, k); ZyanISize at = -9; bool inr = a <= n && b <= n - std::min(a, n), ins = a <= 3 && b <= 3 - std::min<size_t>(a, 3);
        switch (op) {
        // inserting one past the end appends: not specified
        case 0: if (a == n + 1) throw Abort(); s = ZyanStringInsert(o.s, a, &sv.v); ok = a <= n && room(n + 3); if (ok) w.insert(a, x); break;
        case 1: if (b == 0 && a == 3) throw Abort(); s = ZyanStringAppendEx(o.s, &sv.v, a, b); ok = ins && room((u128)n + b); if (ok && b == 0 && ZYAN_FAILED(s)) ok = false; if (ok) w += x.substr(a, b); break;
        case 2: if (b == 0) throw Abort(); s = ZyanStringInsertEx(o.s, 0, &sv.v, a, b); ok = ins && room((u128)n + b); if (ok) w.insert(0, x.substr(a, b)); break;
        case 3: s = ZyanStringDelete(o.s, a, b); ok = inr; if (ok && b == 0 && ZYAN_FAILED(s)) ok = false; if (ok) w.erase(a, b); break;
        case 4: s = ZyanStringTruncate(o.s, a); ok = a <= n; if (a == n && ZYAN_FAILED(s)) ok = false; if (ok) w.resize(a); break;
        case 5: s = ZyanStringSetChar(o.s, a, 'Q'); ok = a < n; if (ok) w[a] = 'Q'; break;
        case 6: { char ch = '?'; s = ZyanStringGetChar(o.view(), a, &ch); ok = a < n; CHECK(ch == (ok ? w[a] : '?'), "character read is %c", ch); break; }
        case 7: ok = room(a); if (!ok && !c.fixed && (u128)a * c.growth <= o.t.refuse_above) throw Abort(); s = ZyanStringResize(o.s, a); if (ok) { w.resize(a, 'z'); for (size_t i = n; i < a && ZYAN_SUCCESS(s); i++) CHECK(ZyanStringSetChar(o.s, i, 'z') == ZYAN_STATUS_SUCCESS, "resized character missing"); } break;
        case 8: s = ZyanStringToUpperCaseEx(o.s, a, b); ok = inr; if (ok && b == 0 && ZYAN_FAILED(s)) ok = false; if (ok) w = StrObj::fold(w, true, a, b); break;
        case 9: s = ZyanStringToLowerCaseEx(o.s, a, b); ok = inr; if (ok && b == 0 && ZYAN_FAILED(s)) ok = false; if (ok) w = StrObj::fold(w, false, a, b); break;
        case 10: s = ZyanStringReserve(o.s, a); ok = c.fixed ? room(a) : a <= cp || (u128)a + 1 <= o.t.refuse_above; if (ok) CHECK(o.cap() >= a, "capacity %zu after reserving %zu", o.cap(), a); break;
        case 11: case 12: case 13: case 14:
            s = op == 11 ? ZyanStringLPosEx(o.view(), &nd.v, &at, a, b) : op == 12 ? ZyanStringRPosEx(o.view(), &nd.v, &at, a, b) : op == 13 ? ZyanStringLPosIEx(o.view(), &nd.v, &at, a, b) : ZyanStringRPosIEx(o.view(), &nd.v, &at, a, b);
            // the start position of the backward search counts from the end or the front; only ranges that are invalid either way are judged here
            if (op == 12 || op == 14) { if (inr || (a <= n && b <= n)) { ok = ZYAN_SUCCESS(s); break; } ok = false; break; }
            ok = inr; if (ok && ZYAN_FAILED(s) && (b == 0 || a == n)) ok = false; if (ok) { size_t p = w.substr(a, b).find('c'); CHECK(at == (p == std::string::npos ? -1 : (ZyanISize)(p + a)), "found at %td", at); } break;
        case 15: if (k == n + 1 || b == 0) throw Abort(); s = ZyanStringInsertEx(o.s, k, &sv.v, a, b); ok = k <= n && ins && room((u128)n + b); if (ok) w.insert(k, x.substr(a, b)); break;
        case 16: { char* p = (char*)1; s = ZyanStringGetCharMutable(o.s, a, &p); ok = a < n; CHECK(ok ? *p == w[a] : p == (char*)1, "wrong character pointer"); break; }
        case 17: { size_t z[12] = {0, 1, n, n + 1, MX, MX - n, MX - a, MX - a + 1, MX - 1, p2(63), n - std::min(n, a), n - std::min(n, a) + 1}; b = z[choose(12)]; text("count %zu ", b); ZyanStringView v; memset(&v, junk(0x5A), sizeof v); s = ZyanStringViewInsideViewEx(&v, o.view(), a, b); ok = a <= n && b <= n - a; if (ok && b == 0 && ZYAN_FAILED(s)) ok = false; if (ok) { ZyanUSize l = 99; const char* d; CHECK(ZyanStringViewGetSize(&v, &l) == ZYAN_STATUS_SUCCESS && l == b && ZyanStringViewGetData(&v, &d) == ZYAN_STATUS_SUCCESS && d == o.data() + a, "view of [%zu,+%zu) has length %zu", a, b, (size_t)l); } break; }
        case 18: case 19: if (a) throw Abort(); s = ZyanStringClear(o.s); w.clear(); break;
        }
        if (!ok) { failed(s, N[op]); CHECK(o.cap() == cp, "the capacity changed from %zu to %zu by a refused operation", cp, o.cap()); }
        else { CHECK(!ZYAN_FAILED(s), "%s failed with %s", N[op], st_name(s)); o.m = w; }
        sv.unchanged(); nd.unchanged(); o.verify(); if (!c.fixed || o.m.size() + 2 <= c.fixcap) o.append("!"); o.destroy();
    }); });
}
static void bitsets(BitCfg c0, std::vector<size_t> sizes) {
    task("bitset " + c0.str(), [=]() { dfs([&]() {
        BitObj o; o.c = c0; size_t n = sizes[choose((int)sizes.size())]; o.c.n0 = n; if (c0.fixed && B8(n) > c0.fixcap) throw Abort(); o.init();
        for (size_t i = 0; i < n; i += 2) o.one(0, i);
        std::vector<size_t> V = vals(n, o.cap(), 8); for (size_t k : {(size_t)MX / 8, MX / 8 + 1, MX - 6, MX - 9, (size_t)8 * 100}) V.push_back(k);
        int op = choose(8); size_t a = V[choose((int)V.size())]; ZyanStatus s = 0; bool ok = a < n; auto w = o.m; size_t cp = o.cap();
        static const char* N[] = {"set", "reset", "assign 1", "assign 0", "toggle", "test", "reserve", "pop"}; text("%s(%zu) ", N[op], a); o.pre();
        switch (op) {
        case 0: s = ZyanBitsetSet(o.b, a); if (ok) w[a] = 1; break; case 1: s = ZyanBitsetReset(o.b, a); if (ok) w[a] = 0; break;
        case 2: s = ZyanBitsetAssign(o.b, a, ZYAN_TRUE); if (ok) w[a] = 1; break; case 3: s = ZyanBitsetAssign(o.b, a, ZYAN_FALSE); if (ok) w[a] = 0; break;
        case 4: s = ZyanBitsetToggle(o.b, a); if (ok) w[a] ^= 1; break;
        case 5: s = ZyanBitsetTest(o.b, a); if (ok) CHECK(s == (w[a] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "bit %zu reads %s", a, st_name(s)); break;
        case 6: s = ZyanBitsetReserve(o.b, a); ok = c0.fixed ? B8(a) <= c0.fixcap : a <= cp || B8(a) <= o.t.refuse_above; if (ok) CHECK(o.cap() >= a, "capacity %zu after reserving %zu bits", o.cap(), a); break;
        case 7: if (a) throw Abort(); s = ZyanBitsetPop(o.b); ok = n > 0; if (ok) w.pop_back(); break;
        }
        if (!ok) { failed(s, N[op]); CHECK(o.cap() == cp, "the capacity changed by a refused operation"); } else { CHECK(!ZYAN_FAILED(s), "%s failed with %s", N[op], st_name(s)); o.m = w; }
        o.verify(); if (!c0.fixed || o.m.size() < c0.fixcap * 8) o.push(1); o.destroy();
    }); });
}
static void lists(ListCfg c, std::vector<size_t> sizes) {
    task("list " + c.str(), [=]() { dfs([&]() {
        ListObj o; o.c = c; o.ck = CK_CONTENT | CK_DTOR; o.init(); size_t n = sizes[choose((int)sizes.size())]; if (c.fixed && n > c.slots) throw Abort();
        for (size_t i = 0; i < n; i++) o.push(i & 1, (uint32_t)(60 + i));
        std::vector<size_t> V = vals(n, c.fixed ? c.slots : n, sizeof(ZyanListNode) + c.es); size_t a = V[choose((int)V.size())]; bool ini = choose(2); text("resize(%zu%s) ", a, ini ? ",initializer" : "");
        std::vector<uint8_t> e(c.es); el_fill(e.data(), c.es, 7); o.dead.clear(); int budget = 300; o.t.refuse = [&]() { return budget-- <= 0; };
        ZyanStatus s = ini ? ZyanListResizeEx(o.l, a, e.data()) : ZyanListResize(o.l, a); bool ok = c.fixed ? a <= c.slots : a <= n + 300; o.t.refuse = nullptr;
        if (!ok) { failed(s, "resize"); o.check_dead({}, "by a refused operation"); }
        else {
            CHECK(!ZYAN_FAILED(s), "resize failed with %s", st_name(s)); std::vector<uint32_t> rem; for (size_t i = a; i < n; i++) rem.push_back(o.m[i].v); o.check_dead(rem, "by resize"); o.m.resize(a, {7, nullptr});
            if (!ini) { const ZyanListNode* p = o.head(); for (size_t i = 0; p && i < a; i++) { if (i >= n) el_fill((uint8_t*)ZyanListGetNodeDataMutable((ZyanListNode*)p), c.es, 7); ZyanListGetNextNode(&p); } }
        }
        o.verify(); if (!c.fixed || o.m.size() < c.slots) o.push(true, 99); o.destroy();
    }); });
}
// creation with extreme capacities and sizes, duplicates and concatenations with extreme capacities
static void creation() {
    task("creation", []() { dfs([&]() {
        Tracker t; std::vector<size_t> V = vals(3, 4, 8); int what = choose(12); size_t a = V[choose((int)V.size())], es = 8; int growth = 1 + choose(3);
        if (what == 0 || what == 1) { size_t E[6] = {1, 8, 3, 255, 4096, ((size_t)1 << 20)}; es = E[choose(6)]; }
        text("creation kind %d, capacity %zu, element size %zu, growth %d ", what, a, es, growth);
        VecObj sv; sv.c.cap0 = 4; sv.c.es = es; sv.init(); for (int i = 0; i < 3; i++) sv.push((uint32_t)i + 1); SrcView s1("abc"), s2("de"); heap::forbidden() = true;
        ZyanVector v; ZyanString s; ZyanBitset b; memset(&v, junk(0xEE), sizeof v); memset(&s, junk(0xEE), sizeof s); memset(&b, junk(0xEE), sizeof b); ZyanStatus st = 0; size_t need = 0, unit = 1; int kind = 0; Guarded g; bool buf = false;
        switch (what) {
        case 0: st = ZyanVectorInitEx(&v, es, a, nullptr, &t.base, (ZyanU8)growth, 0); need = std::max<size_t>(1, a); unit = es; break;
        case 1: st = ZyanVectorDuplicateEx(&v, sv.v, a, &t.base, (ZyanU8)growth, 0); need = std::max<size_t>(3, a); unit = es; break;
        case 2: kind = 1; st = ZyanStringInitEx(&s, a, &t.base, (ZyanU8)growth, 0); need = a; break;
        case 3: kind = 1; st = ZyanStringDuplicateEx(&s, &s1.v, a, &t.base, (ZyanU8)growth, 0); need = std::max<size_t>(3, a); break;
        case 4: kind = 1; st = ZyanStringConcatEx(&s, &s1.v, &s2.v, a, &t.base, (ZyanU8)growth, 0); need = std::max<size_t>(5, a); break;
        case 5: kind = 2; st = ZyanBitsetInitEx(&b, a, &t.base, (ZyanU8)growth, 0); need = a; break;
        default: { // caller-supplied buffers that are too small
            if (a > 40) throw Abort(); buf = true; g.init(a ? a * (what < 8 ? es : 1) : 1);
            if (what == 6) { st = ZyanVectorInitCustomBuffer(&v, es, g.p, a, nullptr); need = 1; } else if (what == 7) { st = ZyanVectorDuplicateCustomBuffer(&v, sv.v, g.p, a); need = 3; }
            else if (what == 8) { kind = 1; st = ZyanStringInitCustomBuffer(&s, (char*)g.p, a); need = 1; } else if (what == 9) { kind = 1; st = ZyanStringDuplicateCustomBuffer(&s, &s1.v, (char*)g.p, a); need = 4; } else if (what == 10) { kind = 1; st = ZyanStringConcatCustomBuffer(&s, &s1.v, &s2.v, (char*)g.p, a); need = 6; }
            else { kind = 2; size_t n = 11; st = ZyanBitsetInitBuffer(&b, n, g.p, a); need = 2; }
            if (a < need) failed(st, "creation in a buffer that is too small"); else CHECK(!ZYAN_FAILED(st), "creation in a large enough buffer failed with %s", st_name(st)); }
        }
        if (!buf) {
            u128 bytes = (u128)need * unit; bool must = kind == 2 ? need / 8 + 1 <= BIG : bytes <= BIG, cannot = kind == 2 ? need / 8 > ((size_t)1 << 27) : bytes > ((size_t)1 << 27);
            if (must) CHECK(!ZYAN_FAILED(st), "creation with capacity %zu failed with %s", a, st_name(st));
            if (cannot) failed(st, "creation");
            if (ZYAN_FAILED(st)) t.expect_no_leak("after a failed creation");
        }
        if (!ZYAN_FAILED(st)) {
            ZyanUSize cp = 0; if (kind == 0) { CHECK(ZyanVectorGetCapacity(&v, &cp) == ZYAN_STATUS_SUCCESS && cp >= a, "capacity %zu, requested %zu", (size_t)cp, a); st = ZyanVectorDestroy(&v); }
            else if (kind == 1) { CHECK(ZyanStringGetCapacity(&s, &cp) == ZYAN_STATUS_SUCCESS && (buf ? cp == a - 1 : cp >= a), "capacity %zu, requested %zu", (size_t)cp, a); st = ZyanStringDestroy(&s); }
            else { CHECK(ZyanBitsetGetSize(&b, &cp) == ZYAN_STATUS_SUCCESS && (buf || cp == a), "size %zu, requested %zu", (size_t)cp, a); if (!buf && a) CHECK(ZyanBitsetSet(&b, a - 1) == ZYAN_STATUS_SUCCESS && ZyanBitsetTest(&b, a - 1) == ZYAN_STATUS_TRUE, "last bit not settable"); st = ZyanBitsetDestroy(&b); }
            CHECK(st == ZYAN_STATUS_SUCCESS, "destruction failed"); t.expect_no_leak("after destruction");
        }
        g.release(); sv.verify(); sv.destroy(); s1.unchanged(); s2.unchanged();
    }); });
}
static void nulls() {
    task("null objects", []() { dfs([&]() {
        Tracker t; heap::reset(); heap::forbidden() = true; VecObj vo; vo.init(); vo.push(1); StrObj so; so.init(); so.append("abc"); BitObj bo; bo.init(); bo.push(1); ListObj lo; lo.init(); lo.push(true, 5); SrcView sv("abc");
        ZyanUSize z = 5; ZyanISize iz = 5; const void* cp = nullptr; void* p = nullptr; const char* cc = nullptr; char* mc_ = nullptr; char ch = 0; ZyanI32 i32 = 0; uint8_t e[64] = {0}; const ZyanListNode* nd = lo.head(); const ZyanListNode* nn = nullptr; char buf[16]; ZyanVector v2; ZyanString s2; ZyanBitset b2; ZyanList l2; ZyanStringView w2;
        auto eq = [](const void*, const void*) { return (ZyanBool)1; }; auto cmp = [](const void*, const void*) { return (ZyanI32)0; }; auto byteop = [](ZyanU8* a, const ZyanU8* b) { *a = *b; return (ZyanStatus)ZYAN_STATUS_SUCCESS; };
        ZyanVector* V = nullptr; ZyanString* S = nullptr; ZyanBitset* B = nullptr; ZyanList* L = nullptr; ZyanStringView* W = nullptr; ZyanAllocator* al = &t.base;
        struct Case { const char* n; std::function<ZyanStatus()> f; };
#define N(x) {#x, [&]() -> ZyanStatus { return x; }}
        static ZyanAllocator na; ZyanAllocatorAllocate fa = t.base.allocate, fr = t.base.reallocate; ZyanAllocatorDeallocate fd = t.base.deallocate;
        std::vector<Case> C = {
            N(ZyanAllocatorInit(nullptr, fa, fr, fd)), N(ZyanAllocatorInit(&na, nullptr, fr, fd)), N(ZyanAllocatorInit(&na, fa, nullptr, fd)), N(ZyanAllocatorInit(&na, fa, fr, nullptr)),
            N(ZyanVectorInitEx(V, 4, 1, nullptr, al, 2, 4)), N(ZyanVectorInitEx(&v2, 4, 1, nullptr, nullptr, 2, 4)), N(ZyanVectorInitCustomBuffer(V, 4, buf, 2, nullptr)), N(ZyanVectorInitCustomBuffer(&v2, 4, nullptr, 2, nullptr)), N(ZyanVectorDestroy(V)),
            N(ZyanVectorDuplicateEx(V, vo.v, 1, al, 2, 4)), N(ZyanVectorDuplicateEx(&v2, V, 1, al, 2, 4)), N(ZyanVectorDuplicateCustomBuffer(V, vo.v, buf, 2)), N(ZyanVectorDuplicateCustomBuffer(&v2, V, buf, 2)), N(ZyanVectorDuplicate(&v2, V, 1)),
            N(ZyanVectorGetPointer(V, 0, &cp)), N(ZyanVectorGetPointerMutable(V, 0, &p)), N(ZyanVectorSet(V, 0, e)), N(ZyanVectorPushBack(V, e)), N(ZyanVectorInsert(V, 0, e)), N(ZyanVectorInsertRange(V, 0, e, 1)), N(ZyanVectorEmplace(V, &p, nullptr)), N(ZyanVectorEmplaceEx(V, 0, &p, nullptr)),
            N(ZyanVectorSwapElements(V, 0, 0)), N(ZyanVectorDelete(V, 0)), N(ZyanVectorDeleteRange(V, 0, 1)), N(ZyanVectorPopBack(V)), N(ZyanVectorClear(V)), N(ZyanVectorFind(V, e, &iz, eq)), N(ZyanVectorFindEx(V, e, &iz, eq, 0, 1)), N(ZyanVectorBinarySearch(V, e, &z, cmp)), N(ZyanVectorBinarySearchEx(V, e, &z, cmp, 0, 1)),
            N(ZyanVectorResize(V, 1)), N(ZyanVectorResizeEx(V, 1, e)), N(ZyanVectorReserve(V, 1)), N(ZyanVectorShrinkToFit(V)), N(ZyanVectorGetCapacity(V, &z)), N(ZyanVectorGetSize(V, &z)),
            N(ZyanStringInitEx(S, 1, al, 2, 4)), N(ZyanStringInitEx(&s2, 1, nullptr, 2, 4)), N(ZyanStringInitCustomBuffer(S, buf, 4)), N(ZyanStringInitCustomBuffer(&s2, nullptr, 4)), N(ZyanStringDestroy(S)), N(ZyanStringDuplicateEx(S, &sv.v, 1, al, 2, 4)), N(ZyanStringDuplicateEx(&s2, W, 1, al, 2, 4)), N(ZyanStringDuplicateCustomBuffer(&s2, W, buf, 9)), N(ZyanStringDuplicateCustomBuffer(S, &sv.v, buf, 9)), N(ZyanStringDuplicate(&s2, W, 1)),
            N(ZyanStringConcatEx(S, &sv.v, &sv.v, 1, al, 2, 4)), N(ZyanStringConcatEx(&s2, W, &sv.v, 1, al, 2, 4)), N(ZyanStringConcatEx(&s2, &sv.v, W, 1, al, 2, 4)), N(ZyanStringConcatCustomBuffer(&s2, W, &sv.v, buf, 9)), N(ZyanStringConcatCustomBuffer(&s2, &sv.v, W, buf, 9)), N(ZyanStringConcatCustomBuffer(S, &sv.v, &sv.v, buf, 9)),
            N(ZyanStringViewInsideView(W, &sv.v)), N(ZyanStringViewInsideView(&w2, W)), N(ZyanStringViewInsideViewEx(W, &sv.v, 0, 1)), N(ZyanStringViewInsideViewEx(&w2, W, 0, 1)), N(ZyanStringViewInsideBuffer(W, "a")), N(ZyanStringViewInsideBuffer(&w2, nullptr)), N(ZyanStringViewInsideBufferEx(W, "a", 1)), N(ZyanStringViewInsideBufferEx(&w2, nullptr, 1)), N(ZyanStringViewGetSize(W, &z)), N(ZyanStringViewGetData(W, &cc)),
            N(ZyanStringGetChar(W, 0, &ch)), N(ZyanStringGetCharMutable(S, 0, &mc_)), N(ZyanStringSetChar(S, 0, 'a')), N(ZyanStringInsert(S, 0, &sv.v)), N(ZyanStringInsert(so.s, 0, W)), N(ZyanStringInsertEx(S, 0, &sv.v, 0, 1)), N(ZyanStringInsertEx(so.s, 0, W, 0, 1)), N(ZyanStringAppend(S, &sv.v)), N(ZyanStringAppend(so.s, W)), N(ZyanStringAppendEx(S, &sv.v, 0, 1)), N(ZyanStringAppendEx(so.s, W, 0, 1)),
            N(ZyanStringDelete(S, 0, 1)), N(ZyanStringTruncate(S, 0)), N(ZyanStringClear(S)), N(ZyanStringLPos(W, &sv.v, &iz)), N(ZyanStringLPos(&sv.v, W, &iz)), N(ZyanStringLPosI(W, &sv.v, &iz)), N(ZyanStringLPosI(&sv.v, W, &iz)), N(ZyanStringRPos(W, &sv.v, &iz)), N(ZyanStringRPos(&sv.v, W, &iz)), N(ZyanStringRPosI(W, &sv.v, &iz)), N(ZyanStringRPosI(&sv.v, W, &iz)),
            N(ZyanStringLPosEx(W, &sv.v, &iz, 0, 1)), N(ZyanStringLPosEx(&sv.v, W, &iz, 0, 1)), N(ZyanStringLPosIEx(W, &sv.v, &iz, 0, 1)), N(ZyanStringLPosIEx(&sv.v, W, &iz, 0, 1)), N(ZyanStringRPosEx(W, &sv.v, &iz, 0, 1)), N(ZyanStringRPosEx(&sv.v, W, &iz, 0, 1)), N(ZyanStringRPosIEx(W, &sv.v, &iz, 0, 1)), N(ZyanStringRPosIEx(&sv.v, W, &iz, 0, 1)),
            N(ZyanStringCompare(W, &sv.v, &i32)), N(ZyanStringCompare(&sv.v, W, &i32)), N(ZyanStringCompareI(W, &sv.v, &i32)), N(ZyanStringCompareI(&sv.v, W, &i32)), N(ZyanStringToLowerCase(S)), N(ZyanStringToUpperCase(S)), N(ZyanStringToLowerCaseEx(S, 0, 1)), N(ZyanStringToUpperCaseEx(S, 0, 1)), N(ZyanStringResize(S, 1)), N(ZyanStringReserve(S, 1)), N(ZyanStringShrinkToFit(S)), N(ZyanStringGetCapacity(S, &z)), N(ZyanStringGetSize(S, &z)), N(ZyanStringGetData(S, &cc)),
            N(ZyanStringAppendFormat(S, "x")), N(ZyanStringAppendDecU(S, 1, 0)), N(ZyanStringAppendDecS(S, 1, 0, ZYAN_FALSE, nullptr)), N(ZyanStringAppendDecS(S, -1, 0, ZYAN_FALSE, nullptr)), N(ZyanStringAppendHexU(S, 1, 0, ZYAN_FALSE)), N(ZyanStringAppendHexS(S, 1, 0, ZYAN_FALSE, ZYAN_FALSE, nullptr)), N(ZyanStringAppendHexS(S, -1, 0, ZYAN_FALSE, ZYAN_FALSE, nullptr)),
            N(ZyanBitsetInitEx(B, 1, al, 2, 2)), N(ZyanBitsetInitEx(&b2, 1, nullptr, 2, 2)), N(ZyanBitsetInitBuffer(B, 1, buf, 4)), N(ZyanBitsetInitBuffer(&b2, 1, nullptr, 4)), N(ZyanBitsetDestroy(B)), N(ZyanBitsetPerformByteOperation(B, bo.b, byteop)), N(ZyanBitsetPerformByteOperation(bo.b, B, byteop)), N(ZyanBitsetPerformByteOperation(bo.b, bo.b, nullptr)), N(ZyanBitsetAND(B, bo.b)), N(ZyanBitsetAND(bo.b, B)), N(ZyanBitsetOR(B, bo.b)), N(ZyanBitsetOR(bo.b, B)), N(ZyanBitsetXOR(B, bo.b)), N(ZyanBitsetXOR(bo.b, B)), N(ZyanBitsetFlip(B)),
            N(ZyanBitsetSet(B, 0)), N(ZyanBitsetReset(B, 0)), N(ZyanBitsetAssign(B, 0, 1)), N(ZyanBitsetAssign(B, 0, 0)), N(ZyanBitsetToggle(B, 0)), N(ZyanBitsetTest(B, 0)), N(ZyanBitsetTestMSB(B)), N(ZyanBitsetTestLSB(B)), N(ZyanBitsetSetAll(B)), N(ZyanBitsetResetAll(B)), N(ZyanBitsetPush(B, 1)), N(ZyanBitsetPop(B)), N(ZyanBitsetClear(B)), N(ZyanBitsetReserve(B, 1)), N(ZyanBitsetShrinkToFit(B)), N(ZyanBitsetGetSize(B, &z)), N(ZyanBitsetGetCapacity(B, &z)), N(ZyanBitsetGetSizeBytes(B, &z)), N(ZyanBitsetGetCapacityBytes(B, &z)), N(ZyanBitsetCount(B, &z)), N(ZyanBitsetAll(B)), N(ZyanBitsetAny(B)), N(ZyanBitsetNone(B)),
            N(ZyanListInitEx(L, 4, nullptr, al)), N(ZyanListInitEx(&l2, 4, nullptr, nullptr)), N(ZyanListInitCustomBuffer(L, 4, nullptr, buf, 16)), N(ZyanListInitCustomBuffer(&l2, 4, nullptr, nullptr, 16)), N(ZyanListDestroy(L)), N(ZyanListGetHeadNode(L, &nn)), N(ZyanListGetTailNode(L, &nn)), N(ZyanListGetPrevNode(nullptr)), N(ZyanListGetNextNode(nullptr)), N(ZyanListGetNodeDataEx(nullptr, &cp)), N(ZyanListGetNodeDataMutableEx(nullptr, &p)), N(ZyanListSetNodeData(L, nd, e)), N(ZyanListSetNodeData(lo.l, nullptr, e)), N((nn = nullptr, ZyanListGetNextNode(&nn))), N((nn = nullptr, ZyanListGetPrevNode(&nn))),
            N(ZyanListPushBack(L, e)), N(ZyanListPushFront(L, e)), N(ZyanListEmplaceBack(L, &p, nullptr)), N(ZyanListEmplaceFront(L, &p, nullptr)), N(ZyanListPopBack(L)), N(ZyanListPopFront(L)), N(ZyanListRemove(L, nd)), N(ZyanListRemove(lo.l, nullptr)), N(ZyanListRemoveRange(L, nd, nd)), N(ZyanListRemoveRange(lo.l, nullptr, nd)), N(ZyanListRemoveRange(lo.l, nd, nullptr)), N(ZyanListClear(L)), N(ZyanListResize(L, 1)), N(ZyanListResizeEx(L, 1, e)), N(ZyanListGetSize(L, &z)),
            // other mandatory pointers
            N(ZyanVectorGetPointer(vo.v, 0, nullptr)), N(ZyanVectorGetPointerMutable(vo.v, 0, nullptr)), N(ZyanVectorSet(vo.v, 0, nullptr)), N(ZyanVectorPushBack(vo.v, nullptr)), N(ZyanVectorInsert(vo.v, 0, nullptr)), N(ZyanVectorInsertRange(vo.v, 0, nullptr, 1)),
            
            
            N(ZyanStringGetChar(&sv.v, 0, nullptr)), N(ZyanStringGetCharMutable(so.s, 0, nullptr)), N(ZyanStringViewGetSize(&sv.v, nullptr)), N(ZyanStringViewGetData(&sv.v, nullptr)),
            N(ZyanStringLPos(&sv.v, &sv.v, nullptr)), N(ZyanStringLPosI(&sv.v, &sv.v, nullptr)), N(ZyanStringRPos(&sv.v, &sv.v, nullptr)), N(ZyanStringRPosI(&sv.v, &sv.v, nullptr)), N(ZyanStringLPosEx(&sv.v, &sv.v, nullptr, 0, 1)), N(ZyanStringLPosIEx(&sv.v, &sv.v, nullptr, 0, 1)), N(ZyanStringRPosEx(&sv.v, &sv.v, nullptr, 1, 1)), N(ZyanStringRPosIEx(&sv.v, &sv.v, nullptr, 1, 1)), 
            N(ZyanBitsetCount(bo.b, nullptr)),
            N(ZyanListSetNodeData(lo.l, nd, nullptr)), N(ZyanListPushBack(lo.l, nullptr)), N(ZyanListPushFront(lo.l, nullptr)), N(ZyanListEmplaceBack(lo.l, nullptr, nullptr)), N(ZyanListEmplaceFront(lo.l, nullptr, nullptr)), 
        };
        const Case& c = C[choose((int)C.size())]; text("%s ", c.n); t.refuse = []() { fail("allocation requested for a null object"); return true; };
        ZyanStatus s = c.f(); CHECK(s == ZYAN_STATUS_INVALID_ARGUMENT, "null object: status %s", st_name(s));
        CHECK(!ZyanVectorGet(V, 0) && !ZyanVectorGetMutable(V, 0) && !ZyanListGetNodeData(nullptr) && !ZyanListGetNodeDataMutable(nullptr), "element of a null object");
        vo.verify(); so.verify(); bo.verify(); lo.verify(); vo.destroy(); so.destroy(); bo.destroy(); lo.destroy();
    }); });
}
int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough; std::vector<size_t> S = {0, 1, 3, 6}; if (T) S = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17};
        auto vd = [](size_t es, int g, int t, size_t c0, bool d) { VecCfg c; c.es = es; c.growth = g; c.thr = t; c.cap0 = c0; c.dtor = d; return c; };
        auto vf = [](size_t es, size_t n, bool d) { VecCfg c; c.es = es; c.fixed = true; c.fixcap = n; c.dtor = d; return c; };
        size_t es[] = {4, 1, 8, 3, 16, 24}; int g[] = {2, 1, 3, 255, 2, 1}, th[] = {4, 0, 1, 255, 0, 1}; size_t c0[] = {0, 4, 8, 1, 6, 3};
        for (int i = 0; i < 6; i++) vectors(vd(es[i], g[i], th[i], c0[i], es[i] >= 4 && i % 2 == 0), S);
        for (size_t k : {1, 3, 6, 7}) vectors(vf(k == 3 ? 8 : 4, k, k == 6), S);
        for (int i = 0; i < 5; i++) { StrCfg c; c.growth = g[i]; c.thr = th[i]; c.cap0 = c0[i] * 8; strings(c, S); }
        for (size_t k : {1, 2, 4, 7, 10}) { StrCfg c; c.fixed = true; c.fixcap = k; strings(c, S); }
        for (int i = 0; i < 4; i++) { BitCfg c; c.growth = g[i]; c.thr = i == 3 ? 255 : th[i] % 3; bitsets(c, {0, 1, 7, 8, 9, 20}); }
        for (size_t k : {1, 2, 3}) { BitCfg c; c.fixed = true; c.fixcap = k; bitsets(c, {0, 1, 7, 8, 9, 16, 20, 24}); }
        for (size_t e : {1, 4, 8, 40}) { ListCfg c; c.es = e; c.dtor = e == 8; lists(c, S); c.fixed = true; c.slots = 4; c.extra = e == 4 ? 11 : 0; lists(c, S); c.slots = 1; lists(c, {0, 1}); }
        creation(); nulls();
    });
}
