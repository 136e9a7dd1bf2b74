// Explorer for C22: the no-libc routines against the C library, over all small arguments.
#include "zy.hpp"
#include <string.h>
#include <memory>
using namespace mc;
extern "C" {
void* nl_memchr(const void*, int, size_t); int nl_memcmp(const void*, const void*, size_t); void* nl_memcpy(void*, const void*, size_t); void* nl_memmove(void*, const void*, size_t); void* nl_memset(void*, int, size_t);
char* nl_strcat(char*, const char*); char* nl_strchr(const char*, int); int nl_strcmp(const char*, const char*); int nl_strcoll(const char*, const char*); char* nl_strcpy(char*, const char*); size_t nl_strcspn(const char*, const char*); size_t nl_strlen(const char*);
char* nl_strncat(char*, const char*, size_t); int nl_strncmp(const char*, const char*, size_t); char* nl_strncpy(char*, const char*, size_t); char* nl_strpbrk(const char*, const char*); char* nl_strrchr(const char*, int); size_t nl_strspn(const char*, const char*); char* nl_strstr(const char*, const char*); char* nl_strtok(char*, const char*); size_t nl_strxfrm(char*, const char*, size_t); long nl_va(int, ...);
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static std::string hex(const std::string& s) { std::string o = "\""; char b[8]; for (unsigned char c : s) { if (c > 32 && c < 127) o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return o + "\""; }
// exact-size, poisoned on both sides
struct Buf { Guarded g; Buf(const std::string& s) { g.init(s.size()); memcpy(g.p, s.data(), s.size()); } char* c() { return (char*)g.p; } std::string str() { return std::string(c(), g.n); } };
static std::string Z(const std::string& s) { return s + std::string(1, '\0'); }
static std::vector<std::string> all(const std::string& al, size_t maxlen) {
    std::vector<std::string> v = {""}; size_t b = 0;
    for (size_t l = 1; l <= maxlen; l++) { size_t e = v.size(); for (size_t i = b; i < e; i++) for (char c : al) v.push_back(v[i] + c); b = e; }
    return v;
}
static long off(const void* p, const void* base) { return p ? (long)((const char*)p - (const char*)base) : -1L; }
#define OFF off
static uint64_t K, IN; // calls compared, arguments tried
static void flush() { count_outcomes(K, IN); K = IN = 0; }
#define EQ(what, a, b) do { K++;  long long x_ = (long long)(a), y_ = (long long)(b); outcome((uint64_t)(uintptr_t)what, (uint64_t)x_); if (x_ != y_) fail("%s: %lld, the C library function gives %lld", what, x_, y_); } while (0)
static const int CH[] = {0, 'a', 'b', 'c', 0x80, 0xFF, -1, -128, 'a' + 256, 'b' - 512, 256, 0x1FF};

int main(int argc, char** argv) {
    return main_(argc, argv, [] {
        bool T = E().thorough;
        auto S = std::make_shared<std::vector<std::string>>(all(std::string("ab\x80\xff", 4), T ? 5 : 4));
        auto S3 = std::make_shared<std::vector<std::string>>(all("ab", T ? 8 : 7));
        auto two = [](const std::string& a, const std::string& b, Buf& A, Buf& B) {
            IN++; text_reset(); text("s1=%s s2=%s ", hex(a).c_str(), hex(b).c_str());
            EQ("strcmp", sgn(nl_strcmp(A.c(), B.c())), sgn(strcmp(A.c(), B.c())));
            EQ("strcoll", sgn(nl_strcoll(A.c(), B.c())), sgn(strcmp(A.c(), B.c())));
            EQ("strspn", nl_strspn(A.c(), B.c()), strspn(A.c(), B.c()));
            EQ("strcspn", nl_strcspn(A.c(), B.c()), strcspn(A.c(), B.c()));
            EQ("strpbrk", OFF(nl_strpbrk(A.c(), B.c()), A.c()), OFF(strpbrk(A.c(), B.c()), A.c()));
            EQ("strstr", OFF(nl_strstr(A.c(), B.c()), A.c()), OFF(strstr(A.c(), B.c()), A.c()));
            for (size_t n = 0; n <= std::max(a.size(), b.size()) + 2; n++) EQ("strncmp", sgn(nl_strncmp(A.c(), B.c(), n)), sgn(strncmp(A.c(), B.c(), n)));
            EQ("strncmp", sgn(nl_strncmp(A.c(), B.c(), ~(size_t)0)), sgn(strcmp(A.c(), B.c())));
            size_t m = std::min(a.size(), b.size()); for (size_t n = 0; n <= m; n++) EQ("memcmp", sgn(nl_memcmp(A.c(), B.c(), n)), sgn(memcmp(A.c(), B.c(), n)));
        };
        for (int sh = 0; sh < 32; sh++) {
            task("string pairs " + std::to_string(sh), [=] { K = 0; for (size_t i = (size_t)sh; i < S->size(); i += 32) { beat(); Buf A(Z((*S)[i])); for (auto& b : *S) { Buf B(Z(b)); two((*S)[i], b, A, B); } } flush(); });
            task("binary string pairs " + std::to_string(sh), [=] { K = 0; for (size_t i = (size_t)sh; i < S3->size(); i += 32) { beat(); Buf A(Z((*S3)[i])); for (auto& b : *S3) { Buf B(Z(b)); two((*S3)[i], b, A, B); } } flush(); });
        }
        // character arrays that are not terminated: only n bytes are readable
        task("unterminated arrays", [=] { K = 0; auto V = all(std::string("a\0\xff", 3), 4); for (auto& a : V) { beat(); for (auto& b : V) {
            Buf A(a), B(b); IN++; text_reset(); text("array1=%s array2=%s ", hex(a).c_str(), hex(b).c_str()); size_t m = std::min(a.size(), b.size());
            for (size_t n = 0; n <= m; n++) { EQ("strncmp", sgn(nl_strncmp(A.c(), B.c(), n)), sgn(strncmp(a.data(), b.data(), n))); EQ("memcmp", sgn(nl_memcmp(A.c(), B.c(), n)), sgn(memcmp(a.data(), b.data(), n))); }
            // memcmp may stop at the first difference, strncmp at the terminator
        } for (int c : CH) { Buf A(a); for (size_t n = 0; n <= a.size(); n++) EQ("memchr", OFF(nl_memchr(A.c(), c, n), A.c()), OFF(memchr(a.data(), c, n), a.data())); } } flush(); });
        task("one string", [=] { K = 0; for (auto& a : *S) { beat(); Buf A(Z(a)); IN++; text_reset(); text("s=%s ", hex(a).c_str());
            EQ("strlen", nl_strlen(A.c()), strlen(A.c()));
            for (int c : CH) { EQ("strchr", OFF(nl_strchr(A.c(), c), A.c()), OFF(strchr(A.c(), c), A.c())); EQ("strrchr", OFF(nl_strrchr(A.c(), c), A.c()), OFF(strrchr(A.c(), c), A.c())); }
            EQ("contents", A.str() == Z(a), 1); } flush(); });
        // copies and concatenations: destination of exactly the size the standard requires
        auto cmpbuf = [](const char* f, Buf& x, const std::string& want) { K++; outcome((uint64_t)(uintptr_t)f, std::hash<std::string>()(x.str())); if (x.str() != want) fail("%s left %s, expected %s", f, hex(x.str()).c_str(), hex(want).c_str()); };
        task("copies", [=] { K = 0; auto V = all(std::string("ab\xff", 3), 4); for (auto& a : V) { beat(); for (auto& d : V) {
            IN++; text_reset(); text("dest=%s src=%s ", hex(d).c_str(), hex(a).c_str()); Buf A(Z(a));
            { Buf D(std::string(a.size() + 1, 'Q')); EQ("strcpy result", OFF(nl_strcpy(D.c(), A.c()), D.c()), 0); cmpbuf("strcpy", D, Z(a)); }
            { Buf D(Z(d) + std::string(a.size(), 'Q')); EQ("strcat result", OFF(nl_strcat(D.c(), A.c()), D.c()), 0); cmpbuf("strcat", D, Z(d + a)); }
            for (size_t n = 0; n <= a.size() + 2; n++) {
                size_t k = std::min(n, a.size()); Buf A2(n <= a.size() ? a.substr(0, n) : Z(a)); // only n characters readable
                { Buf D(Z(d) + std::string(k, 'Q')); EQ("strncat result", OFF(nl_strncat(D.c(), A2.c(), n), D.c()), 0); cmpbuf("strncat", D, Z(d + a.substr(0, k))); }
                { Buf D(std::string(n, 'Q')); EQ("strncpy result", OFF(nl_strncpy(D.c(), A2.c(), n), D.c()), 0); std::string w = a.substr(0, k); w.resize(n, '\0'); cmpbuf("strncpy", D, w); }
                { Buf D(std::string(std::max<size_t>(n, 1), 'Q')); EQ("strxfrm", nl_strxfrm(D.c(), A.c(), n), a.size()); if (a.size() < n) { K++; if (D.str().substr(0, a.size() + 1) != Z(a)) fail("strxfrm result is wrong"); } }
            }
            { Buf D(Z(d) + std::string(a.size(), 'Q')); nl_strncat(D.c(), A.c(), ~(size_t)0); cmpbuf("strncat", D, Z(d + a)); }
            cmpbuf("source", A, Z(a));
        } } flush(); });
        size_t R = T ? 40 : 24;
        task("memory", [=] { K = 0; std::string base; for (size_t i = 0; i < R; i++) base += (char)(i * 37 + 200);
            for (size_t n = 0; n <= R; n++) for (size_t d = 0; d + n <= R; d++) { beat();
                for (size_t s = 0; s + n <= R; s++) {
                    IN++; text_reset(); text("dst offset %zu, src offset %zu, n %zu ", d, s, n); std::string w = base; memmove(&w[d], base.data() + s, n);
                    Buf x(base); EQ("memmove result", OFF(nl_memmove(x.c() + d, x.c() + s, n), x.c()), d); cmpbuf("memmove", x, w);
                    if (d >= s + n || s >= d + n) { Buf y(base); EQ("memcpy result", OFF(nl_memcpy(y.c() + d, y.c() + s, n), y.c()), d); cmpbuf("memcpy", y, w); }
                }
                for (int c : {0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x1FF, -1, -128, 0x12345678}) { IN++; text_reset(); text("memset at %zu, value %d, n %zu ", d, c, n); std::string w = base; memset(&w[d], c, n); Buf x(base); EQ("memset result", OFF(nl_memset(x.c() + d, c, n), x.c()), d); cmpbuf("memset", x, w); }
            } flush(); });
        for (int sh = 0; sh < 8; sh++) task("strtok " + std::to_string(sh), [=] { auto V = std::make_shared<std::vector<std::string>>(all("a,;", T ? 7 : 6)); static const char* DL[] = {",", ";", ",;", "", "a,"};
            K = 0; for (size_t i = (size_t)sh; i < V->size(); i += 8) { beat(); for (int k = 0; k < 125; k++) {
                const std::string& a = (*V)[i]; Buf X(Z(a)), Y(Z(a)); char* save = nullptr; IN++; text_reset(); text("strtok of %s, delimiters %s then %s then %s ", hex(a).c_str(), hex(DL[k % 5]).c_str(), hex(DL[k / 5 % 5]).c_str(), hex(DL[k / 25]).c_str());
                for (int c = 0; c < 9; c++) { const char* dl = DL[c == 0 ? k % 5 : c == 1 ? k / 5 % 5 : k / 25]; Buf D(Z(dl)); char* x = nl_strtok(c ? nullptr : X.c(), D.c()); char* y = strtok_r(c ? nullptr : Y.c(), dl, &save); EQ("strtok token", OFF(x, X.c()), OFF(y, Y.c())); if (!y) break; if (strcmp(x, y)) fail("strtok token is %s, expected %s", hex(x).c_str(), hex(y).c_str()); }
                cmpbuf("strtok", X, Y.str());
            } } flush(); });
        // ---- longer arguments: every alignment, every place of the deciding byte, sizes around those of words, vectors and 8/16-bit counts
        static const size_t LONG[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 34, 40, 47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130, 191, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 32767, 32769, 65535, 65536, 65537};
        auto places = [](size_t n) { std::vector<size_t> v; std::vector<size_t> c = {0, n / 2, n, 128, 256, 4096, 65536}; if (n <= 300) { for (size_t i = 0; i < n; i++) v.push_back(i); return v; } for (size_t m : c) for (int d = -17; d <= 17; d++) if (m + (size_t)d < n) v.push_back(m + (size_t)d); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; };
        auto fill = [](size_t n, int k) { std::string w(n, '\0'); for (size_t i = 0; i < n; i++) { unsigned x = (unsigned)(i * 37 + i / 251 * 11 + (size_t)k); w[i] = (char)(x % 250 + 3); } return w; };
        for (size_t L : LONG) {
            size_t A = L > 5000 ? 3 : L > 300 ? 5 : 9; if (T) A = L > 5000 ? 9 : 17;
            task("long memory " + std::to_string(L), [=] { K = 0; size_t n = L; std::string src = fill(n + A, 1), dst = fill(n + A + 8, 90);
                for (size_t s = 0; s < A; s++) for (size_t d = 0; d < A; d++) { beat(); IN++; text_reset(); text("%zu bytes, source offset %zu, destination offset %zu ", n, s, d); Buf X(src); std::string w = dst; memcpy(&w[d], &src[s], n); { Buf D(dst); EQ("memcpy result", OFF(nl_memcpy(D.c() + d, X.c() + s, n), D.c()), d); cmpbuf("memcpy", D, w); } { Buf D(dst); EQ("memmove result", OFF(nl_memmove(D.c() + d, X.c() + s, n), D.c()), d); cmpbuf("memmove", D, w); } cmpbuf("source", X, src); }
                for (size_t d = 0; d < A; d++) for (int c : {0, 0x80, 0x1FF, -2, 0x41}) { IN++; text_reset(); text("memset of %zu bytes at %zu, value %d ", n, d, c); std::string w = dst; memset(&w[d], c, n); Buf D(dst); EQ("memset result", OFF(nl_memset(D.c() + d, c, n), D.c()), d); cmpbuf("memset", D, w); }
                std::vector<size_t> ds; for (size_t x = 0; x <= 20; x++) ds.push_back(x); for (size_t x : {n / 2, n - 1, n, n + 1, (size_t)31, (size_t)32, (size_t)33, (size_t)63, (size_t)64, (size_t)65, (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)257, (size_t)65536}) if (x <= n + 1) ds.push_back(x);
                std::string big = fill(2 * n + 60, 5); for (size_t x : ds) for (size_t o : {(size_t)0, (size_t)1, (size_t)7}) for (int up = 0; up < 2; up++) { beat(); IN++; size_t a = o + (up ? x : 0), b = o + (up ? 0 : x); text_reset(); text("memmove of %zu bytes from offset %zu to offset %zu ", n, b, a); std::string w = big; memmove(&w[a], &big[b], n); Buf D(big); EQ("memmove result", OFF(nl_memmove(D.c() + a, D.c() + b, n), D.c()), a); cmpbuf("memmove", D, w); }
                flush(); });
            task("long comparison " + std::to_string(L), [=] { K = 0; size_t n = L; auto P = places(n); for (size_t s = 0; s < A; s++) for (size_t d = 0; d < A; d += d < 2 ? 1 : 3) { std::string f = fill(n, 1); Buf X(std::string(s, 'x') + Z(f)), Y(std::string(d, 'y') + Z(f)); char *x = X.c() + s, *y = Y.c() + d; beat();
                    text_reset(); text("%zu equal bytes, offsets %zu and %zu ", n, s, d); IN++; EQ("memcmp", nl_memcmp(x, y, n), 0); EQ("strcmp", nl_strcmp(x, y), 0); EQ("strncmp", nl_strncmp(x, y, n), 0); EQ("strncmp", nl_strncmp(x, y, n + 5), 0); EQ("strcoll", nl_strcoll(x, y), 0); EQ("strlen", nl_strlen(x), n);
                    for (size_t p : P) for (int v : {1, 2, 0xFF, 0x80}) { if (n > 100 && v == 0x80) continue; char k = y[p]; y[p] = (char)(k == (char)v ? v ^ 2 : v); beat(); IN++; text_reset(); text("%zu bytes, offsets %zu and %zu, byte %zu is 0x%02x instead of 0x%02x ", n, s, d, p, (uint8_t)y[p], (uint8_t)k); int e = (uint8_t)k < (uint8_t)y[p] ? -1 : 1;
                        EQ("memcmp", sgn(nl_memcmp(x, y, n)), e); EQ("memcmp", sgn(nl_memcmp(y, x, n)), -e); EQ("strcmp", sgn(nl_strcmp(x, y)), e); EQ("strncmp", sgn(nl_strncmp(x, y, n)), e); if (v < 3) { EQ("strcmp", sgn(nl_strcmp(y, x)), -e); EQ("strncmp", nl_strncmp(x, y, p), 0); EQ("memcmp", nl_memcmp(x, y, p), 0); EQ("strncmp", sgn(nl_strncmp(x, y, p + 1)), e); EQ("memcmp", sgn(nl_memcmp(x, y, p + 1)), e); EQ("strcoll", sgn(nl_strcoll(x, y)), e); } y[p] = k; }
                    // one string ends before the other
                    for (size_t p : P) { char k = y[p]; y[p] = 0; beat(); IN++; text_reset(); text("strings of %zu and %zu characters, offsets %zu and %zu ", n, p, s, d); EQ("strcmp", sgn(nl_strcmp(x, y)), 1); EQ("strcmp", sgn(nl_strcmp(y, x)), -1); EQ("strncmp", sgn(nl_strncmp(x, y, n)), 1); EQ("strncmp", nl_strncmp(x, y, p), 0); EQ("strlen", nl_strlen(y), p); y[p] = k; } }
                flush(); });
            task("long scans " + std::to_string(L), [=] { K = 0; size_t n = L; auto P = places(n); for (size_t s = 0; s < A; s++) for (int c : {1, 2, 0x80, 0xFF, 0x101}) { std::string f(n, 'm'); for (size_t i = 0; i < n; i++) f[i] = (char)((c & 0xFF) ^ (i % 3 ? 0x80 : i % 2 ? 0x41 : 0x10)); for (auto& ch : f) if (!ch) ch = 'm'; Buf X(std::string(s, (char)c) + Z(f)); char* x = X.c() + s;
                    IN++; text_reset(); text("%zu characters at offset %zu without the character %d ", n, s, c); EQ("memchr", OFF(nl_memchr(x, c, n), x), -1); EQ("strchr", OFF(nl_strchr(x, c), x), -1); EQ("strrchr", OFF(nl_strrchr(x, c), x), -1); EQ("strchr", OFF(nl_strchr(x, 0), x), n); EQ("strrchr", OFF(nl_strrchr(x, 0), x), n); EQ("memchr", OFF(nl_memchr(x, 0, n + 1), x), n); EQ("memchr", OFF(nl_memchr(x, 0, n), x), -1);
                    char st[2] = {(char)c, 0}; Buf S1(std::string(st, 2)); EQ("strcspn", nl_strcspn(x, S1.c()), n); EQ("strpbrk", OFF(nl_strpbrk(x, S1.c()), x), -1); EQ("strspn", nl_strspn(x, S1.c()), 0); EQ("strstr", OFF(nl_strstr(x, S1.c()), x), -1);
                    for (size_t p : P) { char k = x[p]; x[p] = (char)c; beat(); IN++; text_reset(); text("character %d at %zu of %zu, offset %zu ", c, p, n, s); EQ("memchr", OFF(nl_memchr(x, c, n), x), p); EQ("memchr", OFF(nl_memchr(x, c, p), x), -1); EQ("memchr", OFF(nl_memchr(x, c, p + 1), x), p); EQ("strchr", OFF(nl_strchr(x, c), x), p); EQ("strrchr", OFF(nl_strrchr(x, c), x), p); EQ("strcspn", nl_strcspn(x, S1.c()), p); EQ("strpbrk", OFF(nl_strpbrk(x, S1.c()), x), p); if (s < 2) EQ("strstr", OFF(nl_strstr(x, S1.c()), x), p); size_t q = p / 2; char k2 = x[q]; x[q] = (char)c; EQ("strrchr", OFF(nl_strrchr(x, c), x), p); EQ("strchr", OFF(nl_strchr(x, c), x), q); EQ("memchr", OFF(nl_memchr(x, c, n), x), q); x[q] = k2; x[p] = k; } }
                flush(); });
            task("long copies " + std::to_string(L), [=] { K = 0; size_t n = L; std::string f = fill(n, 1); for (size_t s = 0; s < A; s++) for (size_t d = 0; d < A; d++) { beat(); IN++; text_reset(); text("%zu characters, offsets %zu and %zu ", n, s, d); Buf X(std::string(s, 'x') + Z(f)); std::string pre(d, 'p');
                    { Buf D(pre + std::string(n + 1, 'Q')); EQ("strcpy result", OFF(nl_strcpy(D.c() + d, X.c() + s), D.c()), d); cmpbuf("strcpy", D, pre + Z(f)); } { Buf D(pre + std::string(1, 0) + std::string(n, 'Q')); EQ("strcat result", OFF(nl_strcat(D.c(), X.c() + s), D.c()), 0); cmpbuf("strcat", D, pre + Z(f)); } { Buf D(Z(f) + std::string(d, 'Q')); nl_strcat(D.c(), Z(pre).c_str()); cmpbuf("strcat", D, Z(f + pre)); }
                    for (size_t m : {n - 1, n, n + 1, n + 9, n + 300, n / 2}) { size_t k = std::min(m, n); std::string w = f.substr(0, k); { Buf D(pre + std::string(m + 1, 'Q')); EQ("strncpy result", OFF(nl_strncpy(D.c() + d, X.c() + s, m), D.c()), d); std::string v = w; v.resize(m, '\0'); cmpbuf("strncpy", D, pre + v + "Q"); } { Buf D(pre + std::string(1, 0) + std::string(k, 'Q')); EQ("strncat result", OFF(nl_strncat(D.c(), X.c() + s, m), D.c()), 0); cmpbuf("strncat", D, Z(pre + w)); } { Buf D(std::string(std::max<size_t>(m, 1), 'Q')); EQ("strxfrm", nl_strxfrm(D.c(), X.c() + s, m), n); if (n < m) { K++; if (D.str().substr(0, n + 1) != Z(f)) fail("strxfrm result is wrong"); } } }
                    cmpbuf("source", X, std::string(s, 'x') + Z(f)); }
                flush(); });
            // a needle that occurs behind near misses of itself; both periodic and without any period
            if (L <= 4097) task("long substring " + std::to_string(L), [=] { K = 0; size_t n = L; auto P = places(n); for (int kind = 0; kind < 3; kind++) { std::string nd(n, 'a'); if (kind == 1) nd = fill(n, 3); if (kind == 2) for (size_t i = 0; i < n; i++) nd[i] = i % 2 ? 'b' : 'a'; Buf N(Z(nd)); size_t step = P.size() > 80 ? P.size() / 80 + 1 : 1; for (size_t pi = 0; pi < P.size(); pi += step) for (int tail = 0; tail < 3; tail++) { beat(); IN++; std::string miss = nd; miss[P[pi]] = '\x01'; std::string h = miss + nd.substr(0, n / 2) + (tail == 0 ? "" : tail == 1 ? nd : nd + nd); text_reset(); text("needle of %zu characters, kind %d, near miss at %zu, haystack kind %d ", n, kind, P[pi], tail); Buf H(Z(h)); size_t w = h.find(nd); EQ("strstr", OFF(nl_strstr(H.c(), N.c()), H.c()), w == std::string::npos ? -1L : (long)w); } }
                flush(); });
        }
        // a difference, an occurrence, a terminator at every place of long blocks
        for (size_t L : {1000, 4099, 5003, 65600}) for (size_t s : {0, 1}) task("every place " + std::to_string(L) + " offset " + std::to_string(s), [=] { K = 0; size_t n = L; std::string f; for (size_t i = 0; i < n; i++) f += (char)('a' + i % 25); Buf X(std::string(s, 'Z') + Z(f)), Y(Z(f)), S1(Z("Z")), S2(Z("Z!")); char *x = X.c() + s, *y = Y.c();
            for (size_t p = 0; p < n; p++) { if (!(n < 6000 || p % 32768 < 3 || p % 32768 > 32765 || p % 4096 == 4095 || p % 4096 == 0 || p + 3 > n)) continue; if (!(p & 63)) beat(); IN++; text_reset(); text("place %zu of %zu, offset %zu ", p, n, s); char k = x[p]; x[p] = 'Z';
                EQ("memchr", OFF(nl_memchr(x, 'Z', n), x), p); EQ("strchr", OFF(nl_strchr(x, 'Z'), x), p); EQ("strrchr", OFF(nl_strrchr(x, 'Z'), x), p); EQ("memcmp", sgn(nl_memcmp(x, y, n)), -1); EQ("strcmp", sgn(nl_strcmp(y, x)), 1); EQ("strncmp", sgn(nl_strncmp(x, y, n)), -1); EQ("strcspn", nl_strcspn(x, S2.c()), p); EQ("strpbrk", OFF(nl_strpbrk(x, S2.c()), x), p); EQ("strstr", OFF(nl_strstr(x, S1.c()), x), p);
                x[p] = 0; EQ("strlen", nl_strlen(x), p); EQ("strcmp", sgn(nl_strcmp(x, y)), -1); EQ("strncmp", nl_strncmp(x, y, p), 0); EQ("strspn", nl_strspn(x, "abcdefghijklmnopqrstuvwxyz"), p); EQ("strchr", OFF(nl_strchr(x, 0), x), p); x[p] = k; }
            cmpbuf("haystack", X, std::string(s, 'Z') + Z(f)); flush(); });
        task("character sets", [=] { K = 0; for (int k = 1; k <= 255; k++) for (int o : {0, 100, 250}) { beat(); std::string set; for (int i = 0; i < k; i++) set += (char)((i * 7 + o) % 255 + 1); Buf S(Z(set)); // 7 and 255 have no common factor: k different characters
                std::string in; for (int r = 0; r < 3; r++) in += set; std::string out; for (int i = k; i < 255; i++) out += (char)((i * 7 + o) % 255 + 1); IN++; text_reset(); text("set of %d characters starting with %d ", k, o + 1); Buf X(Z(in + out)), Y(Z(out + in)); EQ("strspn", nl_strspn(X.c(), S.c()), in.size()); EQ("strcspn", nl_strcspn(Y.c(), S.c()), out.size()); EQ("strpbrk", OFF(nl_strpbrk(Y.c(), S.c()), Y.c()), out.size()); EQ("strcspn", nl_strcspn(X.c(), S.c()), 0); EQ("strspn", nl_strspn(Y.c(), S.c()), out.empty() ? in.size() : 0); if (out.size()) { Buf W(Z(out)); EQ("strpbrk", OFF(nl_strpbrk(W.c(), S.c()), W.c()), -1); EQ("strcspn", nl_strcspn(W.c(), S.c()), out.size()); }
                Buf A2(Z(in + out + in)), B2(Z(in + out + in)); char* sv = nullptr; for (int c = 0; c < 4; c++) { char* a = nl_strtok(c ? nullptr : A2.c(), S.c()); char* b = strtok_r(c ? nullptr : B2.c(), S.c(), &sv); EQ("strtok token", OFF(a, A2.c()), OFF(b, B2.c())); if (!b) break; } cmpbuf("strtok", A2, B2.str()); }
            flush(); });
        task("varargs", [] { EQ("variable arguments", nl_va(4, 1, 2, 3, 4), 123401234L); EQ("variable arguments", nl_va(0), 0); EQ("variable arguments", nl_va(2, 7, 1), 7100071L); count(3, 3, 1); });
    });
}
