// The access macros of the public headers, instantiated by a C compiler.
#include <Zycore/Vector.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <string.h>
#include <stdint.h>

uint32_t mcm_vector_get(const ZyanVector* v, size_t i) { return ZYAN_VECTOR_GET(uint32_t, v, i); }
size_t mcm_foreach(const ZyanVector* v, uint32_t* out, size_t room) {
    size_t n = 0;
    ZYAN_VECTOR_FOREACH(uint32_t, v, item, { if (n < room) out[n] = item; ++n; })
    return n;
}
size_t mcm_foreach_mutable(ZyanVector* v, void** out, size_t room) {
    size_t n = 0;
    ZYAN_VECTOR_FOREACH_MUTABLE(uint32_t, v, item, { if (n < room) out[n] = item; ++n; })
    return n;
}
// nested loops over the same vector
size_t mcm_foreach_nested(const ZyanVector* v) {
    size_t n = 0;
    ZYAN_VECTOR_FOREACH(uint32_t, v, outer, { ZYAN_VECTOR_FOREACH(uint32_t, v, inner, { n += outer == inner; }) })
    return n;
}
uint32_t mcm_list_get(const ZyanListNode* n) { return ZYAN_LIST_GET(uint32_t, n); }

#define L10 "0123456789"
#define L100 L10 L10 L10 L10 L10 L10 L10 L10 L10 L10
static const char t0[] = "", t1[] = "a", t2[] = "Hello World", t3[] = "ab\0cd", t4[] = "\0", t5[] = L100 L100 L100, t6[] = "\xff\x80" "aZ";
static const ZyanStringView v0 = ZYAN_DEFINE_STRING_VIEW(""), v1 = ZYAN_DEFINE_STRING_VIEW("a"), v2 = ZYAN_DEFINE_STRING_VIEW("Hello World"), v3 = ZYAN_DEFINE_STRING_VIEW("ab\0cd"),
    v4 = ZYAN_DEFINE_STRING_VIEW("\0"), v5 = ZYAN_DEFINE_STRING_VIEW(L100 L100 L100), v6 = ZYAN_DEFINE_STRING_VIEW("\xff\x80" "aZ");
const ZyanStringView* mcm_view(int k, const char** text, size_t* len) {
    static const ZyanStringView* const v[] = {&v0, &v1, &v2, &v3, &v4, &v5, &v6}; static const char* const t[] = {t0, t1, t2, t3, t4, t5, t6};
    static const size_t n[] = {sizeof t0 - 1, sizeof t1 - 1, sizeof t2 - 1, sizeof t3 - 1, sizeof t4 - 1, sizeof t5 - 1, sizeof t6 - 1};
    if (k < 0 || k >= 7) return 0;
    *text = t[k]; *len = n[k]; return v[k];
}
