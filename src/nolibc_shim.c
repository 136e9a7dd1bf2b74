// The library's own C library routines (ZYAN_NO_LIBC), made callable.
#define ZYAN_NO_LIBC
#include <Zycore/LibC.h>
#define W(r, n, p, a) r nl_##n p { return ZYAN_##a; }
W(void*, memchr, (const void* s, int c, ZyanUSize n), MEMCHR(s, c, n))
W(int, memcmp, (const void* a, const void* b, ZyanUSize n), MEMCMP(a, b, n))
W(void*, memcpy, (void* d, const void* s, ZyanUSize n), MEMCPY(d, s, n))
W(void*, memmove, (void* d, const void* s, ZyanUSize n), MEMMOVE(d, s, n))
W(void*, memset, (void* d, int c, ZyanUSize n), MEMSET(d, c, n))
W(char*, strcat, (char* d, const char* s), STRCAT(d, s))
W(char*, strchr, (const char* s, int c), STRCHR(s, c))
W(int, strcmp, (const char* a, const char* b), STRCMP(a, b))
W(int, strcoll, (const char* a, const char* b), STRCOLL(a, b))
W(char*, strcpy, (char* d, const char* s), STRCPY(d, s))
W(ZyanUSize, strcspn, (const char* a, const char* b), STRCSPN(a, b))
W(ZyanUSize, strlen, (const char* s), STRLEN(s))
W(char*, strncat, (char* d, const char* s, ZyanUSize n), STRNCAT(d, s, n))
W(int, strncmp, (const char* a, const char* b, ZyanUSize n), STRNCMP(a, b, n))
W(char*, strncpy, (char* d, const char* s, ZyanUSize n), STRNCPY(d, s, n))
W(char*, strpbrk, (const char* a, const char* b), STRPBRK(a, b))
W(char*, strrchr, (const char* s, int c), STRRCHR(s, c))
W(ZyanUSize, strspn, (const char* a, const char* b), STRSPN(a, b))
W(char*, strstr, (const char* a, const char* b), STRSTR(a, b))
W(char*, strtok, (char* s, const char* d), STRTOK(s, d))
W(ZyanUSize, strxfrm, (char* d, const char* s, ZyanUSize n), STRXFRM(d, s, n))
static long sum(int n, ZyanVAList a) { long r = 0; while (n--) { r = r * 10 + ZYAN_VA_ARG(a, int); } return r; }
long nl_va(int n, ...) { ZyanVAList a, b; ZYAN_VA_START(a, n); ZYAN_VA_COPY(b, a); long r = sum(n, a); r = r * 100000 + sum(n, b); ZYAN_VA_END(b); ZYAN_VA_END(a); return r; }
