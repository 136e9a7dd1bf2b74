#pragma once
#include <Zycore/Status.h>
#include <stdio.h>
// No switch: a change of the status encoding must be reported by the checks, not break their build.
inline const char* st_name(ZyanStatus s) {
    static const struct { ZyanStatus v; const char* n; } T[] = {
#define ST(x) {(ZyanStatus)(ZYAN_STATUS_##x), #x}
        ST(SUCCESS), ST(FAILED), ST(TRUE), ST(FALSE), ST(INVALID_ARGUMENT), ST(INVALID_OPERATION), ST(OUT_OF_RANGE), ST(INSUFFICIENT_BUFFER_SIZE), ST(NOT_ENOUGH_MEMORY),
        ST(ARG_NOT_UNDERSTOOD), ST(TOO_FEW_ARGS), ST(TOO_MANY_ARGS), ST(ARG_MISSES_VALUE), ST(REQUIRED_ARG_MISSING),
#undef ST
    };
    for (auto& e : T) if (e.v == s) return e.n;
    static char b[8][32]; static int k; k = (k + 1) & 7; snprintf(b[k], 32, "0x%08x", (unsigned)s); return b[k];
}
