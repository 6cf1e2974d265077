/* stands in for src/vita/util/debug.c except in the check of that file itself:
   same termination behaviour, no output */
#include "vh.h"
void vh_terminate(int);
void vt_debug_assert(const bool expr, const char *const zexpr, const char *const subject, const bool quit_on_failure,
    const char *const file, const char *const func, const size_t line, const char *const zfmt, ...) {
    if (!expr && quit_on_failure) vh_terminate(1);
}
void vt_debug_printf(const char *const subject, const char *const zfmt, ...) { }
void vt_debug_redirect_output(const char *const zfilename) { }
void vt_debug_disable_output(const bool off) { }
