/* process termination, and the failure channel of the library (symbolic build) */
#include "vh.h"
size_t vh_s[8];
int vh_exit_ok; void (*vh_exit_hook)(int);
void vh_terminate(int code) {
    __CPROVER_assert(vh_exit_ok, "CHECK: unexpected termination of the process");
    if (vh_exit_hook) vh_exit_hook(code);
    __CPROVER_assume(0);
}
void vh_assert_fail(void) { vh_terminate(-1); }
void abort(void) { vh_terminate(-1); }
void exit(int c) { vh_terminate(c); }
void _exit(int c) { vh_terminate(c); }
