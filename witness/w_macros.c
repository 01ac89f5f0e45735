/* The error-checking macros, each used in a function of its kind: a call that
 * succeeds is passed, one that fails ends the function with its error, and a
 * system call that is interrupted is made again. */
#include "sa.h"
#include <errno.h>
#include <libcork/core.h>
#include <libcork/helpers/errors.h>
#include <libcork/helpers/posix.h>

#define CODE  12345u
static int  calls, fails, rc_value, went_on;
static void *thing;

/* calls of each kind */
static void call_e(void) { calls++; if (fails) cork_error_set_string(CODE, "x"); }
static int call_i(void) { calls++; if (!fails) return 0; cork_error_set_string(CODE, "x"); return rc_value; }
static void *call_p(void) { calls++; if (!fails) return thing; cork_error_set_string(CODE, "x"); return NULL; }

/* functions of each kind */
static int  f_rie(void) { rie_check(call_e()); went_on++; return 0; }
static int  f_rii(void) { rii_check(call_i()); went_on++; return 0; }
static int  f_rip(void) { rip_check(call_p()); went_on++; return 0; }
static void *f_rpe(void) { rpe_check(call_e()); went_on++; return &calls; }
static void *f_rpi(void) { rpi_check(call_i()); went_on++; return &calls; }
static void *f_rpp(void) { rpp_check(call_p()); went_on++; return &calls; }
static int  f_xe(void) { xe_check(77, call_e()); went_on++; return 0; }
static int  f_xi(void) { xi_check(77, call_i()); went_on++; return 0; }
static int  f_xp(void) { xp_check(77, call_p()); went_on++; return 0; }
static int  f_ee(void) { ee_check(call_e()); went_on++; return 0; error: return 78; }
static int  f_ei(void) { ei_check(call_i()); went_on++; return 0; error: return 78; }
static int  f_ep(void) { ep_check(call_p()); went_on++; return 0; error: return 78; }

static void
start(void)
{
    cork_error_clear();
    calls = 0; went_on = 0;
    fails = sa_u8("fails") & 1;
    rc_value = (int) sa_u32("rc"); sa_assume(rc_value != 0);
    thing = sa_object(1, "thing");
}
static void
check(int failed)
{
    sa_check(calls == 1, "the call is made once");
    sa_check(failed == fails, "the function fails exactly when the call failed");
    sa_check(went_on == !fails, "and only goes on when it succeeded");
    sa_check(cork_error_code() == (fails? CODE: CORK_ERROR_NONE), "the error condition is the call's");
}
void W_macro_rie(void) { int rc; start(); rc = f_rie(); sa_check(rc == 0 || rc == -1, "an error result"); check(rc != 0); }
void W_macro_rii(void) { int rc; start(); rc = f_rii(); sa_check(rc == (fails? rc_value: 0), "the call's own result is passed on"); check(rc != 0); }
void W_macro_rip(void) { int rc; start(); rc = f_rip(); sa_check(rc == 0 || rc == -1, "an error result"); check(rc != 0); }
void W_macro_rpe(void) { start(); check(f_rpe() == NULL); }
void W_macro_rpi(void) { start(); check(f_rpi() == NULL); }
void W_macro_rpp(void) { start(); check(f_rpp() == NULL); }
void W_macro_xe(void) { int rc; start(); rc = f_xe(); sa_check(rc == 0 || rc == 77, "the given result"); check(rc != 0); }
void W_macro_xi(void) { int rc; start(); rc = f_xi(); sa_check(rc == 0 || rc == 77, "the given result"); check(rc != 0); }
void W_macro_xp(void) { int rc; start(); rc = f_xp(); sa_check(rc == 0 || rc == 77, "the given result"); check(rc != 0); }
void W_macro_ee(void) { int rc; start(); rc = f_ee(); sa_check(rc == 0 || rc == 78, "the label is reached"); check(rc != 0); }
void W_macro_ei(void) { int rc; start(); rc = f_ei(); sa_check(rc == 0 || rc == 78, "the label is reached"); check(rc != 0); }
void W_macro_ep(void) { int rc; start(); rc = f_ep(); sa_check(rc == 0 || rc == 78, "the label is reached"); check(rc != 0); }

/* system calls: -1 or NULL, with errno, is a failure; anything else is not, whatever errno says */
static int  interrupts, errno_value, result_value;
static int
interrupted(void)
{
    calls++;
    sa_check(calls <= interrupts + 1, "a call that was not interrupted is not made again");
    if (calls > interrupts) return 0;
    errno = EINTR;
    return 1;
}
static int call_int(void)
{
    if (interrupted()) return -1;
    errno = errno_value;
    return fails? -1: result_value;
}
static void *call_ptr(void)
{
    if (interrupted()) return NULL;
    errno = errno_value;
    return fails? NULL: thing;
}
static int  p_ei(void) { ei_check_posix(call_int()); went_on++; return 0; error: return 78; }
static int  p_rii(void) { rii_check_posix(call_int()); went_on++; return 0; }
static void *p_rpi(void) { rpi_check_posix(call_int()); went_on++; return &calls; }
static int  p_ep(void) { ep_check_posix(call_ptr()); went_on++; return 0; error: return 78; }
static int  p_rip(void) { rip_check_posix(call_ptr()); went_on++; return 0; }
static void *p_rpp(void) { rpp_check_posix(call_ptr()); went_on++; return &calls; }
static int  kept;
static int  p_assign(void) { rii_check_posix(kept = call_int()); went_on++; return 0; }
static void *kept_ptr;
static int  p_assign_ptr(void) { rip_check_posix(kept_ptr = call_ptr()); went_on++; return 0; }

static void
start_posix(void)
{
    unsigned  n = sa_u32("interrupts");
    start();
    interrupts = n == 0? 0: n == 1? 1: 2;
    errno_value = (int) sa_u32("errno");
    sa_assume(errno_value > 0);
    if (fails) sa_assume(errno_value != EINTR);
    result_value = (int) sa_u32("result"); sa_assume(result_value != -1);
}
static void
check_posix(int failed)
{
    sa_check(calls == interrupts + 1, "a call that was interrupted is made again");
    sa_check(failed == fails, "the function fails exactly when the call failed");
    sa_check(went_on == !fails, "and only goes on when it succeeded");
    sa_check(cork_error_code() == (fails? (cork_error) errno_value: CORK_ERROR_NONE), "the error condition is the system's error");
}
void W_posix_ei(void) { int rc; start_posix(); rc = p_ei(); sa_check(rc == 0 || rc == 78, "the label is reached"); check_posix(rc != 0); }
void W_posix_rii(void) { int rc; start_posix(); rc = p_rii(); sa_check(rc == 0 || rc == -1, "an error result"); check_posix(rc != 0); }
void W_posix_rpi(void) { start_posix(); check_posix(p_rpi() == NULL); }
void W_posix_ep(void) { int rc; start_posix(); rc = p_ep(); sa_check(rc == 0 || rc == 78, "the label is reached"); check_posix(rc != 0); }
void W_posix_rip(void) { int rc; start_posix(); rc = p_rip(); sa_check(rc == 0 || rc == -1, "an error result"); check_posix(rc != 0); }
void W_posix_rpp(void) { start_posix(); check_posix(p_rpp() == NULL); }
void W_posix_assign(void) { int rc; start_posix(); rc = p_assign(); check_posix(rc != 0); if (rc == 0) sa_check(kept == result_value, "the result of the last call is kept"); }
void W_posix_assign_ptr(void) { int rc; start_posix(); rc = p_assign_ptr(); check_posix(rc != 0); if (rc == 0) sa_check(kept_ptr == thing, "the result of the last call is kept"); }
