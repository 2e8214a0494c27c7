/* The runtime, linked as the linux build links it, without main, the assembly code and the message printers.
 * Harnesses use its exported functions and the macros of its public headers. */
//@src gc/init-gc.c gc/call-gc.c gc/minor-gc.c gc/major-gc.c gc/flip.c gc/gc-util.c gc/big-objects.c gc/ml-objects.c gc/obj-info.c gc/build-literals.c gc/old-literals.c gc/record-ops.c
//@src gc/import-heap.c gc/export-heap.c gc/blast-in.c gc/blast-out.c gc/blast-gc.c gc/heap-in-util.c gc/heap-out-util.c gc/writer.c gc/mem-writer.c gc/addr-hash.c gc/c-globals-tbl.c
//@src kernel/ml-options.c kernel/boot.c kernel/load-ml.c kernel/run-ml.c kernel/globals.c kernel/ml-state.c kernel/timers.c kernel/unix-timers.c kernel/qualify-name.c kernel/swap-bytes.c
//@src memory/mem-mmap.c mach-dep/unix-fault.c mach-dep/signal-util.c mach-dep/unix-signal.c mach-dep/unix-prof.c
//@src c-libs/c-libraries.c c-libs/unix-raise-syserr.c c-libs/dl/makefile c-libs/posix-error/makefile c-libs/posix-filesys/makefile c-libs/posix-io/makefile c-libs/posix-os/makefile c-libs/posix-procenv/makefile c-libs/posix-process/makefile c-libs/posix-signal/makefile c-libs/posix-sysdb/makefile c-libs/posix-tty/makefile c-libs/smlnj-runtime/makefile c-libs/smlnj-signals/makefile c-libs/smlnj-prof/makefile c-libs/smlnj-sockets/makefile c-libs/smlnj-time/makefile c-libs/smlnj-date/makefile c-libs/smlnj-math/makefile
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <stdarg.h>
#include "ml-unixdep.h"
#include "ml-base.h"
#include "ml-limits.h"
#include "ml-values.h"
#include "ml-objects.h"
#include "ml-state.h"
#include "ml-globals.h"
#include "ml-signals.h"
#include "vproc-state.h"
#include "gc.h"
#include "heap.h"
#include "ml-c.h"
#include "sym.h"

/* what main.c, error.c and the assembly code define */
#ifndef RT_OWN_MAIN
char *MLCmdName = "smlnj", **RawArgs, **CmdLineArgs;
bool_t SilentLoad = TRUE, DumpObjectStrings = FALSE, GCMessages = FALSE, UnlimitedHeap = FALSE;
#endif
#define ASM(n) ml_val_t n[4];
ASM(array_a) ASM(bind_cfun_a) ASM(callc_a) ASM(create_b_a) ASM(create_r_a) ASM(create_s_a) ASM(create_v_a) ASM(floor_a) ASM(logb_a) ASM(scalb_a) ASM(try_lock_a) ASM(unlock_a) ASM(handle_a) ASM(return_a) ASM(sigh_return_a) ASM(pollh_return_a)
ASM(sigh_resume) ASM(pollh_resume)
void request_fault(void) {}
#ifndef RT_OWN_RUN
int H_restoreregs(ml_state_t *m) { sym_fail("the harness does not run ML code"); return 0; }
#endif
int rt_die_ok; long rt_exit_code;                                  /* the harness accepts that the runtime gives up here */
#ifdef RT_DIED
void rt_died(void);
#else
#define rt_died() ((void)0)
#endif
void Say(const char *fmt, ...) {}
#ifndef RT_OWN_SAYDEBUG
void SayDebug(const char *fmt, ...) {}
#endif
#ifndef RT_OWN_MAIN
void Error(const char *fmt, ...) {}
void Exit(int code) { rt_exit_code = code; rt_died(); if (rt_die_ok) sym_end(); sym_fail("the runtime gave up (Exit)"); }
#endif
#ifndef RT_OWN_DIE
void Die(const char *fmt, ...) { rt_died(); if (rt_die_ok) sym_end(); sym_fail(fmt); }
#endif
void AssertFail(const char *a, const char *file, int line) { sym_fail(a); }

/* operating system services that only the measurement of time uses */
int H_getpagesize(void) { return 4096; }
#ifndef RT_OWN_SYSCONF
long H_sysconf(int n) { return 4096; }
#endif
#ifndef RT_OWN_TIME
#include <sys/time.h>
#include <sys/resource.h>
int H_getrusage(int who, struct rusage *r) { memset(r, 0, sizeof *r); return 0; }
int H_gettimeofday(struct timeval *t, void *z) { t->tv_sec = 1000; t->tv_usec = 5; return 0; }
#endif

ml_state_t *msp;
static ml_val_t rt_exn_code[4];                 /* an exception continuation: a closure */
ml_val_t rt_exn_cont[2];
static ml_state_t *rt_init(long allocSz, int ngens) {
  heap_params_t p; p.allocSz = allocSz; p.numGens = ngens; p.cacheGen = -1;
  msp = AllocMLState(TRUE, &p);
  rt_exn_cont[0] = MAKE_DESC(1, DTAG_record); rt_exn_cont[1] = PTR_CtoML(rt_exn_code);
  msp->ml_exnCont = PTR_CtoML(rt_exn_cont + 1);
  return msp;
}
#define RT_INIT() rt_init(256*ONE_K, 5)
