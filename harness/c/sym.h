/* The harness interface: symbolic inputs, assumptions, assertions. */
#ifndef SYM_H
#define SYM_H
extern long sym_range(long lo, long hi);            /* symbolic integer in [lo, hi] */
extern unsigned long sym_bits(int n);               /* any n-bit pattern */
extern long sym_choose(long n);                     /* fork: concrete value in [0, n) */
extern void sym_assume(int c);
extern void sym_assert_(int c, const char *msg);
extern void sym_fail(const char *msg);
extern void sym_cover(const char *point);
extern int  sym_tier(void);                         /* 0 quick, 1 thorough */
extern long sym_concrete(long v);                   /* fork on every value of v */
extern void sym_stop(void);                         /* discard this path */
extern void sym_end(void);                          /* this path ends here, successfully */
extern long sym_ite(int c, long a, long b);         /* conditional without a fork */
extern void sym_bytes(void *p, long n);             /* n symbolic bytes */
extern int  sym_valid(const void *p, long n);       /* n bytes at p lie inside one live block */
extern int  sym_is_symbolic(long v);
extern void sym_show(const char *what, long v);
#define sym_assert(c, msg) sym_assert_((c) != 0, msg)
#define BOUND(q, t) (sym_tier() ? (t) : (q))
#endif
