/* Harness-side API of the symbolic execution engine.  The same header is used
   by the native replay build (SymReplay.cpp), where inputs are read from the
   counterexample file and assertions are evaluated concretely. */
#ifndef SYM_H
#define SYM_H
#ifdef __cplusplus
extern "C" {
#endif
/* A double anywhere on the grid {k * 2^-s} within [lo,hi] (REAL mode; the
   solver reasons over all reals in [lo,hi], a superset of the grid). */
double sym_double(const char *name, double lo, double hi);
int    sym_int(const char *name, int lo, int hi);
int    sym_bool(const char *name);           /* 0/1 */
void   sym_assume(int cond);
void   sym_assert(int cond, const char *what);
void   sym_reach(const char *what);          /* vacuity witness */
void   sym_snapshot(void);                   /* end of the concrete set-up */
int    sym_fork_int(int v);                  /* make v concrete by case split */
double sym_fork_double(double v);
int    sym_choose(const char *name, int n);  /* concrete 0..n-1, case split by the solver */
void   sym_grid(int log2_denominator);       /* default 10 */
void   sym_end(void);
int    sym_native(void);                     /* 1 in the replay build */
void   sym_note(const char *k, double v);    /* printed on replay */
/* boolean connectives that do not create branches */
int    sym_and(int a, int b);
int    sym_or(int a, int b);
int    sym_not(int a);
int    sym_implies(int a, int b);
#ifdef __cplusplus
}
static inline int sym_near(double a, double b, double tol){ double d=a-b; return sym_and(d<=tol, d>=-tol); }
#endif
#endif
