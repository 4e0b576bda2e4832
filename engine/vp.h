// Harness interface.  The same harness is compiled twice: instrumented (the
// values below are symbolic) and plain (the values come from a replay file).
#pragma once
extern "C" {
double vp_real(const char *name, double lo, double hi);
long vp_int(const char *name, long lo, long hi);      // symbolic integer
bool vp_bool(const char *name);
long vp_choose(const char *name, long lo, long hi);   // enumerated integer
void vp_assume(bool c);
void vp_check(bool c, const char *msg);
void vp_eq_tol(double a, double b, double tol, const char *msg);
void vp_reach(const char *label);
void vp_fail(const char *msg);
void vp_stop(void);
int vp_symbolic(void);
void vp_half_angles(void);
void vp_dump(double a, const char *msg);
int vp_register(const char *name, void (*fn)());
}
#define VP_CONCAT2(a, b) a##b
#define VP_CONCAT(a, b) VP_CONCAT2(a, b)
#define VP_HARNESS(name)                                                       \
    static void name();                                                        \
    static int VP_CONCAT(vp_reg_, name) = vp_register(#name, name);            \
    static void name()
static inline void vp_eq(double a, double b, const char *msg) { vp_eq_tol(a, b, 1e-7, msg); }
