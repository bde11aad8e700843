// Contract vocabulary.  A contract is a function H_xxx() or P_xxx(): it sets up an arbitrary state within the precondition,
// calls the real function and states its postcondition.  The same text is turned into verification conditions (irvc) and
// compiled natively to replay counterexamples against the real code.
#pragma once
#include <cstddef>
extern "C" {
double vc_real(const char* name);                               //!< an arbitrary real number
double vc_real_range(const char* name, double lo, double hi);   //!< an arbitrary real number in [lo,hi]
int    vc_int(const char* name, int lo, int hi);                //!< an arbitrary (symbolic) integer in [lo,hi]
int    vc_pick(const char* name, int lo, int hi);               //!< an integer in [lo,hi], by case distinction
int    vc_size(const char* name, int lo, int hi);               //!< a size: >= lo without bound in P_ contracts, else by cases
size_t vc_index(const char* name, size_t n);                    //!< an arbitrary index below n
int    vc_bool(const char* name);
void   vc_fill(double* p, size_t n, const char* name);          //!< arbitrary contents
void   vc_fill_range(double* p, size_t n, const char* name, double lo, double hi);
void   vc_filli(int* p, size_t n, const char* name, int lo, int hi);
double vc_uf(const char* name, const double* args, int n);      //!< an arbitrary (uninterpreted) function
void   vc_assume(int c);
void   vc_true(int c, const char* label);
void   vc_eq(double a, double b, const char* label);
void   vc_eqi(long a, long b, const char* label);
void   vc_le(double a, double b, const char* label);
void   vc_near(double a, double b, double tol, const char* label);
void   vc_cover(const char* label);                             //!< must be reachable (vacuity guard)
void   vc_may_throw(int on);                                    //!< exceptions end a path without violation
void   vc_stop();
int    vc_symbolic();                                           //!< 1 in the verifier, 0 natively
int    vc_unbounded();
int    vc_thorough();                                           //!< 1 in the thorough tier
const char* vc_file(const char* content);                       //!< path of a file with the given contents
void   vc_set_threads(int n);                                   //!< what omp_get_max_threads() answers
}
static inline double vc_uf1(const char* nm, double x) { return vc_uf(nm,&x,1); }
#define CONTRACT(name) extern "C" void name()
