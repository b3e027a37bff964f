// Harness interface of the symbolic engine.  The same harness source is compiled twice:
//  * symbolically: instrumented by SymPass, linked with symrt.cpp (doubles are terms, branches fork);
//  * natively (replay): plain g++/clang++ build, linked with natrt.cpp (inputs come from a replay file).
#ifndef SYMAPI_H
#define SYMAPI_H
#include <limits>
extern "C" {
double sym_real(const char* name, double lo, double hi);     // arbitrary real in [lo,hi]
void   sym_assume_le(double a, double b);
void   sym_assume_lt(double a, double b);
void   sym_check_near(double a, double b, double tol, const char* label);
void   sym_check_le(double a, double b, double slack, const char* label);
void   sym_check_lt(double a, double b, const char* label);
void   sym_check_finite(double a, const char* label);         // no division by zero / domain error / uninitialised data
void   sym_strict(int on);                                     // when on, sym_check_near(a, ..) also requires a to be defined, as sym_check_finite does
void   sym_check_bool(int c, const char* label);
void   sym_hint_impl_le(double p, double q, double a, double b, double slack); // proof step for later checks: kept only if proved
void   sym_check_impl_le(double p, double q, double a, double b, double slack, const char* label); // p<q  ->  a<=b+slack
double sym_diff(double e, double var);                        // exact partial derivative of a term
double sym_diff2(double e, double v1, double v2);
double sym_uf(int id, const int* mi, int n, const double* args); // arbitrary smooth function id, derivative multi-index mi
void   sym_reach(const char* label);                          // reachability witness
int    sym_is_native();
void   sym_prune();                                           // drop this path (precondition violated)
void   harness();
}
#endif
