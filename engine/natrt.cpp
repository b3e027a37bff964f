// Native replay runtime: the harness runs as an ordinary program, inputs come from a replay file.
#include "symapi.h"
#include "ufmodel.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
static std::map<std::string, double> vars; static std::vector<double> diffs; static size_t nd = 0;
static int fails = 0; static FILE* obs = nullptr; static bool quiet = false;
static void fail(const char* label, double a, double b) {
  fails++; if (fails <= 20) std::printf("CHECK-FAIL %s: %.17g vs %.17g\n", label, a, b); std::fflush(stdout); }
static void ob(const char* l, double a, double b) { if (obs) std::fprintf(obs, "%s %a %a\n", l, a, b); }
extern "C" {
double sym_real(const char* n, double lo, double hi) {
  auto it = vars.find(n); if (it == vars.end()) { double v = 0; if (v < lo) v = lo; if (v > hi) v = hi; return v; }
  return it->second; }
void sym_assume_le(double a, double b) { if (!(a <= b + 1e-9 * (1 + std::fabs(b)))) { std::printf("ASSUME-FAILED %g <= %g\n", a, b); std::fflush(stdout); std::_Exit(3); } }
void sym_assume_lt(double a, double b) { if (!(a < b + 1e-9 * (1 + std::fabs(b)))) { std::printf("ASSUME-FAILED %g < %g\n", a, b); std::fflush(stdout); std::_Exit(3); } }
void sym_strict(int) {}
void sym_check_near(double a, double b, double tol, const char* l) { ob(l, a, b); if (a == b) return; if (!(std::fabs(a - b) <= tol * (1 + 1e-6))) fail(l, a, b); }
void sym_check_le(double a, double b, double s, const char* l) { ob(l, a, b); if (!(a <= b + s + 1e-9 * (1 + std::fabs(b)))) fail(l, a, b); }
void sym_check_lt(double a, double b, const char* l) { ob(l, a, b); if (!(a < b)) fail(l, a, b); }
void sym_check_finite(double a, const char* l) { ob(l, a, 0); if (!std::isfinite(a) || std::fabs(a) > 1e290) fail(l, a, 0); }
void sym_check_bool(int c, const char* l) { ob(l, c != 0, 1); if (!c) fail(l, c, 1); }
void sym_hint_impl_le(double, double, double, double, double) {}
void sym_check_impl_le(double p, double q, double a, double b, double s, const char* l) { ob(l, a, b); if (p < q - 1e-9 * (1 + std::fabs(q)) && !(a <= b + s + 1e-9 * (1 + std::fabs(b)))) fail(l, a, b); }
double sym_diff(double, double) { return nd < diffs.size() ? diffs[nd++] : 0; }
double sym_diff2(double, double, double) { return nd < diffs.size() ? diffs[nd++] : 0; }
double sym_uf(int id, const int* mi, int n, const double* a) { return ufm_eval(id, mi, n, a); }
void sym_reach(const char*) {}
int sym_is_native() { return 1; }
void sym_prune() { std::printf("PRUNED\n"); std::fflush(stdout); std::_Exit(3); }
}
int main(int argc, char** argv) {
  if (argc > 1) { std::ifstream f(argv[1]); std::string k, n, v;
    while (f >> k) { if (k == "var") { f >> n >> v; vars[n] = std::strtod(v.c_str(), 0); } else if (k == "diff") { f >> v; diffs.push_back(std::strtod(v.c_str(), 0)); } else std::getline(f, n); } }
  if (argc > 2) obs = std::fopen(argv[2], "w");
  harness();
  if (obs) std::fclose(obs);
  std::printf("REPLAY-END fails=%d\n", fails);
  return fails ? 1 : 0;
}
