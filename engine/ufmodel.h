// Concrete interpretation of the uninterpreted smooth functions (used for model evaluation and replay).
#pragma once
#include <cmath>
static inline double ufm_coef(int id, int i) { double v = 0.6180339887498949 * (i + 1) + 0.3711 * (id + 1) + 0.113 * i * (id + 1); v -= std::floor(v); return 0.35 + 0.6 * v; }
static inline double ufm_eval(int id, const int* mi, int n, const double* a) {
  double th = 0.9 * id + 0.4, c = 1; int k = 0;
  for (int i = 0; i < n; i++) { double w = ufm_coef(id, i); th += w * a[i]; for (int j = 0; j < mi[i]; j++) { c *= w; k++; } }
  switch (k & 3) { case 0: return c * std::sin(th); case 1: return c * std::cos(th); case 2: return -c * std::sin(th); default: return -c * std::cos(th); }
}
