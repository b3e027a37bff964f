#pragma once
#include "symapi.h"
#include <Eigen/Dense>
#include <string>
#include <cmath>
inline double var(const std::string& n, double lo, double hi) { return sym_real(n.c_str(), lo, hi); }
template <class M> void fill(M& m, const std::string& n, double lo, double hi) {
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++)
    m(i, j) = static_cast<typename M::Scalar>(var(n + (m.cols() > 1 ? std::to_string(i) + "_" + std::to_string(j) : std::to_string(i)), lo, hi)); }
template <class M> void fillsym(M& m, const std::string& n, double lo, double hi) {
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = static_cast<typename M::Scalar>(var(n + std::to_string(i) + "_" + std::to_string(j), lo, hi)); }
inline void near_(double a, double b, double tol, const std::string& l) { sym_check_near(a, b, tol, l.c_str()); }
template <class A, class B> void nearM(const A& a, const B& b, double tol, const std::string& l) {
  sym_check_bool(a.rows() == b.rows() && a.cols() == b.cols(), (l + ".size").c_str());
  if (a.rows() != b.rows() || a.cols() != b.cols()) return;
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) near_((double)a(i, j), (double)b(i, j), tol, l); }
template <class A> void finiteM(const A& a, const std::string& l) { for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) sym_check_finite((double)a(i, j), l.c_str()); }
