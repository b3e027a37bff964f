#pragma once
#include "IpTNLP.hpp"
namespace Ipopt {
class SolveStatistics : public ReferencedObject { public: Index iter = 0; Number dual_inf = 0, constr_viol = 0, bounds_viol = 0, compl_ = 0, kkt = 0, obj = 0;
  Index IterationCount() const { return iter; } Number FinalObjective() const { return obj; } Number TotalCpuTime() const { return 0; } Number TotalWallclockTime() const { return 0; }
  void Infeasibilities(Number& d, Number& c, Number& v, Number& co, Number& k) const { d = dual_inf; c = constr_viol; v = bounds_viol; co = compl_; k = kkt; } void Infeasibilities(Number& d, Number& c, Number& co, Number& k) const { d = dual_inf; c = constr_viol; co = compl_; k = kkt; } };
}
