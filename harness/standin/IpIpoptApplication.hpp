#pragma once
#include "IpTNLP.hpp"
#include "IpSolveStatistics.hpp"
namespace Ipopt {
class OptionsList : public ReferencedObject { public: std::map<std::string, double> num; std::map<std::string, int> in; std::map<std::string, std::string> str;
  bool SetNumericValue(const std::string& t, Number v, bool = true, bool = false) { num[t] = v; return true; } bool SetIntegerValue(const std::string& t, Index v, bool = true, bool = false) { in[t] = v; return true; } bool SetStringValue(const std::string& t, const std::string& v, bool = true, bool = false) { str[t] = v; return true; } };
struct Script { std::function<ApplicationReturnStatus(TNLP&, SolveStatistics&)> solve; }; inline Script& script() { static Script* s = new Script; return *s; }
class IpoptApplication : public ReferencedObject { SmartPtr<OptionsList> o; SmartPtr<SolveStatistics> s; public: IpoptApplication(bool = true, bool = false) : o(new OptionsList), s(new SolveStatistics) {}
  SmartPtr<OptionsList> Options() { return o; } SmartPtr<const OptionsList> Options() const { return SmartPtr<const OptionsList>(GetRawPtr(o)); } SmartPtr<SolveStatistics> Statistics() { return s; }
  ApplicationReturnStatus Initialize(bool = false) { return Solve_Succeeded; } ApplicationReturnStatus Initialize(const std::string&, bool = false) { return Solve_Succeeded; }
  ApplicationReturnStatus OptimizeTNLP(const SmartPtr<TNLP>& t) { return script().solve(*t, *s); } ApplicationReturnStatus ReOptimizeTNLP(const SmartPtr<TNLP>& t) { return script().solve(*t, *s); } };
}
inline Ipopt::IpoptApplication* IpoptApplicationFactory() { return new Ipopt::IpoptApplication; }
