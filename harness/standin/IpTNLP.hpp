// Stand-in for the part of Ipopt's interface that the adapter uses (the library is not installed here): the harness plays the solver.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <functional>
namespace Ipopt {
typedef int Index; typedef double Number;
template <class T> class SmartPtr { T* p = nullptr; void inc() { if (p) p->AddRef(); } void dec() { if (p && p->ReleaseRef() == 0) delete p; }
  public: SmartPtr() {} SmartPtr(T* q) : p(q) { inc(); } SmartPtr(const SmartPtr& o) : p(o.p) { inc(); } template <class U> SmartPtr(const SmartPtr<U>& o) : p(GetRawPtr(o)) { inc(); } ~SmartPtr() { dec(); }
  SmartPtr& operator=(T* q) { if (q) q->AddRef(); dec(); p = q; return *this; } SmartPtr& operator=(const SmartPtr& o) { return *this = o.p; } T* operator->() const { return p; } T& operator*() const { return *p; }
  template <class U> friend U* GetRawPtr(const SmartPtr<U>& s); };
template <class U> U* GetRawPtr(const SmartPtr<U>& s) { return s.p; } template <class U> bool IsValid(const SmartPtr<U>& s) { return GetRawPtr(s) != nullptr; } template <class U> bool IsNull(const SmartPtr<U>& s) { return !IsValid(s); }
class ReferencedObject { mutable int n = 0; public: virtual ~ReferencedObject() {} int AddRef() const { return ++n; } int ReleaseRef() const { return --n; } int ReferenceCount() const { return n; } };
enum SolverReturn { SUCCESS, MAXITER_EXCEEDED, CPUTIME_EXCEEDED, STOP_AT_TINY_STEP, STOP_AT_ACCEPTABLE_POINT, LOCAL_INFEASIBILITY, USER_REQUESTED_STOP, FEASIBLE_POINT_FOUND, DIVERGING_ITERATES, RESTORATION_FAILURE, ERROR_IN_STEP_COMPUTATION, INVALID_NUMBER_DETECTED, TOO_FEW_DEGREES_OF_FREEDOM, INVALID_OPTION, OUT_OF_MEMORY, INTERNAL_ERROR, UNASSIGNED };
enum ApplicationReturnStatus { Solve_Succeeded = 0, Solved_To_Acceptable_Level = 1, Infeasible_Problem_Detected = 2, Search_Direction_Becomes_Too_Small = 3, Diverging_Iterates = 4, User_Requested_Stop = 5, Feasible_Point_Found = 6, Maximum_Iterations_Exceeded = -1, Restoration_Failed = -2, Error_In_Step_Computation = -3, Maximum_CpuTime_Exceeded = -4, Not_Enough_Degrees_Of_Freedom = -10, Invalid_Problem_Definition = -11, Invalid_Option = -12, Invalid_Number_Detected = -13, Unrecoverable_Exception = -100, NonIpopt_Exception_Thrown = -101, Insufficient_Memory = -102, Internal_Error = -199 };
class IpoptData; class IpoptCalculatedQuantities;
class TNLP : public ReferencedObject { public: enum IndexStyleEnum { C_STYLE = 0, FORTRAN_STYLE = 1 }; enum LinearityType { LINEAR, NON_LINEAR };
  virtual bool get_nlp_info(Index& n, Index& m, Index& nnz_jac_g, Index& nnz_h_lag, IndexStyleEnum& index_style) = 0;
  virtual bool get_bounds_info(Index n, Number* x_l, Number* x_u, Index m, Number* g_l, Number* g_u) = 0;
  virtual bool get_starting_point(Index n, bool init_x, Number* x, bool init_z, Number* z_L, Number* z_U, Index m, bool init_lambda, Number* lambda) = 0;
  virtual bool eval_f(Index n, const Number* x, bool new_x, Number& obj_value) = 0;
  virtual bool eval_grad_f(Index n, const Number* x, bool new_x, Number* grad_f) = 0;
  virtual bool eval_g(Index n, const Number* x, bool new_x, Index m, Number* g) = 0;
  virtual bool eval_jac_g(Index n, const Number* x, bool new_x, Index m, Index nele_jac, Index* iRow, Index* jCol, Number* values) = 0;
  virtual bool eval_h(Index n, const Number* x, bool new_x, Number obj_factor, Index m, const Number* lambda, bool new_lambda, Index nele_hess, Index* iRow, Index* jCol, Number* values) { return false; }
  virtual void finalize_solution(SolverReturn status, Index n, const Number* x, const Number* z_L, const Number* z_U, Index m, const Number* g, const Number* lambda, Number obj_value, const IpoptData* ip_data, IpoptCalculatedQuantities* ip_cq) = 0; };
}
