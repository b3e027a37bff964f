// one definition of the model OCP: OCPNAME, OCPFMT
POLYMPC_FORWARD_DECLARATION(OCPNAME, H_NX, H_NU, H_NP, H_ND, H_NG, double)
class OCPNAME : public ContinuousOCP<OCPNAME, Appr, OCPFMT> {
public:
  template <typename T> inline void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p,
      const Eigen::Ref<const static_parameter_t> d, const T& t, Eigen::Ref<state_t<T>> xdot) const noexcept { for (int i = 0; i < NX; i++) xdot(i) = genfun<T>(FID_F + 4 * i, x, u, p, d, t); }
#if H_NG > 0
  template <typename T> inline void inequality_constraints_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p,
      const Eigen::Ref<const static_parameter_t> d, const double& t, Eigen::Ref<constraint_t<T>> g) const noexcept { for (int i = 0; i < NG; i++) g(i) = genfun<T>(FID_G + 4 * i, x, u, p, d, t); }
#endif
#if H_LAGRANGE
  template <typename T> inline void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p,
      const Eigen::Ref<const static_parameter_t> d, const double& t, T& l) const noexcept { l = genfun<T>(FID_L, x, u, p, d, t); }
#endif
#if H_MAYER
  template <typename T> inline void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p,
      const Eigen::Ref<const static_parameter_t> d, const double& t, T& m) const noexcept { m = genfun<T>(FID_M, x, u, p, d, t); }
#endif
};
