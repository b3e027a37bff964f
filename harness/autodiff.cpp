// C10 / C11: every operation on active scalars with arbitrary operand derivatives (so that compositions follow by induction)
// H_NEST 0: first order, 1: nested.  H_DER: 0 fixed size, 1 dynamic with max size, 2 dynamic.  H_G: group of operations
#include "hcommon.h"
#include "autodiff/AutoDiffScalar.h"
enum { N = 2 };
#ifndef H_SC
#define H_SC double
#endif
typedef H_SC R;
#if H_DER == 0
template <class S> using DV = Eigen::Matrix<S, N, 1>;
#elif H_DER == 1
template <class S> using DV = Eigen::Matrix<S, -1, 1, 0, N + 2, 1>;
#else
template <class S> using DV = Eigen::Matrix<S, -1, 1>;
#endif
typedef Eigen::AutoDiffScalar<DV<R>> A1;
#if H_NEST
typedef Eigen::AutoDiffScalar<DV<A1>> A;
#else
typedef A1 A;
#endif
static const double TOL = 1e-8;
static double tol() { return sizeof(R) == 4 && sym_is_native() ? 2e-2 : TOL; }
struct In { A a; R v; R d[N], h[N][N]; };
static In mk(const std::string& n, double lo, double hi) { In r; r.v = (R)var(n, lo, hi); for (int i = 0; i < N; i++) { r.d[i] = (R)var(n + "d" + std::to_string(i), -2, 2); for (int j = 0; j <= i; j++) r.h[i][j] = r.h[j][i] = (R)var(n + "h" + std::to_string(i) + std::to_string(j), -2, 2); }
#if H_NEST
  r.a.value().value() = r.v; r.a.value().derivatives().resize(N); r.a.derivatives().resize(N);
  for (int i = 0; i < N; i++) { r.a.value().derivatives()(i) = r.d[i]; r.a.derivatives()(i).value() = r.d[i]; r.a.derivatives()(i).derivatives().resize(N); for (int j = 0; j < N; j++) r.a.derivatives()(i).derivatives()(j) = r.h[i][j]; }
#else
  r.a.value() = r.v; r.a.derivatives().resize(N); for (int i = 0; i < N; i++) r.a.derivatives()(i) = r.d[i];
#endif
  return r; }
static void same(const In& x, const A& a, const std::string& l);
// result r against plain value p as a function of the values of x and y
static void cmp(const A& r, R p, const In& x, const In& y, const std::string& l) {
  const double t = tol();
  R fx = (R)sym_diff(p, x.v), fy = (R)sym_diff(p, y.v);
#if H_NEST
  near_(r.value().value(), p, t, l + " value"); sym_check_bool(r.derivatives().size() == N && r.value().derivatives().size() == N, (l + " size").c_str()); if (r.derivatives().size() != N || r.value().derivatives().size() != N) return;
  R xx = (R)sym_diff2(p, x.v, x.v), xy = (R)sym_diff2(p, x.v, y.v), yy = (R)sym_diff2(p, y.v, y.v);
  for (int i = 0; i < N; i++) { double g = fx * x.d[i] + fy * y.d[i]; near_(r.value().derivatives()(i), g, t, l + " inner gradient"); near_(r.derivatives()(i).value(), g, t, l + " outer gradient");
    sym_check_bool(r.derivatives()(i).derivatives().size() == N, (l + " inner size").c_str()); if (r.derivatives()(i).derivatives().size() != N) return;
    for (int j = 0; j < N; j++) near_(r.derivatives()(i).derivatives()(j), xx * x.d[i] * x.d[j] + xy * (x.d[i] * y.d[j] + y.d[i] * x.d[j]) + yy * y.d[i] * y.d[j] + fx * x.h[i][j] + fy * y.h[i][j], t, l + " hessian"); }
#else
  near_(r.value(), p, t, l + " value"); sym_check_bool(r.derivatives().size() == N, (l + " size").c_str()); if (r.derivatives().size() != N) return;
  for (int i = 0; i < N; i++) near_(r.derivatives()(i), fx * x.d[i] + fy * y.d[i], t, l + " derivative");
#endif
}
static void same(const In& x, const A& a, const std::string& l) { // operand untouched
#if H_NEST
  near_(a.value().value(), x.v, 0, l + " operand"); for (int i = 0; i < N; i++) { near_(a.value().derivatives()(i), x.d[i], 0, l + " operand"); near_(a.derivatives()(i).value(), x.d[i], 0, l + " operand"); for (int j = 0; j < N; j++) near_(a.derivatives()(i).derivatives()(j), x.h[i][j], 0, l + " operand"); }
#else
  near_(a.value(), x.v, 0, l + " operand"); for (int i = 0; i < N; i++) near_(a.derivatives()(i), x.d[i], 0, l + " operand");
#endif
}
#define OP(label, expr) { A r = [](const A& a, const A& b, R s) -> A { (void)a; (void)b; (void)s; A t = expr; return t; }(X.a, Y.a, S); R p = [](R a, R b, R s) -> R { (void)a; (void)b; (void)s; R t = expr; return t; }(X.v, Y.v, S); cmp(r, p, X, Y, label); same(X, X.a, label); same(Y, Y.a, label); }
// statements: c starts as a copy of a
#define ST(label, stmt) { A r = [](const A& a, const A& b, R s) -> A { (void)a; (void)b; (void)s; A c = a; stmt; return c; }(X.a, Y.a, S); R p = [](R a, R b, R s) -> R { (void)a; (void)b; (void)s; R c = a; stmt; return c; }(X.v, Y.v, S); cmp(r, p, X, Y, label); same(X, X.a, label); same(Y, Y.a, label); }
#define CM(label, expr) { bool r = [](const A& a, const A& b, R s) -> bool { (void)a; (void)b; (void)s; return expr; }(X.a, Y.a, S); bool p = [](R a, R b, R s) -> bool { (void)a; (void)b; (void)s; return expr; }(X.v, Y.v, S); sym_check_bool(r == p, label); }
using std::min; using std::max; using std::abs; using std::sqrt; using std::sin; using std::cos; using std::tan; using std::exp; using std::log; using std::asin; using std::acos; using std::sinh; using std::cosh; using std::tanh; using std::atan2; using std::pow; using std::floor;
using Eigen::numext::abs2;
static R real(R a) { return a; } static R conj(R a) { return a; }
// at a kink: the value is exact, the derivative is defined and lies between those of the two branches u and w
static void kink(const A& r, R p, const R* u, const R* w, const std::string& l) {
  const double t = tol();
#if H_NEST
  near_(r.value().value(), p, t, l + " value"); if (r.derivatives().size() != N || r.value().derivatives().size() != N) { sym_check_bool(0, (l + " size").c_str()); return; }
  for (int i = 0; i < N; i++) { R g = r.derivatives()(i).value(); near_(r.value().derivatives()(i), g, t, l + " inner gradient"); sym_check_finite(g, (l + " defined").c_str());
    if (u[i] <= w[i]) { sym_check_le(u[i], g, t, l.c_str()); sym_check_le(g, w[i], t, l.c_str()); } else { sym_check_le(w[i], g, t, l.c_str()); sym_check_le(g, u[i], t, l.c_str()); } }
#else
  near_(r.value(), p, t, l + " value"); if (r.derivatives().size() != N) { sym_check_bool(0, (l + " size").c_str()); return; }
  for (int i = 0; i < N; i++) { R g = r.derivatives()(i); sym_check_finite(g, (l + " defined").c_str());
    if (u[i] <= w[i]) { sym_check_le(u[i], g, t, l.c_str()); sym_check_le(g, w[i], t, l.c_str()); } else { sym_check_le(w[i], g, t, l.c_str()); sym_check_le(g, u[i], t, l.c_str()); } }
#endif
}
void harness() {
  sym_strict(1);
  In X, Y; R S;
#if H_G == 0   // field operations
  X = mk("x", -2, 2); Y = mk("y", 0.25, 3); S = (R)var("s", 0.25, 2);
  OP("a+b", a + b) OP("a-b", a - b) OP("a*b", a * b) OP("a/b", a / b) OP("-a", -a) OP("b-a", b - a)
  OP("a+s", a + s) OP("s+a", s + a) OP("a-s", a - s) OP("s-a", s - a) OP("a*s", a * s) OP("s*a", s * a) OP("a/s", a / s) OP("s/b", s / b)
  OP("a*a", a * a) OP("b/b", b / b) OP("a-a", a - a) OP("a+a", a + a)
  ST("c+=b", c += b) ST("c-=b", c -= b) ST("c*=b", c *= b) ST("c/=b", c /= b) ST("c+=s", c += s) ST("c-=s", c -= s) ST("c*=s", c *= s) ST("c/=s", c /= s)
  ST("c+=c", c += c) ST("c*=c", c *= c) ST("c-=c", c -= c) ST("c=b; c/=c", (c = b, c /= c)) ST("c=b", c = b)
  ST("c+=a*b", c += a * b) ST("c=c*b+c", c = c * b + c) ST("c=b-c", c = b - c) ST("c-=c*c", c -= c * c) ST("c*=c+b", c *= c + b) ST("c/=b+s", c /= b + s) ST("c=-c", c = -c) ST("c=b/(c*c+s)", c = b / (c * c + s))
#elif H_G == 1 // negative divisors, constants, mixed expressions
  X = mk("x", -2, 2); Y = mk("y", -3, -0.25); S = (R)var("s", -2, -0.25);
  OP("a/b (b<0)", a / b) OP("s/b (b<0)", s / b) OP("a/s (s<0)", a / s) ST("c/=b (b<0)", c /= b)
  OP("a*b+s", a * b + s) OP("(a+s)*b", (a + s) * b) OP("(s-a)/b", (s - a) / b) OP("a*b-b*a+a", a * b - b * a + a) OP("(a+b)*(a-b)", (a + b) * (a - b)) OP("s*(a*b)", s * (a * b)) OP("(a*b)*s", (a * b) * s) OP("a/(b*b)", a / (b * b)) OP("-(a*b)", -(a * b)) OP("-(a+s)", -(a + s)) OP("(a*b)-s", (a * b) - s) OP("s-(a*b)", s - (a * b)) OP("(a-s)+(b+s)", (a - s) + (b + s)) OP("s/(a*a+1)", s / (a * a + R(1)))
#elif H_G == 2 // elementary functions
  X = mk("x", -0.9, 0.9); Y = mk("y", 0.25, 3); S = (R)var("s", 0.25, 2);
  OP("sin", sin(a)) OP("cos", cos(a)) OP("exp", exp(a)) OP("sqrt", sqrt(b)) OP("log", log(b)) OP("abs2", abs2(a)) sym_strict(0); OP("tan", tan(a)) sym_strict(1); OP("asin", asin(a)) OP("acos", acos(a)) OP("real", real(a)) OP("conj", conj(b))
  OP("sinh", sinh(a)) OP("cosh", cosh(a)) OP("tanh", tanh(a))
#elif H_G == 3 // functions of expressions, atan2, pow
  X = mk("x", -0.9, 0.9); Y = mk("y", 0.25, 3); S = (R)var("s", 0.25, 2);
  OP("sin(a*b)", sin(a * b)) OP("cos(a+b)", cos(a + b)) OP("exp(s*a)", exp(s * a)) OP("sqrt(b+s)", sqrt(b + s)) OP("log(b/s)", log(b / s)) OP("sin(a)*cos(b)", sin(a) * cos(b)) OP("exp(a)/b", exp(a) / b) OP("abs2(a-b)", abs2(a - b)) OP("sqrt(a*a+b*b)", sqrt(a * a + b * b))
  ST("c=sin(c)", c = sin(c)) ST("c+=exp(c)", c += exp(c)) ST("c*=sqrt(b)", c *= sqrt(b))
  OP("atan2(a,b)", atan2(a, b)) OP("atan2(b,a)", atan2(b, a)) OP("atan2(a*b,b)", atan2(a * b, b))
#if !H_NEST
  OP("pow(b,s)", pow(b, s)) OP("pow(a,2)", pow(a, R(2))) OP("pow(a,3)", pow(a, R(3))) OP("pow(b,-1)", pow(b, R(-1))) OP("pow(b,0.5)", pow(b, R(0.5))) OP("pow(b,2.5)", pow(b, R(2.5))) OP("pow(a,1)", pow(a, R(1))) OP("pow(b*b,s)", pow(b * b, s)) OP("pow(b,0)", pow(b, R(0))) OP("pow(a,0)", pow(a, R(0)))
#endif
#elif H_G == 4 // piecewise functions and comparisons
  X = mk("x", -2, 2); Y = mk("y", -2, 2); S = (R)var("s", -2, 2);
  double g = 1e-3; auto apart = [&](double u) { return u > g || u < -g; };
  CM("a<b", a < b) CM("a<=b", a <= b) CM("a>b", a > b) CM("a>=b", a >= b) CM("a==b", a == b) CM("a!=b", a != b)
  CM("a<s", a < s) CM("a<=s", a <= s) CM("a>s", a > s) CM("a>=s", a >= s) CM("a==s", a == s) CM("a!=s", a != s)
  CM("s<a", s < a) CM("s<=a", s <= a) CM("s>a", s > a) CM("s>=a", s >= a) CM("s==a", s == a) CM("s!=a", s != a)
  if (!apart(X.v - Y.v) || !apart(X.v - S) || !apart(X.v)) return;
  OP("min(a,b)", (min)(a, b)) OP("max(a,b)", (max)(a, b)) OP("min(a,s)", min(a, s)) OP("max(a,s)", max(a, s)) OP("min(s,a)", min(s, a)) OP("max(s,a)", max(s, a)) OP("abs", abs(a)) OP("abs(a-b)", abs(a - b))
  OP("min(a,s)*b", min(a, s) * b) ST("c=max(c,b)", c = (max)(c, b)) 
#elif H_G == 7 // at the kinks themselves
  X = mk("x", -2, 2); R z0[N], n[N]; for (int i = 0; i < N; i++) { z0[i] = 0; n[i] = -X.d[i]; }
  { Y = mk("y", 0, 0); R m[N]; for (int i = 0; i < N; i++) m[i] = -Y.d[i]; A r = abs(Y.a); kink(r, 0, Y.d, m, "abs at zero"); same(Y, Y.a, "abs at zero"); }
  { S = X.v; { A r = min(X.a, S); kink(r, S, X.d, z0, "min(a,s) at equality"); } { A r = max(X.a, S); kink(r, S, X.d, z0, "max(a,s) at equality"); } { A r = min(S, X.a); kink(r, S, X.d, z0, "min(s,a) at equality"); } { A r = max(S, X.a); kink(r, S, X.d, z0, "max(s,a) at equality"); } }
  { In Z = mk("z", -2, 2);
#if H_NEST
    Z.v = X.v; Z.a.value().value() = X.v;
#else
    Z.v = X.v; Z.a.value() = X.v;
#endif
    { A r = min(X.a, Z.a); kink(r, X.v, X.d, Z.d, "min(a,b) at equality"); } { A r = max(X.a, Z.a); kink(r, X.v, X.d, Z.d, "max(a,b) at equality"); } { A r = abs(X.a - Z.a); R u[N], w[N]; for (int i = 0; i < N; i++) { u[i] = X.d[i] - Z.d[i]; w[i] = -u[i]; } kink(r, 0, u, w, "abs(a-b) at equality"); } }
#elif H_G == 5 // floor
  X = mk("x", -2.5, 2.5); Y = mk("y", -2, 2); S = 0; R f = floor(X.v); if (X.v - f < R(1e-3) || X.v - f > R(0.999)) return;
  OP("floor(a)", floor(a)) OP("a-floor(a)", a - floor(a)) OP("b*floor(a)", b * floor(a))
#elif H_G == 6 // a plain constant turned into an active scalar (dynamic derivatives: made coherent on use)
  X = mk("x", -2, 2); Y = mk("y", -2, 2); S = (R)var("s", -2, 2);
#define C(e) typename std::remove_const<typename std::remove_reference<decltype(a)>::type>::type(e)
  OP("A(s)*a", C(s) * a) OP("a+A(s)", a + C(s)) OP("A(s)-b", C(s) - b) OP("a*A(s)", a * C(s)) OP("a-A(s)", a - C(s)) ST("c=A(s); c+=a", (c = C(s), c += a)) ST("c=A(s); c*=a", (c = C(s), c *= a))
#endif
  sym_reach("end");
}
