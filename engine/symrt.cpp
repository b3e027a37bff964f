// Symbolic runtime: term DAG over exact reals, exact polynomial normal form, path exploration by
// fork(), obligations discharged by z3 (linear abstraction over monomials, then nonlinear reals).
#include "symapi.h"
#include "ufmodel.h"
#include <z3++.h>
#include <gmpxx.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <malloc.h>
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

static const double INF = std::numeric_limits<double>::infinity();
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }

// ---------------------------------------------------------------- terms
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, DIV, NEG, ITE, FN, POW, ATAN2, UF, BC, LT, LE, EQ, AND, OR, NOT };
enum Fk : uint8_t { SIN, COS, EXP, LOG, SQRT, ASIN, ACOS, ATAN, ASINH, ACOSH, ATANH };
static const char* fkname[] = {"sin","cos","exp","log","sqrt","asin","acos","atan","asinh","acosh","atanh"};
struct Node { Op op; uint8_t k; int a, b, c; double d, lo, hi; };
struct UfApp { int id; std::vector<int> mi, args; };
struct VarInfo { std::string name; double lo, hi; };
static std::vector<Node> N; static std::vector<uint8_t> und; static int strictNear = 0;
static std::vector<UfApp> ufs;
static std::vector<VarInfo> V;
static std::vector<int> varNode;
struct KeyH { size_t operator()(const std::array<uint64_t, 4>& k) const { size_t h = 1469598103934665603ull; for (auto x : k) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); } return h; } };
static std::unordered_map<std::array<uint64_t, 4>, int, KeyH> cons;
static std::map<std::pair<std::pair<int, std::vector<int>>, std::vector<int>>, int> ufcons;
static int T_ = -1, F_ = -1, uninitNode = -1; static const uint64_t UNINIT_BITS = 0x4040404040404040ull;
static double uninitVal() { double d; memcpy(&d, &UNINIT_BITS, 8); return d; }

static double dn(double x) { return std::isinf(x) ? x : std::nextafter(x, -INF); }
static double up(double x) { return std::isinf(x) ? x : std::nextafter(x, INF); }
static void ivmul(double al, double ah, double bl, double bh, double& lo, double& hi) {
  double p[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = INF; hi = -INF;
  for (double q : p) { if (std::isnan(q)) q = 0; lo = std::min(lo, q); hi = std::max(hi, q); } lo = dn(lo); hi = up(hi);
  if ((al >= 0 && bl >= 0) || (ah <= 0 && bh <= 0)) lo = std::max(lo, 0.0); if ((al >= 0 && bh <= 0) || (ah <= 0 && bl >= 0)) hi = std::min(hi, 0.0); }
static int mkraw(Op op, uint8_t k, int a, int b, int c, double d) {
  uint64_t db; memcpy(&db, &d, 8);
  std::array<uint64_t, 4> key{(uint64_t)op | ((uint64_t)k << 8) | ((uint64_t)(uint32_t)c << 16), (uint64_t)(uint32_t)a | ((uint64_t)(uint32_t)b << 32), db, 0};
  auto it = cons.find(key); if (it != cons.end()) return it->second;
  Node n{op, k, a, b, c, d, -INF, INF};
  double lo = -INF, hi = INF;
  auto L = [&](int i) { return N[i].lo; }; auto H = [&](int i) { return N[i].hi; };
  switch (op) {
    case CONST: lo = hi = d; break;
    case VAR: lo = V[a].lo; hi = V[a].hi; break;
    case ADD: lo = dn(L(a) + L(b)); hi = up(H(a) + H(b)); if (L(a) >= 0 && L(b) >= 0) lo = std::max(lo, 0.0); if (H(a) <= 0 && H(b) <= 0) hi = std::min(hi, 0.0); break;
    case SUB: lo = dn(L(a) - H(b)); hi = up(H(a) - L(b)); break;
    case NEG: lo = -H(a); hi = -L(a); break;
    case MUL: ivmul(L(a), H(a), L(b), H(b), lo, hi); if (a == b) { if (lo < 0) lo = 0; } break;
    case DIV: if (L(b) >= 0 || H(b) <= 0) { double il = H(b) == 0 ? -INF : dn(1 / H(b)), ih = L(b) == 0 ? INF : up(1 / L(b)); if (L(b) >= 0) il = std::max(il, 0.0); else ih = std::min(ih, 0.0); ivmul(L(a), H(a), il, ih, lo, hi); } break;
    case ITE: { lo = std::min(L(b), L(c)); hi = std::max(H(b), H(c)); const Node& cn = N[a];
      if (cn.op == LE || cn.op == LT) { int p = cn.a, q = cn.b;
        if (b == q && c == p) { lo = std::max(lo, std::max(L(p), L(q))); } else if (b == p && c == q) { hi = std::min(hi, std::min(H(p), H(q))); }
        bool pz = N[p].op == CONST && N[p].d == 0, qz = N[q].op == CONST && N[q].d == 0; // absolute values
        if (pz && b == q && N[c].op == NEG && N[c].a == q) lo = std::max(lo, 0.0); if (qz && c == p && N[b].op == NEG && N[b].a == p) lo = std::max(lo, 0.0); } break; }
    case FN: switch (k) { case SIN: case COS: lo = -1; hi = 1; break; case EXP: lo = std::max(0.0, dn(dn(std::exp(L(a))))); hi = up(up(std::exp(H(a)))); break;
        case SQRT: lo = L(a) > 0 ? dn(std::sqrt(L(a))) : 0; hi = H(a) >= 0 ? up(std::sqrt(H(a))) : INF; break;
        case LOG: if (L(a) > 0) lo = dn(dn(std::log(L(a)))); if (H(a) > 0) hi = up(up(std::log(H(a)))); break;
        case ASIN: case ATAN: lo = -1.5707963267948970; hi = 1.5707963267948970; break; case ACOS: lo = 0; hi = 3.1415926535897936; break; default: break; } break;
    case ATAN2: lo = -3.1415926535897936; hi = 3.1415926535897936; break;
    case POW: if (L(a) >= 0) lo = 0; break;
    case UF: lo = -2; hi = 2; break;
    default: break; }
  if (std::isnan(lo)) lo = -INF; if (std::isnan(hi)) hi = INF;
  bool u = false; // may be undefined for some values of the variables
  switch (op) { case CONST: case VAR: break; case UF: for (int y : ufs[a].args) u |= und[y]; break; case FN: u = und[a] || (k == SQRT && L(a) < 0) || (k == LOG && L(a) <= 0) || ((k == ASIN || k == ACOS) && (L(a) < -1 || H(a) > 1)); break;
    case NEG: case NOT: u = und[a]; break; case ITE: u = und[a] || und[b] || und[c]; break; case DIV: u = und[a] || und[b] || !(L(b) > 0 || H(b) < 0); break; default: u = und[a] || und[b]; }
  und.push_back(u); n.lo = lo; n.hi = hi; N.push_back(n); int id = (int)N.size() - 1; cons[key] = id; return id;
}
static int mkC(double d) { if (d == 0) d = 0; return mkraw(CONST, 0, 0, 0, 0, d); }
static bool isC(int x) { return N[x].op == CONST; }
static double cv(int x) { return N[x].d; }
static int mkNot(int a);
static int mkNeg(int a) { if (isC(a)) return mkC(-cv(a)); if (N[a].op == NEG) return N[a].a; return mkraw(NEG, 0, a, 0, 0, 0); }
static int mkAdd(int a, int b) { if (isC(a) && isC(b)) return mkC(cv(a) + cv(b)); if (isC(a) && cv(a) == 0) return b; if (isC(b) && cv(b) == 0) return a; if (a > b) std::swap(a, b); return mkraw(ADD, 0, a, b, 0, 0); }
static int mkSub(int a, int b) { if (isC(a) && isC(b)) return mkC(cv(a) - cv(b)); if (a == b) return mkC(0); if (isC(b) && cv(b) == 0) return a; if (isC(a) && cv(a) == 0) return mkNeg(b); return mkraw(SUB, 0, a, b, 0, 0); }
static int mkMul(int a, int b) { if (isC(a) && isC(b)) return mkC(cv(a) * cv(b)); if ((isC(a) && cv(a) == 0) || (isC(b) && cv(b) == 0)) return mkC(0);
  if (isC(a) && cv(a) == 1) return b; if (isC(b) && cv(b) == 1) return a; if (isC(a) && cv(a) == -1) return mkNeg(b); if (isC(b) && cv(b) == -1) return mkNeg(a); if (a > b) std::swap(a, b); return mkraw(MUL, 0, a, b, 0, 0); }
static int mkDiv(int a, int b) { if (isC(a) && isC(b)) return mkC(cv(a) / cv(b)); if (isC(b) && cv(b) == 1) return a; return mkraw(DIV, 0, a, b, 0, 0); }
static int mkB(bool v) { return v ? T_ : F_; }
static int mkNot(int a) { if (a == T_) return F_; if (a == F_) return T_; if (N[a].op == NOT) return N[a].a; return mkraw(NOT, 0, a, 0, 0, 0); }
static int mkAnd(int a, int b) { if (a == F_ || b == F_) return F_; if (a == T_) return b; if (b == T_) return a; if (a == b) return a; if (a > b) std::swap(a, b); if ((N[a].op == NOT && N[a].a == b) || (N[b].op == NOT && N[b].a == a)) return F_; return mkraw(AND, 0, a, b, 0, 0); }
static int mkOr(int a, int b) { if (a == T_ || b == T_) return T_; if (a == F_) return b; if (b == F_) return a; if (a == b) return a; if (a > b) std::swap(a, b); if ((N[a].op == NOT && N[a].a == b) || (N[b].op == NOT && N[b].a == a)) return T_; return mkraw(OR, 0, a, b, 0, 0); }
static int mkLE(int a, int b);
static int mkLT(int a, int b) { if (a == b) return F_; if (N[a].hi < N[b].lo) return T_; if (N[a].lo >= N[b].hi) return F_; return mkraw(LT, 0, a, b, 0, 0); }
static int mkLE(int a, int b) { if (a == b) return T_; if (N[a].hi <= N[b].lo) return T_; if (N[a].lo > N[b].hi) return F_; return mkNot(mkLT(b, a)); }
static int mkEQ(int a, int b) { if (a == b) return T_; if (isC(a) && isC(b)) return mkB(cv(a) == cv(b)); if (N[a].hi < N[b].lo || N[b].hi < N[a].lo) return F_; { int z = isC(a) && cv(a) == 0 ? b : isC(b) && cv(b) == 0 ? a : -1; if (z >= 0 && N[z].op == DIV && isC(N[z].a) && std::isfinite(cv(N[z].a)) && cv(N[z].a) != 0) return F_; } if (a > b) std::swap(a, b); return mkraw(EQ, 0, a, b, 0, 0); }
static int condKnown(int c); // -1: not decided on this path
static int mkITE(int c, int a, int b) { if (c != T_ && c != F_ && a != b) { int k = condKnown(c); if (k >= 0) return k ? a : b; } if (c == T_) return a; if (c == F_) return b; if (a == b) return a; if (N[c].op == NOT) return mkITE(N[c].a, b, a);
  if (N[c].op == LT || N[c].op == LE) { int p = N[c].a, q = N[c].b; // max or min of values whose ranges do not overlap
    if (a == q && b == p) { if (N[q].lo >= N[p].hi) return q; if (N[p].lo >= N[q].hi) return p; } if (a == p && b == q) { if (N[p].hi <= N[q].lo) return p; if (N[q].hi <= N[p].lo) return q; } }
  return mkraw(ITE, 0, c, a, b, 0) ; }
// note: ITE stores cond in a, then in b, else in c  -> intervals computed from (b,c)
static int mkFN(int k, int a); static double angleFactor(int a);
static int canon(int a);
static int mkFN(int k, int a) {
  if (isC(a)) { double x = cv(a), r = 0; switch (k) { case SIN: r = std::sin(x); break; case COS: r = std::cos(x); break; case EXP: r = std::exp(x); break; case LOG: r = std::log(x); break; case SQRT: r = std::sqrt(x); break;
      case ASIN: r = std::asin(x); break; case ACOS: r = std::acos(x); break; case ATAN: r = std::atan(x); break; case ASINH: r = std::asinh(x); break; case ACOSH: r = std::acosh(x); break; case ATANH: r = std::atanh(x); break; } return mkC(r); }
  a = canon(a);
  if (k == SIN || k == COS) { // integer multiples of an angle, inverse functions
    if (N[a].op == FN && (N[a].k == ACOS || N[a].k == ASIN)) { int y = N[a].a; if ((k == COS) == (N[a].k == ACOS)) return y; return mkFN(SQRT, mkSub(mkC(1), mkMul(y, y))); }
    double c = angleFactor(a); if (c != 1 && c != 0 && c == std::floor(c) && std::fabs(c) <= 24) { int b = canon(mkDiv(a, mkC(c))), n = (int)std::fabs(c); 
      if (angleFactor(b) == 1) { int x = mkFN(COS, b), t0 = mkC(1), t1 = x, u0 = mkC(0), u1 = mkC(1); for (int i = 2; i <= n; i++) { int t = mkSub(mkMul(mkMul(mkC(2), x), t1), t0); t0 = t1; t1 = t; int u = mkSub(mkMul(mkMul(mkC(2), x), u1), u0); u0 = u1; u1 = u; }
        if (k == COS) return n == 1 ? x : canon(t1); int r = mkMul(mkFN(SIN, b), u1); return canon(c < 0 ? mkNeg(r) : r); } } }
  return mkraw(FN, k, a, 0, 0, 0); }
static int mkUF(int id, const std::vector<int>& mi, const std::vector<int>& args) {
  std::vector<int> ca; for (int a : args) ca.push_back(canon(a));
  auto key = std::make_pair(std::make_pair(id, mi), ca); auto it = ufcons.find(key); if (it != ufcons.end()) return it->second;
  ufs.push_back({id, mi, ca}); int n = mkraw(UF, 0, (int)ufs.size() - 1, 0, 0, 0); ufcons[key] = n; return n; }
static int mkVar(const std::string& name, double lo, double hi) {
  for (size_t i = 0; i < V.size(); i++) if (V[i].name == name) return varNode[i];
  V.push_back({name, lo, hi}); int n = mkraw(VAR, 0, (int)V.size() - 1, 0, 0, 0); varNode.push_back(n); return n; }

// ---------------------------------------------------------------- configuration, shared state, log
struct Shared { std::atomic<int> running, paths, wits, viols, stop, forks, incomplete; };
static Shared* sh; static int maxJobs = 4, maxPaths = 2000, maxWit = 24, seed = 1; static double deadline = 1e18;
static unsigned rlim = 4000000, rlimNRA = 30000000; static int nraTimeout = 20000;
static std::string outDir = "."; static int logfd = -1;
static std::vector<pid_t> kids; static bool inSolver = false;
static bool harnessRunning = false;
struct Stats { long decisions = 0, forks = 0, obl = 0, d_nf = 0, d_lra = 0, d_nra = 0, unk = 0, q = 0, qnra = 0, feasUnk = 0; double st = 0; } st;
static std::mt19937_64 rng(1);
static void logl(const char* fmt, ...) { char buf[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf - 2, fmt, ap); va_end(ap); if (n > (int)sizeof buf - 3) n = sizeof buf - 3; buf[n++] = '\n'; if (write(logfd, buf, n)) {} }
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) c = ' '; r += c; } return r; }

// ---------------------------------------------------------------- evaluation under a model
static std::vector<double> model; static bool modelOK = true;
static std::vector<double> ev; static std::vector<int> evs; static int stamp = 0;
static double evalRec(int x, const std::vector<double>& m) {
  if (evs[x] == stamp) return ev[x];
  const Node& n = N[x]; double r = 0;
  auto E = [&](int i) { return evalRec(i, m); };
  switch (n.op) {
    case CONST: r = n.d; break; case VAR: r = m[n.a]; break;
    case ADD: r = E(n.a) + E(n.b); break; case SUB: r = E(n.a) - E(n.b); break; case MUL: r = E(n.a) * E(n.b); break; case DIV: r = E(n.a) / E(n.b); break; case NEG: r = -E(n.a); break;
    case ITE: r = E(n.a) != 0 ? E(n.b) : E(n.c); break;
    case FN: { double v = E(n.a); switch (n.k) { case SIN: r = std::sin(v); break; case COS: r = std::cos(v); break; case EXP: r = std::exp(v); break; case LOG: r = std::log(v); break; case SQRT: r = std::sqrt(v); break;
        case ASIN: r = std::asin(v); break; case ACOS: r = std::acos(v); break; case ATAN: r = std::atan(v); break; case ASINH: r = std::asinh(v); break; case ACOSH: r = std::acosh(v); break; case ATANH: r = std::atanh(v); break; } } break;
    case POW: r = std::pow(E(n.a), E(n.b)); break; case ATAN2: r = std::atan2(E(n.a), E(n.b)); break;
    case UF: { auto& u = ufs[n.a]; std::vector<double> a; for (int y : u.args) a.push_back(E(y)); r = ufm_eval(u.id, u.mi.data(), (int)a.size(), a.data()); } break;
    case BC: r = n.a; break; case LT: r = E(n.a) < E(n.b); break; case LE: r = E(n.a) <= E(n.b); break; case EQ: r = E(n.a) == E(n.b); break;
    case AND: r = E(n.a) != 0 && E(n.b) != 0; break; case OR: r = E(n.a) != 0 || E(n.b) != 0; break; case NOT: r = !(E(n.a) != 0); break; }
  evs[x] = stamp; ev[x] = r; return r; }
static void evalBegin() { stamp++; ev.resize(N.size()); evs.resize(N.size(), 0); }
static double evalNode(int x, const std::vector<double>& m) { evalBegin(); return evalRec(x, m); }
static std::vector<double> extend(std::vector<double> m) { while (m.size() < V.size()) { auto& v = V[m.size()]; double lo = std::isinf(v.lo) ? -3 : v.lo, hi = std::isinf(v.hi) ? 3 : v.hi; if (v.name == "__uninit") { m.push_back(uninitVal()); continue; }
    std::uniform_real_distribution<double> U(0, 1); double t = 0.1 + 0.8 * U(rng); m.push_back(lo == hi ? lo : lo + (hi - lo) * t); } return m; }

// ---------------------------------------------------------------- exact polynomial normal form
typedef std::vector<std::pair<int, int>> Mono; // (atom, exponent), sorted
struct MonoH { size_t operator()(const Mono& m) const { size_t h = 7; for (auto& p : m) { h = h * 1000003 + p.first; h = h * 1000003 + p.second; } return h; } };
static std::vector<Mono> monos; static std::unordered_map<Mono, int, MonoH> monoIdx;
typedef std::map<int, mpq_class> PolyM; typedef std::vector<std::pair<int, mpq_class>> Poly; typedef std::shared_ptr<const Poly> PolyP;
struct Atom { int kind; int node; PolyP poly; PolyP sq; double lo, hi; }; // kind 0: node, 1: polynomial (only negative exponents)
static std::vector<Atom> atoms; static std::unordered_map<int, int> nodeAtom; static std::map<Poly, int> polyAtom;
static std::vector<PolyP> pmemo; static size_t polyCap = 6000;
static int monoId(const Mono& m) { auto it = monoIdx.find(m); if (it != monoIdx.end()) return it->second; monos.push_back(m); return monoIdx[m] = (int)monos.size() - 1; }
static mpq_class qd(double d) { mpq_class q; mpq_set_d(q.get_mpq_t(), d); return q; }
static PolyP mkPoly(const PolyM& m) { auto p = std::make_shared<Poly>(); for (auto& t : m) if (t.second != 0) p->push_back(t); return p; }
struct TooBig {};
static PolyP pconst(const mpq_class& c) { PolyM m; m[monoId({})] = c; return mkPoly(m); }
static PolyP polyOf(int x);
static int atomOfNode(int x) { auto it = nodeAtom.find(x); if (it != nodeAtom.end()) return it->second; Atom a{0, x, nullptr, nullptr, N[x].lo, N[x].hi}; atoms.push_back(a); int id = (int)atoms.size() - 1; nodeAtom[x] = id;
  const Node& n = N[x];
  if (n.op == FN && n.k == SQRT) { auto p = polyOf(n.a); atoms[id].sq = p; }
  if (n.op == FN && n.k == SIN) { int c = atomOfNode(mkraw(FN, COS, n.a, 0, 0, 0)); PolyM m; m[monoId({})] = 1; m[monoId({{c, 2}})] = -1; atoms[id].sq = mkPoly(m); }
  return id; }
static PolyP pmul(const PolyP& a, const PolyP& b);
static PolyP padd(const PolyP& a, const PolyP& b, int sgn) { auto r = std::make_shared<Poly>(); r->reserve(a->size() + b->size()); size_t i = 0, j = 0;
  while (i < a->size() || j < b->size()) { if (j == b->size() || (i < a->size() && (*a)[i].first < (*b)[j].first)) r->push_back((*a)[i++]);
    else if (i == a->size() || (*b)[j].first < (*a)[i].first) { r->push_back({(*b)[j].first, sgn > 0 ? (*b)[j].second : mpq_class(-(*b)[j].second)}); j++; }
    else { mpq_class c = sgn > 0 ? mpq_class((*a)[i].second + (*b)[j].second) : mpq_class((*a)[i].second - (*b)[j].second); if (c != 0) r->push_back({(*a)[i].first, c}); i++; j++; } }
  if (r->size() > polyCap) throw TooBig(); return r; }
static PolyP pscale(const PolyP& a, const mpq_class& c) { auto r = std::make_shared<Poly>(*a); if (c == 0) r->clear(); for (auto& t : *r) t.second *= c; return r; }
static PolyP pinv(const PolyP& b);
// product of two monomials, reducing squares of sqrt / sin atoms
static PolyP mulMono(int x, int y, int& single) {
  const Mono a = monos[x], b = monos[y]; Mono r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; } }
  for (size_t k = 0; k < r.size(); k++) { Atom& at = atoms[r[k].first]; int e = r[k].second;
    if (at.sq && (e >= 2 || e <= -1) && !(e < 0 && N[at.node].k == SIN)) { PolyP sq = at.sq; int an = r[k].first; Mono rest = r; rest.erase(rest.begin() + k);
      if (e >= 2) { if (e - 2) { rest.push_back({an, e - 2}); std::sort(rest.begin(), rest.end()); } PolyM m; m[monoId(rest)] = 1; single = -1; return pmul(sq, mkPoly(m)); }
      // s^-e = s * (s^2)^-1 ...
      rest.push_back({an, e + 2}); std::sort(rest.begin(), rest.end()); PolyM m; m[monoId(rest)] = 1; single = -1; PolyP q = mkPoly(m); return pmul(pinv(sq), q); } }
  single = monoId(r); return nullptr; }
static PolyP pmul(const PolyP& a, const PolyP& b) {
  if (a->size() * b->size() > polyCap * 40) throw TooBig();
  std::unordered_map<int, mpq_class> acc; std::vector<PolyP> extra;
  for (auto& s : *a) for (auto& t : *b) { int sg; PolyP p = mulMono(s.first, t.first, sg); mpq_class c = s.second * t.second; if (sg >= 0) acc[sg] += c; else for (auto& u : *p) acc[u.first] += c * u.second;
    if (acc.size() > polyCap) throw TooBig(); }
  PolyM m; for (auto& t : acc) if (t.second != 0) m[t.first] = t.second; return mkPoly(m); }
static void polyIv(const Poly& p, double& lo, double& hi);
static PolyP pinv(const PolyP& b) {
  if (b->empty()) throw TooBig();
  if (b->size() == 1) { mpq_class c = 1 / (*b)[0].second; Mono m = monos[(*b)[0].first]; for (auto& t : m) t.second = -t.second;
    PolyP one = pconst(c); // go through mulMono for normalisation
    int sg; PolyP p = mulMono(monoId({}), monoId(m), sg); if (sg >= 0) { PolyM q; q[sg] = c; return mkPoly(q); } return pscale(p, c); }
  mpq_class lead = b->back().second; Poly nb = *b; for (auto& t : nb) t.second /= lead;
  int id; auto it = polyAtom.find(nb); if (it != polyAtom.end()) id = it->second; else { Atom a{1, -1, std::make_shared<Poly>(nb), nullptr, -INF, INF}; polyIv(nb, a.lo, a.hi); atoms.push_back(a); id = (int)atoms.size() - 1; polyAtom[nb] = id; }
  PolyM m; m[monoId({{id, -1}})] = 1 / lead; return mkPoly(m); }
static PolyP atomPoly(int x) { PolyM m; m[monoId({{atomOfNode(x), 1}})] = 1; return mkPoly(m); }
// max / min / abs written in different ways share one atom: positive part of a monic polynomial
static std::map<Poly, PolyP> posPart;
static PolyP itePoly(int x, const Node& n) { Node c = N[n.a]; if (c.op != LT && c.op != LE) return nullptr;
  PolyP t = polyOf(n.b), e = polyOf(n.c), td = padd(t, e, -1); if (td->empty()) return t; if (td->size() > 200) return nullptr;
  PolyP pd = padd(polyOf(c.a), polyOf(c.b), -1); if (pd->size() != td->size()) return nullptr;
  mpq_class k = (*td)[0].second / (*pd)[0].second; for (size_t i = 0; i < td->size(); i++) if ((*td)[i].first != (*pd)[i].first || (*td)[i].second != k * (*pd)[i].second) return nullptr;
  int s = k < 0 ? 1 : -1; mpq_class l = td->back().second * s, al = abs(l); PolyP M = pscale(td, s / l);
  auto it = posPart.find(*M); if (it != posPart.end()) { PolyP P = it->second; if (l < 0) P = padd(P, M, -1); return padd(e, pscale(P, s * al), 1); }
  PolyP r = atomPoly(x), P = pscale(padd(r, e, -1), s / al); if (l < 0) P = padd(P, M, 1); posPart[*M] = P; return r; }
static PolyP polyOf(int x) {
  if ((int)pmemo.size() <= x) pmemo.resize(N.size());
  if (pmemo[x]) return pmemo[x];
  Node n = N[x]; PolyP r;
  try { switch (n.op) {
    case CONST: r = std::isfinite(n.d) ? (n.d == 0 ? std::make_shared<Poly>() : pconst(qd(n.d))) : atomPoly(x); break;
    case ADD: r = padd(polyOf(n.a), polyOf(n.b), 1); break;
    case SUB: r = padd(polyOf(n.a), polyOf(n.b), -1); break;
    case NEG: r = pscale(polyOf(n.a), -1); break;
    case MUL: r = pmul(polyOf(n.a), polyOf(n.b)); break;
    case DIV: r = pmul(polyOf(n.a), pinv(polyOf(n.b))); break;
    case FN: if (n.k == SQRT) { auto p = polyOf(n.a); if (p->size() == 1 && monos[(*p)[0].first].empty()) {} }
      r = atomPoly(x); break;
    case POW: if (isC(n.b)) { double e = cv(n.b); double ip = std::floor(e); double fr = e - ip; if (std::fabs(ip) <= 12) { PolyP base = polyOf(n.a), acc = pconst(1); PolyP bb = ip >= 0 ? base : pinv(base); for (int i = 0; i < std::abs((int)ip); i++) acc = pmul(acc, bb);
          if (fr == 0) r = acc; else { int f = fr == 0.5 ? mkFN(SQRT, n.a) : mkraw(POW, 0, n.a, mkC(fr), 0, 0); if (f == x) r = atomPoly(x); else r = pmul(acc, fr == 0.5 ? polyOf(f) : atomPoly(f)); } break; } }
      else { PolyP pe = polyOf(n.b); double c0 = 0; for (auto& t : *pe) if (monos[t.first].empty()) c0 = t.second.get_d(); int k = (int)std::floor(c0);
        if (k != 0 && std::abs(k) <= 8) { int e2 = canon(mkSub(n.b, mkC(k))); int f = mkraw(POW, 0, n.a, e2, 0, 0); PolyP base = polyOf(n.a), acc = atomPoly(f); PolyP bb = k >= 0 ? base : pinv(base); for (int i = 0; i < std::abs(k); i++) acc = pmul(acc, bb); r = acc; break; } }
      r = atomPoly(x); break;
    case ITE: r = itePoly(x, n); if (!r) r = atomPoly(x); break;
    default: r = atomPoly(x); } }
  catch (TooBig&) { r = atomPoly(x); }
  if ((int)pmemo.size() <= x) pmemo.resize(N.size());
  return pmemo[x] = r; }
static double angleFactor(int a) { PolyP p = polyOf(a); if (p->size() != 1 || monos[p->begin()->first].empty()) return 0; double c = p->begin()->second.get_d(); return c; }
static void monoIv(const Mono& m, double& lo, double& hi) { lo = hi = 1;
  for (auto& t : m) { double al = atoms[t.first].lo, ah = atoms[t.first].hi; int e = t.second;
    if (e < 0) { if (al >= 0 || ah <= 0) { double l = ah == 0 ? -INF : dn(1 / ah), h = al == 0 ? INF : up(1 / al); if (al >= 0) l = std::max(l, 0.0); else h = std::min(h, 0.0); al = l; ah = h; } else { lo = -INF; hi = INF; return; } e = -e; }
    double pl = 1, ph = 1; if (e % 2 == 0) { double mx = std::max(std::fabs(al), std::fabs(ah)), mn = (al <= 0 && ah >= 0) ? 0 : std::min(std::fabs(al), std::fabs(ah)); for (int i = 0; i < e; i++) { pl = dn(pl * mn); ph = up(ph * mx); } if (pl < 0) pl = 0; }
    else for (int i = 0; i < e; i++) { double l, h; ivmul(pl, ph, al, ah, l, h); pl = l; ph = h; }
    if (e % 2 && e > 1) { auto pw = [&](double v) { double r = 1; for (int i = 0; i < e; i++) r *= v; return r; }; pl = dn(dn(pw(al))); ph = up(up(pw(ah))); }
    double l, h; ivmul(lo, hi, pl, ph, l, h); lo = l; hi = h; } }
static void polyIv(const Poly& p, double& lo, double& hi) { lo = hi = 0; for (auto& t : p) { double l, h, a, b; monoIv(monos[t.first], l, h); double c = t.second.get_d(); ivmul(dn(c), up(c), l, h, a, b); double l2 = dn(lo + a), h2 = up(hi + b); if (lo >= 0 && a >= 0) l2 = std::max(l2, 0.0); if (hi <= 0 && b <= 0) h2 = std::min(h2, 0.0); lo = l2; hi = h2; } }
// canonical representative of a term (equal normal forms share one node)
static std::map<Poly, int> canonMap;
static PolyP resolvePoly(PolyP p) { for (int it = 0; it < 32; it++) { int at = -1, br = 0; for (auto& t : *p) { for (auto& q : monos[t.first]) { int nd = atoms[q.first].node; if (nd >= 0 && N[nd].op == ITE && q.second > 0) { int k = condKnown(N[nd].a); if (k >= 0) { at = q.first; br = k ? N[nd].b : N[nd].c; break; } } } if (at >= 0) break; }
    if (at < 0) return p; PolyP b = polyOf(br); PolyP r = std::make_shared<Poly>();
    for (auto& t : *p) { Mono m = monos[t.first]; int e = 0; for (size_t i = 0; i < m.size(); i++) if (m[i].first == at) { e = m[i].second; if (e > 0) m.erase(m.begin() + i); else e = 0; break; } PolyM pm; pm[monoId(m)] = t.second; PolyP x = mkPoly(pm); for (; e > 0; e--) x = pmul(x, b); r = padd(r, x, 1); }
    p = r; } return p; }
static int nodeOfPoly(const PolyP& p) { int r = -1; for (auto& t : *p) { int m = mkC(t.second.get_d()); if (qd(t.second.get_d()) != t.second) return -1; for (auto& q : monos[t.first]) { int nd = atoms[q.first].node; if (nd < 0 || q.second < 0) return -1; for (int i = 0; i < q.second; i++) m = mkMul(m, nd); } r = r < 0 ? m : mkAdd(r, m); } return r; }
static int canon(int a) { if (isC(a)) return a; if (N[a].op == VAR || N[a].op == UF) return a; PolyP p = polyOf(a); 
  { PolyP q; try { q = resolvePoly(p); } catch (TooBig&) { q = p; } if (q != p) { int nd = q->empty() ? mkC(0) : nodeOfPoly(q); if (nd >= 0) { a = nd; p = q; if (isC(a)) return a; } } }
  if (p->empty()) return mkC(0); if (p->size() > 200) return a;
  if (p->size() == 1 && monos[(*p)[0].first].empty()) return mkC((*p)[0].second.get_d());
  auto it = canonMap.find(*p); if (it != canonMap.end()) return it->second;
  if (p->size() == 1 && (*p)[0].second == 1 && monos[(*p)[0].first].size() == 1 && monos[(*p)[0].first][0].second == 1) { int nd = atoms[monos[(*p)[0].first][0].first].node; if (nd >= 0) { canonMap[*p] = nd; return nd; } }
  canonMap[*p] = a; return a; }
// multiply by all inverse polynomial atoms: numerator of the normal form (for equality tests)
static PolyP clearDen(PolyP p, std::vector<std::pair<int, int>>* used = nullptr) {
  for (int it = 0; it < 40; it++) { int at = -1, mx = 0; for (auto& t : *p) for (auto& q : monos[t.first]) if (q.second < 0 && atoms[q.first].kind == 1 && q.first > at) { at = q.first; }
    if (at < 0) return p;
    for (auto& t : *p) for (auto& q : monos[t.first]) if (q.first == at && -q.second > mx) mx = -q.second;
    if (used) used->push_back({at, mx});
    std::vector<PolyP> pw{pconst(1)}; for (int i = 0; i < mx; i++) pw.push_back(pmul(pw.back(), atoms[at].poly));
    std::map<int, PolyM> by; for (auto& t : *p) { Mono m = monos[t.first]; int e = 0; for (size_t i = 0; i < m.size(); i++) if (m[i].first == at) { e = -m[i].second; m.erase(m.begin() + i); break; } by[mx - e][monoId(m)] += t.second; }
    PolyP r = std::make_shared<Poly>(); for (auto& b : by) r = padd(r, pmul(mkPoly(b.second), pw[b.first]), 1); p = r; }
  return p; }

// ---------------------------------------------------------------- z3
static z3::context* zc; static z3::solver* lra; static size_t lraPc = 0;
static std::vector<int> pc; // asserted boolean nodes
static std::unordered_set<int> pcSet;
static std::unordered_map<int, z3::expr> lraB, nraN; static std::unordered_map<int, z3::expr> monoZ; static std::vector<z3::expr> lraDefs, nraDefs;
static std::string qs(const mpq_class& q) { return q.get_str(); }
static z3::expr zq(const mpq_class& q) { return zc->real_val(q.get_str().c_str()); }
static z3::expr lraReal(int x); static z3::expr lraBool(int x);
static std::unordered_set<int> atomDef;
static z3::expr monoVar(int m) { auto it = monoZ.find(m); if (it != monoZ.end()) return it->second;
  z3::expr e = zc->real_const(("m" + std::to_string(m)).c_str()); monoZ.emplace(m, e);
  double lo, hi; monoIv(monos[m], lo, hi); if (std::isfinite(lo)) lraDefs.push_back(e >= zq(qd(lo))); if (std::isfinite(hi)) lraDefs.push_back(e <= zq(qd(hi)));
  const Mono mm = monos[m];
  bool even = true; for (auto& t : mm) if (t.second % 2) even = false; if (even && !mm.empty()) lraDefs.push_back(e >= 0);
  if (mm.size() == 1 && mm[0].second == 1) { int nd = atoms[mm[0].first].node; if (nd >= 0 && N[nd].op == ITE && !atomDef.count(nd)) { atomDef.insert(nd); Node n = N[nd];
      z3::expr c = lraBool(n.a); lraDefs.push_back(z3::implies(c, e == lraReal(n.b))); lraDefs.push_back(z3::implies(!c, e == lraReal(n.c))); } }
  else for (auto& t : mm) { int nd = atoms[t.first].node; if (nd >= 0) monoVar(monoId({{t.first, 1}})); }
  // product with an ITE atom: case split as well
  if (!(mm.size() == 1 && mm[0].second == 1)) for (size_t k = 0; k < mm.size(); k++) { int nd = atoms[mm[k].first].node; if (nd >= 0 && N[nd].op == ITE && mm[k].second >= 1) {
      Node n = N[nd]; Mono rest = mm; if (--rest[k].second == 0) rest.erase(rest.begin() + k); PolyM rm; rm[monoId(rest)] = 1; PolyP R = mkPoly(rm);
      try { PolyP pt = pmul(R, polyOf(n.b)), pe = pmul(R, polyOf(n.c)); if (pt->size() < 60 && pe->size() < 60) { auto lin = [&](const PolyP& p) { z3::expr_vector v(*zc); v.push_back(zc->real_val(0)); for (auto& t : *p) v.push_back(monos[t.first].empty() ? zq(t.second) : zq(t.second) * monoVar(t.first)); return z3::sum(v); };
          z3::expr c = lraBool(n.a); lraDefs.push_back(z3::implies(c, e == lin(pt))); lraDefs.push_back(z3::implies(!c, e == lin(pe))); } } catch (TooBig&) {}
      break; } }
  return e; }
static z3::expr polyZ(const Poly& p) { z3::expr_vector v(*zc); for (auto& t : p) v.push_back(monos[t.first].empty() ? zq(t.second) : zq(t.second) * monoVar(t.first)); if (v.empty()) return zc->real_val(0); return z3::sum(v); }
static z3::expr lraReal(int x) { return polyZ(*polyOf(x)); }
static PolyP diffPoly(int a, int b) { try { return padd(polyOf(a), polyOf(b), -1); } catch (TooBig&) { PolyM m; m[monoId({{atomOfNode(a), 1}})] += 1; m[monoId({{atomOfNode(b), 1}})] -= 1; return mkPoly(m); } }
static PolyP rdiff(int a, int b) { PolyP p = diffPoly(a, b); try { return resolvePoly(p); } catch (TooBig&) { return p; } } // branches already decided on this path
static z3::expr lraBool(int x) { auto it = lraB.find(x); if (it != lraB.end()) return it->second; Node n = N[x]; z3::expr r(*zc);
  switch (n.op) { case BC: r = zc->bool_val(n.a != 0); break; case LT: r = polyZ(*rdiff(n.a, n.b)) < 0; break; case LE: r = polyZ(*rdiff(n.a, n.b)) <= 0; break; case EQ: r = polyZ(*rdiff(n.a, n.b)) == 0; break;
    case AND: r = lraBool(n.a) && lraBool(n.b); break; case OR: r = lraBool(n.a) || lraBool(n.b); break; case NOT: r = !lraBool(n.a); break; default: abort(); }
  lraB.emplace(x, r); return r; }
static z3::expr nraE(int x) { auto it = nraN.find(x); if (it != nraN.end()) return it->second; Node n = N[x]; z3::expr r(*zc);
  auto fresh = [&](const char* p) { return zc->real_const((std::string(p) + std::to_string(x)).c_str()); };
  switch (n.op) { case CONST: r = std::isfinite(n.d) ? zq(qd(n.d)) : fresh("inf"); break; case VAR: { r = zc->real_const(("v" + std::to_string(n.a)).c_str()); if (std::isfinite(n.lo)) nraDefs.push_back(r >= zq(qd(n.lo))); if (std::isfinite(n.hi)) nraDefs.push_back(r <= zq(qd(n.hi))); } break;
    case ADD: r = nraE(n.a) + nraE(n.b); break; case SUB: r = nraE(n.a) - nraE(n.b); break; case MUL: r = nraE(n.a) * nraE(n.b); break; case NEG: r = -nraE(n.a); break;
    case DIV: { r = fresh("q"); nraDefs.push_back(z3::implies(nraE(n.b) != 0, r * nraE(n.b) == nraE(n.a))); } break;
    case ITE: { z3::expr c = nraE(n.a), a = nraE(n.b), b = nraE(n.c); r = z3::ite(c, a, b); } break;
    case FN: r = fresh(fkname[n.k]); if (n.k == SQRT) { z3::expr a = nraE(n.a); nraDefs.push_back(r >= 0); nraDefs.push_back(z3::implies(a >= 0, r * r == a)); } else { if (std::isfinite(n.lo)) nraDefs.push_back(r >= zq(qd(n.lo))); if (std::isfinite(n.hi)) nraDefs.push_back(r <= zq(qd(n.hi)));
        if (n.k == SIN) { z3::expr c = nraE(mkraw(FN, COS, n.a, 0, 0, 0)); nraDefs.push_back(r * r + c * c == 1); } if (n.k == EXP) nraDefs.push_back(r > 0); } break;
    case POW: case ATAN2: case UF: r = fresh("f"); if (std::isfinite(n.lo)) nraDefs.push_back(r >= zq(qd(n.lo))); if (std::isfinite(n.hi)) nraDefs.push_back(r <= zq(qd(n.hi))); break;
    case BC: r = zc->bool_val(n.a != 0); break; case LT: r = nraE(n.a) < nraE(n.b); break; case LE: r = nraE(n.a) <= nraE(n.b); break; case EQ: r = nraE(n.a) == nraE(n.b); break;
    case AND: r = nraE(n.a) && nraE(n.b); break; case OR: r = nraE(n.a) || nraE(n.b); break; case NOT: r = !nraE(n.a); break; }
  nraN.emplace(x, r); return r; }
enum R { SAT, UNSAT, UNK };
static double zval(const z3::expr& v) { // numeral or algebraic
  if (v.is_numeral()) { std::string s = v.get_decimal_string(17); if (!s.empty() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), 0); }
  if (v.is_algebraic()) { std::string s = v.get_decimal_string(17); if (!s.empty() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), 0); }
  return 0; }
static R rOf(z3::check_result c) { return c == z3::sat ? SAT : c == z3::unsat ? UNSAT : UNK; }
static R lraCheck(const std::vector<int>& extra, std::vector<double>* cand) {
  double t0 = now(); st.q++; R r;
  try {
    std::vector<z3::expr> ex; for (; lraPc < pc.size(); lraPc++) { ex.push_back(lraBool(pc[lraPc])); }
    std::vector<z3::expr> es; for (int e : extra) es.push_back(lraBool(e));
    // definitions may themselves introduce definitions (processed while appended)
    for (size_t i = 0; i < lraDefs.size(); i++) lra->add(lraDefs[i]); lraDefs.clear();
    for (auto& e : ex) lra->add(e);
    lra->push(); for (auto& e : es) lra->add(e);
    r = rOf(lra->check());
    if (r == SAT && cand) { z3::model m = lra->get_model(); *cand = extend(model); for (size_t i = 0; i < V.size(); i++) { auto it = nodeAtom.find(varNode[i]); if (it == nodeAtom.end()) continue; int mo = monoId({{it->second, 1}}); auto z = monoZ.find(mo); if (z == monoZ.end()) continue; z3::expr v = m.eval(z->second, false); if (v.is_numeral()) (*cand)[i] = zval(v); } }
    lra->pop();
  } catch (z3::exception& e) { logl("{\"t\":\"z3exc\",\"m\":\"%s\"}", esc(e.msg()).c_str()); r = UNK; }
  st.st += now() - t0; return r; }
static R nraCheck(const std::vector<int>& extra, std::vector<double>* cand, const std::vector<char>* fixed, const std::vector<double>* fixv, unsigned rl, bool forSearch) {
  double t0 = now(); st.q++; st.qnra++; R r;
  try {
    z3::solver s(*zc, "QF_NRA"); z3::params p(*zc); p.set("rlimit", rl); p.set("timeout", (unsigned)nraTimeout); s.set(p);
    std::vector<z3::expr> es; for (int e : pc) es.push_back(nraE(e)); for (int e : extra) es.push_back(nraE(e));
    for (auto& d : nraDefs) s.add(d); for (auto& e : es) s.add(e);
    if (fixed) for (size_t i = 0; i < V.size(); i++) if ((*fixed)[i]) s.add(zc->real_const(("v" + std::to_string(i)).c_str()) == zq(qd((*fixv)[i])));
    if (forSearch && uninitNode >= 0) s.add(nraE(uninitNode) == zq(qd(uninitVal())));
    r = rOf(s.check());
    if (r == SAT && cand) { z3::model m = s.get_model(); *cand = extend(model); for (size_t i = 0; i < V.size(); i++) { z3::expr v = m.eval(zc->real_const(("v" + std::to_string(i)).c_str()), false); if (v.is_numeral() || v.is_algebraic()) (*cand)[i] = zval(v); } }
  } catch (z3::exception& e) { r = UNK; }
  st.st += now() - t0; return r; }
static bool holds(const std::vector<double>& m, const std::vector<int>& extra) { evalBegin(); for (int c : extra) if (evalRec(c, m) == 0) return false; for (int c : pc) if (evalRec(c, m) == 0) return false; return true; }
static bool inBox(const std::vector<double>& m) { for (size_t i = 0; i < V.size(); i++) if (!(m[i] >= V[i].lo && m[i] <= V[i].hi)) return false; return true; }
static bool sampleFor(const std::vector<int>& extra, int tries, std::vector<double>& out) {
  std::uniform_real_distribution<double> U(0, 1); std::vector<double> base = extend(model);
  for (int t = 0; t < tries; t++) { std::vector<double> m = base; int mode = t % 4;
    for (size_t i = 0; i < V.size(); i++) { if (V[i].name == "__uninit") { m[i] = uninitVal(); continue; } double lo = std::isinf(V[i].lo) ? -3 : V[i].lo, hi = std::isinf(V[i].hi) ? 3 : V[i].hi; if (lo == hi) { m[i] = lo; continue; }
      if (mode == 0) m[i] = lo + (hi - lo) * U(rng); else if (mode == 1) { if (U(rng) < 0.3) m[i] = lo + (hi - lo) * U(rng); } else if (mode == 2) { double w = (hi - lo) * std::pow(10.0, -3 * U(rng)) * (U(rng) - 0.5); m[i] = std::min(hi, std::max(lo, m[i] + w)); } else { if (U(rng) < 0.25) { double u = U(rng); m[i] = u < 0.3 ? lo : u < 0.6 ? hi : (lo <= 0 && hi >= 0) ? 0 : lo; } else if (U(rng) < 0.3) m[i] = lo + (hi - lo) * U(rng); } }
    if (holds(m, extra)) { out = m; return true; } }
  return false; }
static void conev(int x, std::set<int>& vs, std::unordered_set<int>& seen) { if (!seen.insert(x).second) return; const Node& n = N[x]; switch (n.op) { case CONST: case BC: return; case VAR: vs.insert(n.a); return; case UF: { auto ar = ufs[n.a].args; for (int y : ar) conev(y, vs, seen); return; } case NEG: case FN: case NOT: conev(n.a, vs, seen); return; case ITE: conev(n.a, vs, seen); conev(n.b, vs, seen); conev(n.c, vs, seen); return; default: conev(n.a, vs, seen); conev(n.b, vs, seen); } }
// quick proof with the path conditions that only speak about the goal's own variables
static bool nraLocal(const std::vector<int>& extra) {
  std::set<int> vs; std::unordered_set<int> seen; for (int e : extra) conev(e, vs, seen); if (seen.size() > 1500) return false;
  double t0 = now(); st.q++; st.qnra++; bool ok = false; auto sn = nraN; auto sd = nraDefs; nraN.clear(); nraDefs.clear();
  try { std::vector<z3::expr> es; for (int c : pc) { std::set<int> v2; std::unordered_set<int> s2; conev(c, v2, s2); if (s2.size() < 400 && std::includes(vs.begin(), vs.end(), v2.begin(), v2.end())) es.push_back(nraE(c)); }
    for (int e : extra) es.push_back(nraE(e));
    z3::solver s(*zc, "QF_NRA"); z3::params p(*zc); p.set("rlimit", (unsigned)rlim); p.set("timeout", (unsigned)std::min<long>(nraTimeout, 4000)); s.set(p);
    for (auto& d : nraDefs) s.add(d); for (auto& e : es) s.add(e); ok = s.check() == z3::unsat;
  } catch (z3::exception&) {}
  nraN.swap(sn); nraDefs.swap(sd); st.st += now() - t0; return ok; }
// full feasibility: UNSAT only from a solver; SAT only with an evaluated model
static R feasible(const std::vector<int>& extra, std::vector<double>& out, bool deep) {
  std::vector<double> cand;
  R r = lraCheck(extra, &cand); if (r == UNSAT) return UNSAT;
  if (r == SAT && inBox(cand) && holds(cand, extra)) { out = cand; return SAT; }
  if (sampleFor(extra, deep ? 400 : 120, out)) return SAT;
  if (deep && nraLocal(extra)) return UNSAT;
  { std::set<int> vs; std::unordered_set<int> seen; for (int e : extra) conev(e, vs, seen); std::vector<int> vl(vs.begin(), vs.end()); 
    for (int t = 0; t < (deep ? 8 : 4) && !vl.empty(); t++) { std::vector<char> fx(V.size(), 1); std::vector<double> b = extend(model); if (t % 2) { std::vector<double> o; if (sampleFor({}, 20, o)) b = o; }
      std::shuffle(vl.begin(), vl.end(), rng); size_t k = t < 2 ? 1 : t < 4 ? 2 : 4; for (size_t i = 0; i < k && i < vl.size(); i++) fx[vl[i]] = 0;
      if (nraCheck(extra, &cand, &fx, &b, rlim / 4, true) == SAT && inBox(cand) && holds(cand, extra)) { out = cand; return SAT; } } }
  r = nraCheck(extra, &cand, nullptr, nullptr, deep ? rlimNRA : rlim, false);
  if (r == UNSAT) return UNSAT;
  if (r == SAT && inBox(cand) && holds(cand, extra)) { out = cand; return SAT; }
  if (r == SAT) { std::vector<double> save = model; model = cand; bool ok = sampleFor(extra, 200, out); model = save; if (ok) return SAT; }
  return UNK; }

// ---------------------------------------------------------------- obligations
struct Ob { int kind; int a, b; double tol; int ok; std::string label; }; // ok: node that must hold; bad: violated with margin
static std::vector<Ob> pend; static std::vector<std::array<int, 2>> obsNodes; static std::vector<std::string> obsLabel;
static std::vector<int> diffNodes; static std::set<std::string> reached;
static void writeReplay(const std::string& fn, const std::vector<double>& m) { std::ofstream f(fn); char b[64]; for (size_t i = 0; i < V.size(); i++) { snprintf(b, 64, "%a", m[i]); f << "var " << V[i].name << " " << b << "\n"; }
  evalBegin(); for (int d : diffNodes) { snprintf(b, 64, "%a", evalRec(d, m)); f << "diff " << b << "\n"; } }
static void reportViol(const std::string& label, const std::vector<double>& m, double a, double b) {
  int k = sh->viols.fetch_add(1); std::string fn = outDir + "/viol_" + std::to_string(k) + ".txt"; if (k < 12) { writeReplay(fn, m); logl("{\"t\":\"viol\",\"label\":\"%s\",\"file\":\"%s\",\"a\":%.9g,\"b\":%.9g}", esc(label).c_str(), fn.c_str(), std::isfinite(a) ? a : 1e300, std::isfinite(b) ? b : 1e300); }
  if (k >= 3) sh->stop = 1; }
static void reportUnknown(const std::string& label, const char* why) { st.unk++; logl("{\"t\":\"unknown\",\"label\":\"%s\",\"why\":\"%s\"}", esc(label).c_str(), why); }
static int badNode(const Ob& o, double margin) { // violated by at least margin
  if (o.kind == 0) return mkOr(mkLT(mkC(o.tol + margin), mkSub(o.a, o.b)), mkLT(mkC(o.tol + margin), mkSub(o.b, o.a)));
  if (o.kind == 1) return mkLT(mkAdd(o.b, mkC(o.tol + margin)), o.a);
  return mkNot(o.ok); }
static void refine(const Ob& o) {
  std::vector<double> m;
  for (double mg : {1e-2, 1e-5, 0.0}) { if (o.kind > 1 && mg > 0) continue; double margin = mg == 0 ? 0 : mg * std::max(1.0, o.kind == 0 ? 1.0 : 1.0);
    int bad = badNode(o, margin); if (bad == F_) continue;
    if (mg > 0) { if (sampleFor({bad}, 150, m)) { evalBegin(); reportViol(o.label, m, evalRec(o.a, m), evalRec(o.b, m)); return; } std::vector<double> c; R r = lraCheck({bad}, &c); if (r == SAT && inBox(c) && holds(c, {bad})) { evalBegin(); reportViol(o.label, c, evalRec(o.a, c), evalRec(o.b, c)); return; } }
    else { R r = feasible({bad}, m, true); if (r == UNSAT) { st.d_nra++; return; } if (r == SAT) { evalBegin(); double a = evalRec(o.a, m), b = evalRec(o.b, m);
        reportViol(o.label, m, a, b); return; } } }
  if (getenv("VERIF_DUMP")) { PolyP d = o.kind <= 1 ? diffPoly(o.a, o.b) : nullptr; if (d) for (auto& t : *d) { fprintf(stderr, "  %s *", t.second.get_str().c_str()); for (auto& q : monos[t.first]) { int nd = atoms[q.first].node; fprintf(stderr, " a%d^%d[%s]", q.first, q.second, nd < 0 ? "poly" : N[nd].op == VAR ? V[N[nd].a].name.c_str() : N[nd].op == UF ? ("uf" + std::to_string(N[nd].a) + "_" + std::to_string(ufs[N[nd].a].id) + "(" + std::to_string(ufs[N[nd].a].args.size() ? ufs[N[nd].a].args[0] : -1) + ")").c_str() : N[nd].op == ITE ? "ite" : "op"); } fprintf(stderr, "\n"); } if (d) for (auto& t : *d) for (auto& q : monos[t.first]) { int nd = atoms[q.first].node; if (nd >= 0 && N[nd].op == UF) { fprintf(stderr, "   uf%d args:", N[nd].a); for (int y : ufs[N[nd].a].args) { fprintf(stderr, " n%d{", y); for (auto& tt : *polyOf(y)) { fprintf(stderr, " %s", tt.second.get_str().c_str()); for (auto& qq : monos[tt.first]) fprintf(stderr, "*a%d.op%d", qq.first, atoms[qq.first].node < 0 ? -1 : N[atoms[qq.first].node].op); } fprintf(stderr, "}"); } fprintf(stderr, "\n"); } }
    std::function<std::string(int, int)> pr = [&](int x, int dep) -> std::string { const Node& n = N[x]; char b[64]; if (dep > 14) return "..."; switch (n.op) { case CONST: snprintf(b, 64, "%g", n.d); return b; case VAR: return V[n.a].name; case ADD: return "(" + pr(n.a, dep + 1) + "+" + pr(n.b, dep + 1) + ")"; case SUB: return "(" + pr(n.a, dep + 1) + "-" + pr(n.b, dep + 1) + ")"; case MUL: return pr(n.a, dep + 1) + "*" + pr(n.b, dep + 1); case DIV: return pr(n.a, dep + 1) + "/(" + pr(n.b, dep + 1) + ")"; case NEG: return "-" + pr(n.a, dep + 1); case ITE: snprintf(b, 64, "[%g,%g]", n.lo, n.hi); return std::string("ite") + b + "(" + pr(n.a, dep + 1) + "," + pr(n.b, dep + 1) + "," + pr(n.c, dep + 1) + ")"; case FN: return std::string(fkname[n.k]) + "(" + pr(n.a, dep + 1) + ")"; case LT: return pr(n.a, dep + 1) + "<" + pr(n.b, dep + 1); case LE: return pr(n.a, dep + 1) + "<=" + pr(n.b, dep + 1); case EQ: return pr(n.a, dep + 1) + "==" + pr(n.b, dep + 1); case NOT: return "!(" + pr(n.a, dep + 1) + ")"; case AND: return "(" + pr(n.a, dep + 1) + " && " + pr(n.b, dep + 1) + ")"; case OR: return "(" + pr(n.a, dep + 1) + " || " + pr(n.b, dep + 1) + ")"; default: return "?"; } };
    fprintf(stderr, "   goal %s\n", pr(o.ok, 0).substr(0, 1500).c_str()); for (int c : pc) { fprintf(stderr, "   pc %s\n", pr(c, 0).substr(0, 600).c_str()); int cc = N[c].op == NOT ? N[c].a : c; if (N[cc].op == LT || N[cc].op == LE) { PolyP d = diffPoly(N[cc].a, N[cc].b); for (auto& t : *d) { fprintf(stderr, "     pc %s *", t.second.get_str().c_str()); for (auto& q : monos[t.first]) fprintf(stderr, " a%d^%d", q.first, q.second); fprintf(stderr, "\n"); } } }
    fprintf(stderr, "-- %s\n", o.label.c_str()); }
  reportUnknown(o.label, "solver"); }
// lower bound of |polynomial| on this path
static std::map<std::pair<Poly, size_t>, double> minAbsMemo;
static double minAbsPoly(PolyP P, int depth = 0) { auto key = std::make_pair(*P, pc.size()); auto it = minAbsMemo.find(key); if (it != minAbsMemo.end()) return it->second; double lo, hi; polyIv(*P, lo, hi); double r = lo > 0 ? lo : hi < 0 ? -hi : 0;
  static int uniq = 0;
  for (double d : {1.0, 0.25, 0.0625, 0.01, 0.001}) { if (d <= r) break; z3::expr e = polyZ(*P); int x = mkraw(LT, 1, T_, F_, uniq++, d); lraB.erase(x); lraB.emplace(x, e < zq(qd(d * (1 - 1e-9))) && -e < zq(qd(d * (1 - 1e-9)))); if (lraCheck({x}, nullptr) == UNSAT) { r = d * (1 - 1e-9); break; } }
  if (r == 0) { int q = -1; bool neg = false; for (auto& t : *P) { int m = mkC(t.second.get_d()); bool ok = true; for (auto& f : monos[t.first]) { int nd = atoms[f.first].node; if (f.second < 0) neg = true; if (nd < 0 || f.second < 0) { ok = false; continue; } for (int i = 0; i < f.second; i++) m = mkMul(m, nd); } if (!ok) q = -2; else if (q != -2) q = q < 0 ? m : mkAdd(q, m); }
    if (q >= 0) try { double l, h; polyIv(*padd(P, polyOf(q), -1), l, h); double err = std::max(-l, h); if (err < 1e-6) for (double d : {1.0, 0.25, 0.01, 1e-4}) { d *= 1 - 1e-6; if (nraLocal({mkLT(q, mkC(d + err)), mkLT(mkC(-d - err), q)})) { r = d; break; } } } catch (TooBig&) {}
    if (neg && depth < 3) try { std::vector<std::pair<int, int>> used; PolyP n = clearDen(P, &used); double m = minAbsPoly(n, depth + 1); for (auto& u : used) { double l, h; polyIv(*atoms[u.first].poly, l, h); double mx = std::max(-l, h); if (!std::isfinite(mx)) { m = 0; break; } for (int i = 0; i < u.second; i++) m = dn(m / mx); } r = m; } catch (TooBig&) {} }
  return minAbsMemo[key] = r; }
static double minAbs(int at) { PolyP p = atoms[at].poly; return minAbsPoly(p); }
static void flushObs() {
  if (pend.empty()) return; std::vector<Ob> work; std::swap(work, pend);
  std::vector<Ob> hard;
  for (auto& o : work) { st.obl++;
    if (o.kind == 0) { PolyP d = rdiff(o.a, o.b); if (!d->empty()) { bool den = false; for (auto& t : *d) for (auto& q : monos[t.first]) if (q.second < 0 && atoms[q.first].kind == 1) den = true; if (den) try { std::vector<std::pair<int, int>> used; PolyP c = clearDen(d, &used); if (c->empty()) d = c;
          else { double b = o.tol, lo, hi; polyIv(*c, lo, hi); double v = std::max(-lo, hi); if (v < 1e-3) { for (auto& u : used) { double m = minAbs(u.first); for (int i = 0; i < u.second; i++) b = dn(b * m); } if (getenv("VERIF_DUMP")) fprintf(stderr, "   cleared: numerator %g bound %g (%zu factors)\n", v, b, used.size()); if (v <= b) { st.d_lra++; continue; } } } } catch (TooBig&) {} }
      if (d->empty()) { st.d_nf++; continue; }
      z3::expr e = polyZ(*d); lraB.erase(o.ok); lraB.emplace(o.ok, e <= zq(qd(o.tol)) && -e <= zq(qd(o.tol))); }
    else if (o.ok == T_) { st.d_nf++; continue; }
    hard.push_back(o); }
  for (size_t i = 0; i < hard.size(); i += 48) { std::vector<Ob> ch(hard.begin() + i, hard.begin() + std::min(hard.size(), i + 48));
    if (sh->stop) return;
    int all = F_; z3::expr_vector v(*zc); std::vector<int> nots; for (auto& o : ch) { int nn = mkraw(NOT, 0, o.ok, 0, 0, 0); all = all == F_ ? nn : mkraw(OR, 0, all, nn, 0, 0); nots.push_back(nn); }
    R r = ch.size() > 1 ? lraCheck({all}, nullptr) : SAT;
    if (r == UNSAT) { st.d_lra += ch.size(); continue; }
    for (size_t k = 0; k < ch.size(); k++) { if (sh->stop) return; R q = lraCheck({nots[k]}, nullptr); if (q == UNSAT) { st.d_lra++; continue; } refine(ch[k]); } } }

// ---------------------------------------------------------------- paths
static void addPc(int c) { if (c == T_ || pcSet.count(c)) return; pc.push_back(c); pcSet.insert(c); if (N[c].op == AND) { pcSet.insert(N[c].a); pcSet.insert(N[c].b); } }
static void killKidsWait() { bool first = true; for (pid_t k : kids) { if (first) { sh->running--; first = false; } int s; waitpid(k, &s, 0); if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) { logl("{\"t\":\"childcrash\",\"status\":%d}", s); } sh->running--; } if (!first) sh->running++; kids.clear(); }
static bool isRoot = true;
static void armTick() { struct itimerval tv; tv.it_interval = {5, 0}; tv.it_value = {5, 0}; setitimer(ITIMER_VIRTUAL, &tv, nullptr); }
[[noreturn]] static void finish(const char* how) {
  harnessRunning = false;
  if (!strcmp(how, "end")) flushObs();
  bool w = false;
  if (!strcmp(how, "end") && modelOK) { model = extend(model); if (holds(model, {})) { w = true; int k = sh->wits.fetch_add(1); if (k < maxWit) { std::string b = outDir + "/wit_" + std::to_string(k); writeReplay(b + ".txt", model); std::ofstream f(b + ".obs"); char s[96]; evalBegin(); for (size_t i = 0; i < obsNodes.size(); i++) { snprintf(s, 96, " %a %a", evalRec(obsNodes[i][0], model), evalRec(obsNodes[i][1], model)); f << obsLabel[i] << s << "\n"; } } } }
  if (!strcmp(how, "end")) sh->paths++;
  std::string rs; for (auto& r : reached) { if (!rs.empty()) rs += ","; rs += "\"" + esc(r) + "\""; }
  logl("{\"t\":\"path\",\"how\":\"%s\",\"wit\":%d,\"pc\":%d,\"nodes\":%d,\"obl\":%ld,\"nf\":%ld,\"lra\":%ld,\"nra\":%ld,\"unk\":%ld,\"q\":%ld,\"qnra\":%ld,\"dec\":%ld,\"forks\":%ld,\"feasunk\":%ld,\"st\":%.3f,\"reach\":[%s]}", how, w, (int)pc.size(), (int)N.size(), st.obl, st.d_nf, st.d_lra, st.d_nra, st.unk, st.q, st.qnra, st.decisions, st.forks, st.feasUnk, st.st, rs.c_str());
  killKidsWait(); _exit(0); }
static std::map<int, int> known; // decided handles on this path
static int condKnown(int c) { if (pcSet.count(c)) return 1; if (pcSet.count(mkNot(c))) return 0; auto it = known.find(c); return it == known.end() ? -1 : it->second; }
static int decideNode(int h) {
  if (h == T_) return 1; if (h == F_) return 0; st.decisions++;
  if (pcSet.count(h)) return 1; if (pcSet.count(mkNot(h))) return 0;
  auto it = known.find(h); if (it != known.end()) return it->second;
  bool sv = harnessRunning; harnessRunning = false; struct G { bool v; ~G() { harnessRunning = v; } } g{sv};
  if (sh->stop) finish("stopped");
  if (now() > deadline) { sh->incomplete = 1; finish("deadline"); }
  int nh = mkNot(h); std::vector<double> m2; R other; bool v;
  if (modelOK) { model = extend(model); v = evalNode(h, model) != 0; other = feasible({v ? nh : h}, m2, false); }
  else { std::vector<double> m1; R a = feasible({h}, m1, false); if (a == UNSAT) { known[h] = 0; return 0; } R b = feasible({nh}, m2, false); if (b == UNSAT) { if (a == SAT) { model = m1; modelOK = true; } known[h] = 1; return 1; }
    v = true; other = b; if (a == SAT) { model = m1; modelOK = true; } }
  if (other == UNSAT) { known[h] = v; return v; }
  if (other == UNK) st.feasUnk++;
  if (sh->forks.fetch_add(1) > maxPaths * 3 || sh->paths > maxPaths) { sh->incomplete = 1; finish("pathlimit"); }
  flushObs(); st.forks++;
  bool par = sh->running.fetch_add(1) < maxJobs; if (!par) sh->running--;
  pid_t pid = fork(); if (pid < 0) { sh->incomplete = 1; logl("{\"t\":\"forkfail\"}"); if (par) sh->running--; addPc(v ? h : nh); return v; }
  if (pid == 0) { armTick(); kids.clear(); st = Stats(); isRoot = false; rng.seed(seed * 7919 + pc.size() * 131 + N.size()); addPc(v ? nh : h); if (other == SAT) { model = m2; modelOK = true; } else modelOK = false; return !v; }
  if (par) kids.push_back(pid); else { int s; waitpid(pid, &s, 0); if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) logl("{\"t\":\"childcrash\",\"status\":%d}", s); }
  addPc(v ? h : nh); return v; }
static void assumeNode(int c) { if (c == T_) return; flushObs(); if (c == F_) finish("assume"); bool sv = harnessRunning; harnessRunning = false; 
  addPc(c); if (modelOK) { model = extend(model); if (evalNode(c, model) == 0) { pc.pop_back(); pcSet.erase(c); std::vector<double> m; R r = feasible({c}, m, false); addPc(c); if (r == UNSAT) finish("assume"); if (r == SAT) { model = m; } else modelOK = false; } }
  harnessRunning = sv; }

// ---------------------------------------------------------------- differentiation oracle
static std::unordered_map<int, std::unordered_map<int, int>> dmemo;
static int D(int x, int v, std::unordered_map<int, int>& mm) { Node n = N[x]; if (n.op == CONST) return mkC(0); if (n.op == VAR) return mkC(x == v ? 1 : 0); auto it = mm.find(x); if (it != mm.end()) return it->second; int r = 0;
  auto d = [&](int y) { return D(y, v, mm); };
  switch (n.op) { case ADD: r = mkAdd(d(n.a), d(n.b)); break; case SUB: r = mkSub(d(n.a), d(n.b)); break; case NEG: r = mkNeg(d(n.a)); break; case MUL: r = mkAdd(mkMul(d(n.a), n.b), mkMul(n.a, d(n.b))); break;
    case DIV: { int da = d(n.a), db = d(n.b); r = mkSub(isC(da) && cv(da) == 0 ? mkC(0) : mkDiv(da, n.b), isC(db) && cv(db) == 0 ? mkC(0) : mkDiv(mkMul(n.a, db), mkMul(n.b, n.b))); } break;
    case ITE: r = mkITE(n.a, d(n.b), d(n.c)); break;
    case FN: { int da = d(n.a); if (isC(da) && cv(da) == 0) { r = mkC(0); break; } int g = 0, u = n.a, one = mkC(1); switch (n.k) { case SIN: g = mkFN(COS, u); break; case COS: g = mkNeg(mkFN(SIN, u)); break; case EXP: g = x; break; case LOG: g = mkDiv(one, u); break; case SQRT: g = mkDiv(mkC(0.5), x); break;
        case ASIN: g = mkDiv(one, mkFN(SQRT, mkSub(one, mkMul(u, u)))); break; case ACOS: g = mkNeg(mkDiv(one, mkFN(SQRT, mkSub(one, mkMul(u, u))))); break; case ATAN: g = mkDiv(one, mkAdd(one, mkMul(u, u))); break; case ASINH: g = mkDiv(one, mkFN(SQRT, mkAdd(mkMul(u, u), one))); break; case ACOSH: g = mkDiv(one, mkFN(SQRT, mkSub(mkMul(u, u), one))); break; case ATANH: g = mkDiv(one, mkSub(one, mkMul(u, u))); break; } r = mkMul(g, da); } break;
    case POW: { int da = d(n.a), db = d(n.b); int p1 = mkraw(POW, 0, n.a, mkSub(n.b, mkC(1)), 0, 0); r = mkAdd(mkMul(mkMul(n.b, p1), da), isC(db) && cv(db) == 0 ? mkC(0) : mkMul(mkMul(x, mkFN(LOG, n.a)), db)); } break;
    case ATAN2: { int dy = d(n.a), dx = d(n.b); r = mkDiv(mkSub(mkMul(n.b, dy), mkMul(n.a, dx)), mkAdd(mkMul(n.a, n.a), mkMul(n.b, n.b))); } break;
    case UF: { UfApp u = ufs[n.a]; r = mkC(0); for (size_t i = 0; i < u.args.size(); i++) { int da = d(u.args[i]); if (isC(da) && cv(da) == 0) continue; auto mi = u.mi; mi[i]++; r = mkAdd(r, mkMul(mkUF(u.id, mi, u.args), da)); } } break;
    default: r = mkC(0); }
  mm[x] = r; return r; }

// ---------------------------------------------------------------- value boxing
static const uint64_t TAG = 0x7FF5ull << 48; static std::vector<int> ftab; static std::unordered_map<int, int> fmap_;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline bool isSym(double d) { uint64_t u = bits(d); return (u >> 48) == 0x7FF5 || u == ~0ull; }
static inline bool isSym(float f) { uint32_t u; memcpy(&u, &f, 4); return (u & 0xFFE00000u) == 0x7FA00000u || u == ~0u; }
static bool usedUninit = false;
static int uninit() { if (uninitNode < 0) { uninitNode = mkVar("__uninit", -1e6, 1e6); } if (!usedUninit) { usedUninit = true; } return uninitNode; }
static int toN(double d) { uint64_t u = bits(d); if ((u >> 48) == 0x7FF5) return (int)(u & 0xFFFFFFFFull); if (u == ~0ull) return uninit(); return mkC(d); }
static int toN(float f) { uint32_t u; memcpy(&u, &f, 4); if ((u & 0xFFE00000u) == 0x7FA00000u) return ftab[u & 0x1FFFFF]; if (u == ~0u) return uninit(); return mkC((double)f); }
static double boxD(int n) { if (isC(n)) return cv(n); uint64_t u = TAG | (uint32_t)n; double d; memcpy(&d, &u, 8); return d; }
static float boxF(int n) { if (isC(n)) return (float)cv(n); int k; auto it = fmap_.find(n); if (it != fmap_.end()) k = it->second; else { k = (int)ftab.size(); if (k >= (1 << 21)) { logl("{\"t\":\"error\",\"m\":\"too many float terms\"}"); _exit(0); } ftab.push_back(n); fmap_[n] = k; } uint32_t u = 0x7FA00000u | k; float f; memcpy(&f, &u, 4); return f; }
template <class T> static T box(int n); template <> double box<double>(int n) { return boxD(n); } template <> float box<float>(int n) { return boxF(n); }
[[noreturn]] static void unsupported(const char* m) { logl("{\"t\":\"unsupported\",\"m\":\"%s\"}", m); finish("unsupported"); }
struct Quiet { bool s; Quiet() { s = harnessRunning; harnessRunning = false; } ~Quiet() { harnessRunning = s; } };

static bool isInf(int n) { return isC(n) && std::isinf(cv(n)); } static bool isNaN(int n) { return isC(n) && std::isnan(cv(n)); }
static int signOf(int n) { if (N[n].lo > 0) return 1; if (N[n].hi < 0) return -1; if (decideNode(mkLT(mkC(0), n))) return 1; if (decideNode(mkLT(n, mkC(0)))) return -1; return 0; }
static int opAdd(int a, int b) { if (isNaN(a) || isNaN(b)) return mkC(NAN); if (isInf(a) && !isC(b)) return a; if (isInf(b) && !isC(a)) return b; return mkAdd(a, b); }
static int opSub(int a, int b) { if (strictNear && a == b && und[a]) return mkraw(SUB, 0, a, a, 0, 0); if (isNaN(a) || isNaN(b)) return mkC(NAN); if (isInf(a) && !isC(b)) return a; if (isInf(b) && !isC(a)) return mkC(-cv(b)); return mkSub(a, b); }
static int opMul(int a, int b) { if (isNaN(a) || isNaN(b)) return mkC(NAN); if (isInf(b)) std::swap(a, b); if (isInf(a) && !isC(b)) { int s = signOf(b); return mkC(s ? s * cv(a) : NAN); } if (strictNear) { if (isC(b)) std::swap(a, b); if (isC(a) && cv(a) == 0 && und[b]) return mkraw(MUL, 0, a, b, 0, 0); } return mkMul(a, b); }
static int opDiv(int a, int b) { if (isNaN(a) || isNaN(b)) return mkC(NAN); if (isInf(b) && !isC(a)) return mkC(0); if (isInf(a) && !isC(b)) { int s = signOf(b); return mkC(s >= 0 ? cv(a) : -cv(a)); } return mkDiv(a, b); }
static int cmpNode(int a, int b, unsigned pred) { // llvm fcmp predicates
  bool nan = isNaN(a) || isNaN(b); bool uno = pred & 8; unsigned p = pred & 7; // 1:EQ 2:GT 4:LT bits
  if (pred == 7) return mkB(!nan); if (pred == 8) return mkB(nan); if (nan) return mkB(uno);
  if (isInf(a) || isInf(b)) { int lt, eq; if (isInf(a) && isInf(b)) { lt = cv(a) < cv(b); eq = cv(a) == cv(b); } else if (isInf(a)) { lt = cv(a) < 0; eq = 0; } else { lt = cv(b) > 0; eq = 0; } int gt = !lt && !eq; return mkB(((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt)); }
  switch (p) { case 1: return mkEQ(a, b); case 2: return mkLT(b, a); case 3: return mkLE(b, a); case 4: return mkLT(a, b); case 5: return mkLE(a, b); case 6: return mkNot(mkEQ(a, b)); case 7: return T_; default: return F_; } }
static uint64_t hnd(int b) { return b == T_ ? 1 : b == F_ ? 0 : (uint64_t)b + 2; }
static int unh(uint64_t h) { return h == 0 ? F_ : h == 1 ? T_ : (int)(h - 2); }
static int toIntNode(int e, int mode, double& out) { // mode 0 trunc, 1 floor, 2 ceil, 3 round-half-away / nearest
  int guard = 0;
  for (;;) { if (++guard > 400) unsupported("too many integer values"); double v; if (modelOK) { model = extend(model); v = evalNode(e, model); } else { v = std::isfinite(N[e].lo) ? N[e].lo + guard - 1 : guard - 1; }
    double k = mode == 0 ? std::trunc(v) : mode == 1 ? std::floor(v) : mode == 2 ? std::ceil(v) : std::round(v); int c; int K = mkC(k);
    if (mode == 0) c = k > 0 ? mkAnd(mkLE(K, e), mkLT(e, mkC(k + 1))) : k < 0 ? mkAnd(mkLT(mkC(k - 1), e), mkLE(e, K)) : mkAnd(mkLT(mkC(-1), e), mkLT(e, mkC(1)));
    else if (mode == 1) c = mkAnd(mkLE(K, e), mkLT(e, mkC(k + 1))); else if (mode == 2) c = mkAnd(mkLT(mkC(k - 1), e), mkLE(e, K)); else c = mkAnd(mkLE(mkC(k - 0.5), e), mkLT(e, mkC(k + 0.5)));
    if (decideNode(c)) { out = k; return 0; } } }
#define BIN(name, fnop, cop) \
  extern "C" double __sym_##name##_d(double a, double b) { if (!isSym(a) && !isSym(b)) return a cop b; Quiet q; return boxD(fnop(toN(a), toN(b))); } \
  extern "C" float __sym_##name##_f(float a, float b) { if (!isSym(a) && !isSym(b)) return a cop b; Quiet q; return boxF(fnop(toN(a), toN(b))); }
BIN(add, opAdd, +) BIN(sub, opSub, -) BIN(mul, opMul, *) BIN(div, opDiv, /)
template <class T> static T neg_(T a) { if (!isSym(a)) return -a; Quiet q; return box<T>(mkNeg(toN(a))); }
template <class T> static uint64_t fcmp_(T a, T b, unsigned p) { Quiet q; if (!isSym(a) && !isSym(b)) { bool un = std::isnan(a) || std::isnan(b); bool r = un ? (p & 8) != 0 : ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b); return r; } return hnd(cmpNode(toN(a), toN(b), p)); }
template <class T> static T select_(uint64_t h, T a, T b) { if (h < 2) return h ? a : b; Quiet q; uint64_t x = 0, y = 0; memcpy(&x, &a, sizeof a); memcpy(&y, &b, sizeof b); if (x == y) return a; int na = toN(a), nb = toN(b); if (isInf(na) || isInf(nb) || isNaN(na) || isNaN(nb)) return decideNode(unh(h)) ? a : b; int c = unh(h); auto kn = known.find(c); if (pcSet.count(c) || (kn != known.end() && kn->second)) return a; if (pcSet.count(mkNot(c)) || kn != known.end()) return b; return box<T>(mkITE(c, na, nb)); }
template <class T> static int64_t toint_(T a) { if (!isSym(a)) return (int64_t)a; Quiet q; double k; toIntNode(toN(a), 0, k); return (int64_t)k; }
template <class T> static T rnd_(T a, int mode) { if (!isSym(a)) return mode == 0 ? std::trunc(a) : mode == 1 ? std::floor(a) : mode == 2 ? std::ceil(a) : std::round(a); Quiet q; double k; toIntNode(toN(a), mode, k); return (T)k; }
template <class T> static T abs_(T a) { if (!isSym(a)) return std::fabs(a); Quiet q; int n = toN(a); return box<T>(mkITE(mkLE(mkC(0), n), n, mkNeg(n))); }
template <class T> static T min_(T a, T b) { if (!isSym(a) && !isSym(b)) return std::fmin(a, b); Quiet q; int x = toN(a), y = toN(b); if (isNaN(x)) return b; if (isNaN(y)) return a; int c = cmpNode(y, x, 4); return box<T>(c == T_ ? y : c == F_ ? x : mkITE(c, y, x)); }
template <class T> static T max_(T a, T b) { if (!isSym(a) && !isSym(b)) return std::fmax(a, b); Quiet q; int x = toN(a), y = toN(b); if (isNaN(x)) return b; if (isNaN(y)) return a; int c = cmpNode(x, y, 4); return box<T>(c == T_ ? y : c == F_ ? x : mkITE(c, y, x)); }
static int fnNode(int k, int a) { if (isNaN(a)) return a; return mkFN(k, a); }
template <class T> static T fn_(T a, int k, T (*cf)(T)) { if (!isSym(a)) return cf(a); Quiet q; return box<T>(fnNode(k, toN(a))); }
template <class T> static T pow_(T a, T b) { if (!isSym(a) && !isSym(b)) return std::pow(a, b); Quiet q; int x = toN(a), y = toN(b); if (isC(y)) { double e = cv(y); if (e == std::floor(e) && std::fabs(e) <= 12) { int r = mkC(1); for (int i = 0; i < std::abs((int)e); i++) r = mkMul(r, x); return box<T>(e < 0 ? mkDiv(mkC(1), r) : r); } if (e == 0.5) return box<T>(mkFN(SQRT, x)); } return box<T>(mkraw(POW, 0, canon(x), canon(y), 0, 0)); }
#define UN1(n, k) extern "C" double __sym_##n##_d(double a) { return fn_<double>(a, k, [](double x) { return std::n(x); }); } extern "C" float __sym_##n##_f(float a) { return fn_<float>(a, k, [](float x) { return std::n(x); }); }
UN1(sin, SIN) UN1(cos, COS) UN1(exp, EXP) UN1(log, LOG) UN1(sqrt, SQRT) UN1(asin, ASIN) UN1(acos, ACOS) UN1(atan, ATAN) UN1(asinh, ASINH) UN1(acosh, ACOSH) UN1(atanh, ATANH)
template <class T> static T comp_(T a, int w) { Quiet q; int n = toN(a); int r = 0; int one = mkC(1);
  switch (w) { case 0: r = mkDiv(mkFN(SIN, n), mkFN(COS, n)); break; case 1: { int e = mkFN(EXP, n); r = mkMul(mkC(0.5), mkSub(e, mkDiv(one, e))); } break; case 2: { int e = mkFN(EXP, n); r = mkMul(mkC(0.5), mkAdd(e, mkDiv(one, e))); } break;
    case 3: { int e = mkFN(EXP, n), i = mkDiv(one, e); r = mkDiv(mkSub(e, i), mkAdd(e, i)); } break; case 4: r = mkFN(EXP, mkMul(n, mkC(M_LN2))); break; case 5: r = mkDiv(mkFN(LOG, n), mkC(M_LN2)); break; case 6: r = mkDiv(mkFN(LOG, n), mkC(M_LN10)); break; case 7: r = mkSub(mkFN(EXP, n), one); break; case 8: r = mkFN(LOG, mkAdd(one, n)); break; }
  return box<T>(r); }
#define UN2(n, w) extern "C" double __sym_##n##_d(double a) { return isSym(a) ? comp_<double>(a, w) : std::n(a); } extern "C" float __sym_##n##_f(float a) { return isSym(a) ? comp_<float>(a, w) : std::n(a); }
UN2(tan, 0) UN2(sinh, 1) UN2(cosh, 2) UN2(tanh, 3) UN2(exp2, 4) UN2(log2, 5) UN2(log10, 6) UN2(expm1, 7) UN2(log1p, 8)
#define UN3(n) extern "C" double __sym_##n##_d(double a) { if (isSym(a)) unsupported(#n); return std::n(a); } extern "C" float __sym_##n##_f(float a) { if (isSym(a)) unsupported(#n); return std::n(a); }
UN3(cbrt) UN3(erf)
#define BI3(n) extern "C" double __sym_##n##_d(double a, double b) { if (isSym(a) || isSym(b)) unsupported(#n); return std::n(a, b); } extern "C" float __sym_##n##_f(float a, float b) { if (isSym(a) || isSym(b)) unsupported(#n); return std::n(a, b); }
BI3(fmod)
#define TT(T, s) \
extern "C" T __sym_neg_##s(T a) { return neg_(a); } extern "C" uint64_t __sym_fcmp_##s(T a, T b, unsigned p) { return fcmp_(a, b, p); } \
extern "C" T __sym_select_##s(uint64_t h, T a, T b) { return select_(h, a, b); } extern "C" int64_t __sym_toint_##s(T a) { return toint_(a); } \
extern "C" T __sym_trunc_##s(T a) { return rnd_(a, 0); } extern "C" T __sym_floor_##s(T a) { return rnd_(a, 1); } extern "C" T __sym_ceil_##s(T a) { return rnd_(a, 2); } extern "C" T __sym_round_##s(T a) { return rnd_(a, 3); } \
extern "C" T __sym_rint_##s(T a) { return isSym(a) ? rnd_(a, 3) : std::rint(a); } extern "C" T __sym_nearbyint_##s(T a) { return isSym(a) ? rnd_(a, 3) : std::rint(a); } \
extern "C" T __sym_fabs_##s(T a) { return abs_(a); } extern "C" T __sym_fmin_##s(T a, T b) { return min_(a, b); } extern "C" T __sym_fmax_##s(T a, T b) { return max_(a, b); } \
extern "C" T __sym_pow_##s(T a, T b) { return pow_(a, b); } extern "C" T __sym_powi_##s(T a, int b) { return pow_(a, (T)b); } \
extern "C" T __sym_atan2_##s(T a, T b) { if (!isSym(a) && !isSym(b)) return std::atan2(a, b); Quiet q; return box<T>(mkraw(ATAN2, 0, canon(toN(a)), canon(toN(b)), 0, 0)); } \
extern "C" T __sym_hypot_##s(T a, T b) { if (!isSym(a) && !isSym(b)) return std::hypot(a, b); Quiet q; int x = toN(a), y = toN(b); return box<T>(mkFN(SQRT, mkAdd(mkMul(x, x), mkMul(y, y)))); } \
extern "C" T __sym_copysign_##s(T a, T b) { if (!isSym(a) && !isSym(b)) return std::copysign(a, b); Quiet q; T m = abs_(a); if (!isSym(b)) return std::signbit(b) ? neg_(m) : m; int x = toN(m); return box<T>(mkITE(mkLT(toN(b), mkC(0)), mkNeg(x), x)); } \
extern "C" T __sym_concrete_##s(T a) { if (isSym(a)) unsupported("symbolic value reinterpreted as integer"); return a; } \
extern "C" uint32_t __sym_fpclass_##s(T a, uint32_t m) { if (!isSym(a)) { switch (std::fpclassify(a)) { case FP_NAN: return (m & 3) != 0; case FP_INFINITE: return std::signbit(a) ? (m & 4) != 0 : (m & 0x200) != 0; case FP_ZERO: return std::signbit(a) ? (m & 0x20) != 0 : (m & 0x40) != 0; default: return std::signbit(a) ? (m & 8) != 0 : (m & 0x100) != 0; } } \
  if (!(m & 0x1f8)) return 0; if ((m & 0x1f8) == 0x1f8) return 1; Quiet q; int n = toN(a); int z = mkC(0); if (decideNode(mkEQ(n, z))) return (m & 0x60) != 0; return decideNode(mkLT(n, z)) ? (m & 0x18) != 0 : (m & 0x180) != 0; }
TT(double, d) TT(float, f)
extern "C" float __sym_d2f(double a) { if (!isSym(a)) return (float)a; Quiet q; return boxF(toN(a)); }
extern "C" double __sym_f2d(float a) { if (!isSym(a)) return (double)a; Quiet q; return boxD(toN(a)); }
extern "C" uint64_t __sym_band(uint64_t a, uint64_t b) { Quiet q; return hnd(mkAnd(unh(a), unh(b))); }
extern "C" uint64_t __sym_bor(uint64_t a, uint64_t b) { Quiet q; return hnd(mkOr(unh(a), unh(b))); }
extern "C" uint64_t __sym_bxor(uint64_t a, uint64_t b) { Quiet q; int x = unh(a), y = unh(b); return hnd(mkOr(mkAnd(x, mkNot(y)), mkAnd(mkNot(x), y))); }
extern "C" uint64_t __sym_bite(uint64_t c, uint64_t a, uint64_t b) { Quiet q; int z = unh(c), x = unh(a), y = unh(b); if (z == T_) return a; if (z == F_) return b; return hnd(mkOr(mkAnd(z, x), mkAnd(mkNot(z), y))); }
extern "C" uint64_t __sym_decide(uint64_t h) { if (h < 2) return h; Quiet q; return decideNode(unh(h)); }

// ---------------------------------------------------------------- harness API
static void observe(int a, int b, const char* l) { obsNodes.push_back({a, b}); obsLabel.push_back(l); }
static std::string labelize(const char* l) { return l; }
extern "C" {
double sym_real(const char* n, double lo, double hi) { Quiet q; return boxD(mkVar(n, lo, hi)); }
void sym_assume_le(double a, double b) { Quiet q; assumeNode(cmpNode(toN(a), toN(b), 5)); }
void sym_assume_lt(double a, double b) { Quiet q; assumeNode(cmpNode(toN(a), toN(b), 4)); }
static void concreteFail(const char* l, int a, int b) { st.obl++; if (modelOK) { model = extend(model); reportViol(l, model, isC(a) ? cv(a) : 0, isC(b) ? cv(b) : 0); } else { std::vector<double> m; R r = feasible({}, m, true); if (r == SAT) reportViol(l, m, isC(a) ? cv(a) : 0, isC(b) ? cv(b) : 0); else if (r == UNK) reportUnknown(l, "path feasibility"); else st.d_nra++; } }
static std::set<std::pair<int, int>> strictSeen; static void finRec(int x, int guard, std::set<std::pair<int, int>>& seen, std::vector<std::pair<int, int>>& out); static void finDone(int x, std::vector<std::pair<int, int>>& out, const char* l);
void sym_strict(int on) { strictNear = on; }
void sym_check_near(double a, double b, double tol, const char* l) { Quiet q; int x = toN(a), y = toN(b); observe(x, y, l); if (strictNear) { std::vector<std::pair<int, int>> out; finRec(x, T_, strictSeen, out); if (!out.empty()) finDone(x, out, l); }

  if (isC(x) && isC(y)) { if (cv(x) == cv(y) || std::fabs(cv(x) - cv(y)) <= tol) { st.obl++; st.d_nf++; } else concreteFail(l, x, y); return; }
  if ((isC(x) && !std::isfinite(cv(x))) || (isC(y) && !std::isfinite(cv(y)))) { concreteFail(l, x, y); return; }
  if (x == y) { st.obl++; st.d_nf++; return; }
  int dd = mkSub(x, y); Ob o{0, x, y, tol, 0, labelize(l)}; o.ok = mkAnd(mkLE(dd, mkC(tol)), mkLE(mkC(-tol), dd));
  if (o.ok == T_) { st.obl++; st.d_nf++; return; } if (o.ok == F_) { concreteFail(l, x, y); return; }
  pend.push_back(o); if (pend.size() >= 2000) flushObs(); }
void sym_check_le(double a, double b, double s, const char* l) { Quiet q; int x = toN(a), y = toN(b); observe(x, y, l); int ok = cmpNode(x, opAdd(y, mkC(s)), 5); if (ok == T_) { st.obl++; st.d_nf++; return; } if (ok == F_ ) { concreteFail(l, x, y); return; } pend.push_back({1, x, y, s, ok, labelize(l)}); if (pend.size() >= 2000) flushObs(); }
void sym_check_lt(double a, double b, const char* l) { Quiet q; int x = toN(a), y = toN(b); observe(x, y, l); int ok = cmpNode(x, y, 4); if (ok == T_) { st.obl++; st.d_nf++; return; } if (ok == F_) { concreteFail(l, x, y); return; } pend.push_back({2, x, y, 0, ok, labelize(l)}); }
void sym_check_impl_le(double p, double qq, double a, double b, double s, const char* l) { Quiet q; int x = toN(a), y = toN(b); observe(x, y, l); int ok = mkOr(mkNot(cmpNode(toN(p), toN(qq), 4)), cmpNode(x, opAdd(y, mkC(s)), 5)); if (ok == T_) { st.obl++; st.d_nf++; return; } if (ok == F_) { concreteFail(l, x, y); return; } pend.push_back({2, x, y, s, ok, labelize(l)}); }
// an intermediate fact that later checks may use: taken only when the solver proves it, ignored otherwise
void sym_hint_impl_le(double p, double qq, double a, double b, double s) { Quiet q; int ok = mkOr(mkNot(cmpNode(toN(p), toN(qq), 4)), cmpNode(toN(a), opAdd(toN(b), mkC(s)), 5)); if (ok == T_ || ok == F_) return; int no = mkNot(ok); if (lraCheck({no}, nullptr) == UNSAT || nraLocal({no})) { addPc(ok); if (getenv("VERIF_DUMP")) fprintf(stderr, "hint taken\n"); } }
void sym_check_bool(int c, const char* l) { Quiet q; observe(mkC(c != 0), mkC(1), l); st.obl++; if (c) { st.d_nf++; return; } st.obl--; concreteFail(l, mkC(0), mkC(1)); }
static void finRec(int x, int guard, std::set<std::pair<int, int>>& seen, std::vector<std::pair<int, int>>& out) { if (!seen.insert({x, guard}).second || seen.count({x, T_}) > (guard == T_ ? 1u : 0u)) return; Node n = N[x];
  switch (n.op) { case CONST: if (!std::isfinite(n.d)) out.push_back({guard, F_}); return; case VAR: if (V[n.a].name == "__uninit") out.push_back({guard, F_}); return; case BC: return;
    case DIV: out.push_back({guard, mkNot(mkEQ(n.b, mkC(0)))}); break; case FN: if (n.k == SQRT) out.push_back({guard, mkLE(mkC(0), n.a)}); if (n.k == LOG) out.push_back({guard, mkLT(mkC(0), n.a)}); if (n.k == ASIN || n.k == ACOS) out.push_back({guard, mkAnd(mkLE(mkC(-1), n.a), mkLE(n.a, mkC(1)))}); finRec(n.a, guard, seen, out); return;
    case ITE: finRec(n.a, guard, seen, out); finRec(n.b, mkAnd(guard, n.a), seen, out); finRec(n.c, mkAnd(guard, mkNot(n.a)), seen, out); return;
    case UF: { auto ar = ufs[n.a].args; for (int y : ar) finRec(y, guard, seen, out); return; } case NEG: case NOT: finRec(n.a, guard, seen, out); return; default: break; }
  finRec(n.a, guard, seen, out); finRec(n.b, guard, seen, out); }
static void finDone(int x, std::vector<std::pair<int, int>>& out, const char* l) { std::set<int> done;
  for (auto& g : out) { int ok = mkOr(mkNot(g.first), g.second); if (!done.insert(ok).second) continue; static std::unordered_set<int> finSeen; if (ok != F_ && !finSeen.insert(ok).second) { st.obl++; st.d_nf++; continue; } if (ok == T_) { st.obl++; st.d_nf++; continue; } if (ok == F_) { concreteFail(l, x, mkC(0)); continue; } pend.push_back({2, x, mkC(0), 0, ok, labelize(l)}); } }
void sym_check_finite(double a, const char* l) { Quiet q; int x = toN(a); observe(x, mkC(0), l); std::set<std::pair<int, int>> seen; std::vector<std::pair<int, int>> out; finRec(x, T_, seen, out); if (out.empty()) { st.obl++; st.d_nf++; } finDone(x, out, l); }
double sym_diff(double e, double v) { Quiet q; int x = toN(e), y = toN(v); if (N[y].op != VAR) unsupported("sym_diff by non-variable"); int r = D(x, y, dmemo[y]); diffNodes.push_back(r); return boxD(r); }
double sym_diff2(double e, double v1, double v2) { Quiet q; int x = toN(e), y = toN(v1), z = toN(v2); int r = D(D(x, y, dmemo[y]), z, dmemo[z]); diffNodes.push_back(r); return boxD(r); }
double sym_uf(int id, const int* mi, int n, const double* a) { Quiet q; std::vector<int> m(mi, mi + n), ar; for (int i = 0; i < n; i++) ar.push_back(toN(a[i])); return boxD(mkUF(id, m, ar)); }
void sym_reach(const char* l) { Quiet q; reached.insert(l); }
int sym_is_native() { return 0; }
void sym_prune() { Quiet q; flushObs(); finish("prune"); }
static void crashLabel(const char* l) { harnessRunning = false; flushObs(); if (modelOK) { model = extend(model); if (holds(model, {})) { reportViol(l, model, 0, 0); finish("crash"); } } std::vector<double> m; R r = feasible({}, m, true); if (r == SAT) reportViol(l, m, 0, 0); else if (r == UNK) reportUnknown(l, "path feasibility"); finish("crash"); }
void __assert_fail(const char* e, const char* f, unsigned line, const char* fn) __THROW { (void)fn; std::string s = std::string("assertion failed: ") + e + " at " + (strrchr(f, '/') ? strrchr(f, '/') + 1 : f) + ":" + std::to_string(line); crashLabel(s.c_str()); abort(); }
static void onSig(int s) { static int n = 0; if (n++) _exit(9); std::string l = "signal " + std::to_string(s); if (!harnessRunning) { logl("{\"t\":\"error\",\"m\":\"engine signal %d\"}", s); _exit(9); } crashLabel(l.c_str()); }
// a harness that computes for WD_SECONDS of its own time without a new term, a query or a path choice is looping: that path never ends
static int wdIdle = 0; static size_t wdLast = 0;
static void onTick(int) { if (!harnessRunning) { wdIdle = 0; return; } size_t p = N.size() + st.q + st.forks; if (p != wdLast) { wdLast = p; wdIdle = 0; return; } if (++wdIdle >= 6) crashLabel("does not terminate"); }
// uninitialised heap memory reads as the reserved "uninitialised" pattern while the harness runs
void* __libc_malloc(size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (harnessRunning && p) memset(p, 0xFF, malloc_usable_size(p)); return p; }
}
static double envd(const char* n, double d) { const char* e = getenv(n); return e ? atof(e) : d; }
int main() {
  T_ = -1; N.reserve(1 << 16); N.push_back({BC, 0, 0, 0, 0, 0, 0, 0}); N.push_back({BC, 0, 1, 0, 0, 0, 1, 1}); und.assign(2, 0); F_ = 0; T_ = 1;
  outDir = getenv("SYM_OUT") ? getenv("SYM_OUT") : "."; seed = (int)envd("SYM_SEED", 1); maxJobs = (int)envd("SYM_JOBS", 4); maxPaths = (int)envd("SYM_MAXPATHS", 4000); maxWit = (int)envd("SYM_MAXWIT", 24); deadline = now() + envd("SYM_TIME", 300); rlim = (unsigned)envd("SYM_RLIM", 2000000); rlimNRA = (unsigned)envd("SYM_RLIM_NRA", 40000000); nraTimeout = (int)envd("SYM_NRA_MS", 20000); polyCap = (size_t)envd("SYM_POLYCAP", 6000);
  rng.seed(seed);
  logfd = open((outDir + "/log.jsonl").c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof(Shared)); sh->running = 1;
  zc = new z3::context(); lra = new z3::solver(*zc, "QF_LRA"); { z3::params p(*zc); p.set("timeout", 30000u); p.set("random_seed", (unsigned)seed); lra->set(p); }
  static char altstack[1 << 16]; stack_t ss{altstack, 0, sizeof altstack}; sigaltstack(&ss, 0); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) sigaction(s, &sa, 0);
  sa.sa_handler = onTick; sa.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &sa, 0); armTick();
  harnessRunning = true; harness(); harnessRunning = false;
  finish("end");
}
