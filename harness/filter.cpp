// C23: line-search filter: every sequence of H_K operations with arbitrary values
#include "hcommon.h"
#include <vector>
#include <cstring>
#include <utility>
#include "solvers/line_search.hpp"
#ifndef H_SC
#define H_SC double
#endif
typedef H_SC S; typedef std::pair<S, S> Pr;
// stored pairs are copies: identity of the stored value, not equality of numbers (which would split every path)
// compares stored values bit by bit, out of reach of the optimiser
__attribute__((noinline)) static bool same(const S* a, const S* b) { asm volatile("" : "+r"(a), "+r"(b) : : "memory"); return !memcmp(a, b, sizeof(S)); }
__attribute__((noinline)) static bool is(const Pr& p, S a, S b) { S x = a, y = b; return same(&p.first, &x) && same(&p.second, &y); }
static S both(const char* p, int k) { return (S)var(p + std::to_string(k), -4, 4); }
void harness() { sym_strict(1);
  static const int ops[] = {H_OPS}; const int K = sizeof(ops) / sizeof(ops[0]);   // 0 add, 1 query only, 2 clear, 3 remove_one, 4 query then add
  LSFilter<S>& f = *new LSFilter<S>();
#ifdef H_DEPTH
  f.max_depth = H_DEPTH;
#else
  sym_check_bool(f.max_depth == 10, "default depth");
#endif
#ifdef H_BETA
  f.beta = (S)var("beta", 0, 0.5);
#endif
  const S beta = f.beta; const int depth = f.max_depth;
  for (int k = 0; k < K; k++) {
    std::vector<Pr> old(f.m_filter.begin(), f.m_filter.end());
    if (ops[k] == 2) { f.clear(); sym_check_bool(f.m_filter.empty(), "clear empties"); continue; }
    if (ops[k] == 3) { if (old.empty()) continue; f.remove_one(); std::vector<Pr> now(f.m_filter.begin(), f.m_filter.end()); sym_check_bool(now.size() + 1 == old.size(), "remove_one size"); if (now.size() + 1 != old.size()) return; for (size_t i = 0; i < now.size(); i++) { near_(now[i].first, old[i].first, 0, "remove_one keeps the rest"); near_(now[i].second, old[i].second, 0, "remove_one keeps the rest"); } continue; }
    S c = both("c", k), v = (S)var("v" + std::to_string(k), 0, 4);
    if (ops[k]) {
    bool acc = f.is_acceptable(c, v), dom = f.is_dominated(c, v);
    bool racc = true, rdom = false;
    for (auto& p : old) { if (p.first - beta * p.second <= c && p.second - beta * p.second <= v) racc = false; if (p.first <= c && p.second <= v) rdom = true; }
    sym_check_bool(acc == racc, "acceptable"); sym_check_bool(dom == rdom, "dominated"); if (dom && beta >= S(0)) sym_check_bool(!acc, "dominated is not acceptable");
    { std::vector<Pr> now(f.m_filter.begin(), f.m_filter.end()); sym_check_bool(now.size() == old.size(), "queries do not change the filter"); if (now.size() != old.size()) return; }
    sym_reach(acc ? "accepted" : "rejected"); }
    if (ops[k] != 1) {
      f.add(c, v); std::vector<Pr> now(f.m_filter.begin(), f.m_filter.end());
      sym_check_bool((int)now.size() <= depth, "depth"); bool in = false; for (auto& p : now) { bool eq = is(p, c, v); in = in || eq; } sym_check_bool(in, "added pair present"); sym_check_bool(f.is_dominated(c, v), "added pair dominates itself");
      if (k < 2) sym_check_bool(!f.is_acceptable(c, v), "added pair not acceptable again");
      // the rest: exactly the old pairs that are not dominated (room), or the old ones but one (full)
      if ((int)old.size() < depth) { std::vector<Pr> keep; for (auto& p : old) { bool d = p.first >= c && p.second >= v; if (!d) keep.push_back(p); }
        sym_check_bool(now.size() == keep.size() + 1, "exactly the dominated pairs are removed"); if (now.size() != keep.size() + 1) return;
        int miss = 0; for (auto& p : keep) { bool fd = false; for (auto& q : now) { bool eq = is(p, q.first, q.second); fd = fd || eq; } miss += !fd; } sym_check_bool(miss == 0, "other pairs kept");
        sym_reach(keep.size() < old.size() ? "removed" : "kept"); }
      else { sym_check_bool(now.size() == old.size(), "full filter keeps its size"); int miss = 0; for (auto& p : old) { bool fd = false; for (auto& q : now) { bool eq = is(p, q.first, q.second); fd = fd || eq; } miss += !fd; } sym_check_bool(miss <= 1, "full filter drops one pair"); sym_reach("evicted"); }
    }
  }
  sym_reach("end");
}
