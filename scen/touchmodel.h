// Reference for touch searches: every sequence of calls, every row of every part proved one by one.
#ifndef VERIF_TOUCHMODEL_H
#define VERIF_TOUCHMODEL_H
#include "libmodel.h"
#include <ringing/table_search.h>
using namespace ref; using namespace sim; using ringing::table_search;
namespace {
typedef vector<int> Calls;   // 0 plain, k the k-th call
Row mul(Row const& a, Row const& b) { return compose(a, b); }
struct Spec {
  int n; Method lead; Change le; vector<Change> calls; bool basic, rot; int flags = 0; size_t lo = 0, hi = size_t(-1); bool range = false; vector<Row> parts; size_t clo = 0, chi = size_t(-1);
  Change const& call(int k) const { return k ? calls[k - 1] : le; }
  vector<Change> changes(Calls const& c) const { vector<Change> v; for (int k : c) { v.insert(v.end(), lead.begin(), lead.end()); v.push_back(call(k)); } return v; }
};
struct Brute {   // every sequence of calls, all rows of all parts proved one by one
  Spec const& s; std::set<Row> had; Calls c; std::set<Calls> out; bool order_only; size_t work = 0;
  Brute(Spec const& s) : s(s) {}
  int order(Row const& r) { Row x = r; int k = 1; while (x != rounds(s.n)) x = mul(x, r), ++k; return k; }
  void go(Row const& lh) {
    if (++work > 400000) discard();
    bool round = std::find(s.parts.begin(), s.parts.end(), lh) != s.parts.end();
    if (!c.empty() && round) { if (c.size() >= s.lo && (s.parts.size() == 1 || (s.flags & table_search::mutually_true_parts) || order(lh) == (int)s.parts.size())) out.insert(c); return; }
    if (c.size() >= s.hi) return;
    vector<Row> add; Row r = lh; bool ok = true;
    auto one = [&](Row const& x) { for (auto& p : s.parts) { Row y = mul(p, x); if (!had.insert(y).second) return false; add.push_back(y); } return true; };
    for (auto& ch : s.lead) { if (!(ok = one(r))) break; r = ref::apply(r, ch); }
    if (ok) ok = one(r);
    if (ok) for (int k = 0; k <= (int)s.calls.size(); ++k) { c.push_back(k); go(ref::apply(r, s.call(k))); c.pop_back(); }
    for (auto& x : add) had.erase(x);
  }
};
Calls least(Calls c) { Calls b = c; for (size_t i = 0; i < c.size(); ++i) { std::rotate(c.begin(), c.begin() + 1, c.end()); b = std::min(b, c); } return b; }
Spec gen() {
  Spec s; s.n = choose(3) ? 4 : 5; bool hunt = choose(3) != 0; int len = s.n == 4 ? 1 + choose(8) : 4 + choose(9);
  auto chg = [&](bool fix) { for (;;) { Change c = gen_change(s.n); if (fix && !c.sw.empty() && c.sw[0] == 0) { c.sw.erase(c.sw.begin()); if (c.sw.empty()) c.sw.push_back(1 + choose(s.n - 2)); } return c; } };
  for (int t = 0;; ++t) { if (t > 60) discard(); s.lead.clear(); int half = len / 2; 
    if (hunt) { vector<Change> h; for (int i = 0; i < half; ++i) h.push_back(gen_change(s.n)); s.lead = h; for (int i = half - 2; i >= 0; --i) s.lead.push_back(h[i]); } else for (int i = 0; i + 1 < len; ++i) s.lead.push_back(gen_change(s.n));
    s.le = chg(hunt);
    std::set<Row> seen; Row r = rounds(s.n); bool ok = true; for (auto& c : s.lead) { ok &= seen.insert(r).second; r = ref::apply(r, c); } ok &= seen.insert(r).second; if (hunt) ok &= ref::apply(r, s.le)[0] == 0; if (ok) break; }   // a lead that repeats a row is no method
  int nc = choose(3); for (int i = 0; i < nc; ++i) { Change c = chg(hunt && choose(5)); if (c == s.le || std::find(s.calls.begin(), s.calls.end(), c) != s.calls.end()) continue; s.calls.push_back(c); }
  s.basic = choose(3) == 0; s.rot = choose(2); s.parts = { rounds(s.n) };
  if (!s.basic && choose(3) == 0) { Row lh = rounds(s.n); for (auto& c : s.lead) lh = ref::apply(lh, c); lh = ref::apply(lh, s.le); bool fixp = choose(3), fixed = lh[0] == 0 && (s.le.sw.empty() || s.le.sw[0] != 0); for (auto& c : s.calls) fixed &= c.sw.empty() || c.sw[0] != 0; Row g = rounds(s.n); for (int i = s.n - 1; i > (fixed && fixp ? 1 : 0); --i) std::swap(g[i], g[choose(i - (fixed && fixp ? 1 : 0) + 1) + (fixed && fixp ? 1 : 0)]); s.parts.clear(); Row x = rounds(s.n); do { s.parts.push_back(x); x = mul(x, g); } while (x != rounds(s.n)); if (choose(2)) s.flags |= table_search::mutually_true_parts; }
  size_t most = s.n == 4 ? 24 : s.calls.size() == 2 ? 7 : 9;
  if (s.n == 5 || choose(2)) { s.range = true; s.lo = choose(4); s.hi = s.lo + choose(most - s.lo + 1); }
  if (!s.basic && choose(3) == 0 && s.range) { s.flags |= table_search::length_in_changes; size_t unit = s.parts.size() * (s.lead.size() + 1); s.clo = s.lo ? s.lo * unit - choose(unit) : 0; s.chi = s.hi * unit + choose(unit); }
  if (s.rot) s.flags |= table_search::ignore_rotations;
  return s;
}
}
#endif
