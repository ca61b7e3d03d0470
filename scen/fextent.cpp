// fextent: the sets of leads it finds, proved row by row.
#include "plans.h"
#include <sstream>
namespace {
struct Shown { int idx; Row r; char sign; vector<int> links; };
vector<Shown> parse(AppRun& r, vector<string> const& v, int n) {
  vector<Shown> out; for (auto& l : v) { Shown s; int at = 0; char row[80], sg; if (sscanf(l.c_str(), "%d: %79[0-9A-Z]%c%n", &s.idx, row, &sg, &at) != 3 || (int)strlen(row) != n) violation("extent.line", "%s: printed %s", show_args(r).c_str(), quote(l).c_str()); s.r = row_of(row, n); s.sign = sg; std::set<int> q(s.r.begin(), s.r.end()); SIM_CHECK((int)q.size() == n, "extent.line", "%s: printed %s", show_args(r).c_str(), quote(l).c_str());
    size_t i = at; while (i < l.size()) { while (i < l.size() && l[i] == ' ') ++i; if (i >= l.size()) break; size_t j = i; while (j < l.size() && isdigit((unsigned char)l[j])) ++j; SIM_CHECK(j > i, "extent.line", "%s: printed %s", show_args(r).c_str(), quote(l).c_str()); s.links.push_back(atoi(l.substr(i, j - i).c_str())); i = j; } out.push_back(s); }
  return out; }
bool is_tenors(Row const& r, int n) { for (int b = 6; b < n; ++b) if (r[b] != b) return false; return true; }
Row inverse(Row const& r) { Row q(r.size()); for (size_t i = 0; i < r.size(); ++i) q[r[i]] = i; return q; }
}
SCENARIO(extent_search, "P22", 4) {
  static const int st[] = { 4, 4, 5, 5, 6 }; int n = st[choose(5)]; bool in = chance(1, 2) || (n == 6 && chance(3, 4)), any = n < 6 && chance(1, 4); AppRun r; r.args = { "fextent" }; val(r, "b", "bells", fmt("%d", n)); if (in) flag(r, "i", "in-course"); if (any) flag(r, "p", "principle");
  Method m; if (chance(2, 3)) m = gen_sym(n, false, {}); else { m = gen_method(n, 10).m; if (!any && head(m, n)[0] != 0) discard(); } bool whole = true_lead(m, n); (void)whole;
  vector<string> ps = gen_parts(n, in, any); for (auto& p : ps) val(r, "P", "part-end", p); vector<Row> gens; for (auto& p : ps) gens.push_back(row_of(p, n)); vector<Row> G = group_of(gens, n); vector<Row> H = heads(n, in, any); std::set<Row> HS(H.begin(), H.end());
  auto rep = [&](Row const& x) { Row b = x; for (auto& g : G) b = std::min(b, compose(g, x)); return b; };
  // falseness: what leads share a row with the lead from rounds
  vector<Row> R = lead(m, n); std::set<Row> F; for (auto& x : R) for (auto& y : R) { Row q = compose(x, inverse(y)); if (HS.count(q) && q != rounds(n)) F.insert(q); }
  auto self_false = [&](Row const& a) { for (auto& g : G) if (g != rounds(n) && F.count(compose(inverse(a), compose(g, a)))) return true; return false; };
  auto clash = [&](Row const& a, Row const& b) { for (auto& f : F) if (rep(compose(a, f)) == rep(b)) return true; return false; };
  // required leads
  vector<Row> req; bool refuse = self_false(rounds(n)); if (chance(1, 4)) { int k = range(1, 3); for (int i = 0; i < k; ++i) { Row a = H[choose(H.size())]; if (!req.empty() && chance(1, 2)) a = compose(G[choose(G.size())], req[0]); req.push_back(a); val(r, "r", "required", str(a)); } for (size_t i = 0; i < req.size(); ++i) { if (self_false(req[i])) refuse = true; for (size_t j = 0; j < i; ++j) if (rep(req[i]) == rep(req[j]) || clash(req[i], req[j])) refuse = true; } }
  // linkage
  bool link = chance(1, 3); vector<Change> calls; if (link) { if (in && !even(head(m, n))) discard(); flag(r, "k", "linkage"); int k = choose(3); if (k == 0 && n < 4) discard(); for (int i = 0; i < k; ++i) { Change c = gen_change(n); Row x = ref::apply(end_of(m, n), c); if ((!any && x[0] != 0) || (in && !even(x))) discard(); calls.push_back(c); val(r, "C", "call", c.places().empty() ? "X" : c.pn()); } if (k == 0) { Change c; c.n = n; for (int i = 1; i + 1 < n; ++i) if (i == 1 || i >= 4) { c.sw.push_back(i); ++i; } if (true) { c.sw.clear(); c.sw.push_back(1); for (int i = 4; i + 1 < n; i += 2) c.sw.push_back(i); } Row x = ref::apply(end_of(m, n), c); if ((!any && x[0] != 0) || (in && !even(x))) discard(); calls.push_back(c); } }
  else if (chance(1, 12)) val(r, "C", "call", "X");
  size_t M = H.size() / G.size(); bool settle = M <= 60 && chance(1, 2); long steps = settle ? 250 * M : 1 + choose(2000); val(r, "n", "iterations", fmt("%ld", steps)); int seed = 1 + choose(1000000); val(r, "", "seed", fmt("%d", seed));
  bool weighted = chance(1, 4); if (weighted) for (int k = range(1, 2); k; --k) { static const char* nm[] = { "i", "in-course", "o", "out-of-course", "t", "tenors-together", "f", "tenors-over", "k", "linked", "b", "base" }; static const char* w[] = { "0", "0.1", "0.3", "2", "1.7", "-1", "-.2", "10", "1e-3" }; val(r, "W", "weighting", fmt("%s=%s", nm[choose(12)], w[choose(9)])); }
  bool quiet = chance(1, 4), print = chance(3, 4); int loop = quiet && print ? 1 : chance(1, 3) ? range(1, 4) : 1; if (loop != 1 || chance(1, 4)) val(r, "l", "loop", fmt("%d", loop)); if (quiet) flag(r, "q", "quiet"); if (print) flag(r, "", "print-leads"); long least = 0; if (chance(1, 4)) { least = choose(H.size() + 3); val(r, "", "min-leads", fmt("%ld", least)); } if (chance(1, 8)) flag(r, "u", "status");
  string pn = pn_of(m); size_t at = 1 + choose(r.args.size()); if (pn[0] == '-') discard(); r.args.insert(r.args.begin() + at, pn);
  int f = choose(8); if (f == 1) r.out_fail_at = choose(2000); if (f == 2) r.out_fail_sync = 1; if (f == 3) r.alloc_fail = 1 + choose(chance(1, 2) ? 300 : 20000);
  nontrivial(); ran(r); if (!r.threw.empty() || r.aborted) return; string how = show_args(r);
  if (r.code) { SIM_CHECK(r.out_failed || r.alloc_fired || refuse, "extent.refused", "%s: exit status %d (%s)", how.c_str(), r.code, quote(r.err).c_str()); if (!r.alloc_fired) SIM_CHECK(!r.err.empty(), "extent.mute", "%s: exit status %d and not a word", how.c_str(), r.code); if (refuse) probe("conflicts refused"); return; }
  SIM_CHECK(!r.out_failed, "extent.output", "%s: exit status 0 though the output could not be written", how.c_str()); if (r.alloc_fired && !r.err.empty()) return; SIM_CHECK(!refuse, "extent.accepted", "%s: what is required is false, or conflicts with the parts", how.c_str());
  // read what it printed
  vector<string> L = lines(r.out); size_t i = 0; auto next = [&]() { if (i >= L.size()) violation("extent.short", "%s: the output ends early: %s", how.c_str(), quote(r.out, 300).c_str()); return L[i++]; };
  if (!quiet) { string a = next(), b = next(); SIM_CHECK(a == fmt("Started with seed %d", seed), "extent.seed", "%s: printed %s", how.c_str(), a.c_str()); SIM_CHECK(b == fmt("Using part-end group of order %zu", G.size()), "extent.parts", "%s: printed %s, the order is %zu", how.c_str(), b.c_str(), G.size()); }
  long best = 0, lenm = m.size(); vector<Row> fol; fol.push_back(head(m, n)); for (auto& c : calls) fol.push_back(ref::apply(end_of(m, n), c));
  for (int k = 0; k < loop; ++k) {
    long got = -1, chg = -1; bool must = print; if (!quiet) { string l = next(); int used = 0; if (sscanf(l.c_str(), "%ld leads (%ld)%n", &got, &chg, &used) != 2) violation("extent.count", "%s: printed %s", how.c_str(), quote(l).c_str()); best = std::max(best, got); string rest = l.substr(used), want = loop != 1 ? fmt(" [highest = %ld leads (%ld)]", best, best * lenm) : ""; SIM_CHECK(chg == got * lenm && rest == want, "extent.count", "%s: printed %s", how.c_str(), quote(l).c_str()); must = print && got >= least; }
    vector<string> d; if (print) { if (quiet) { d = L; i = L.size(); } else if (must) { while (i < L.size() && !L[i].empty()) d.push_back(L[i++]); for (int j = 0; j < 4; ++j) { string bl = next(); SIM_CHECK(bl.empty(), "extent.more", "%s: printed more: %s", how.c_str(), quote(bl).c_str()); } } }
    if (!must) continue; vector<Shown> v = parse(r, d, n); if (!quiet) SIM_CHECK((long)(v.size() * G.size()) == got, "extent.number", "%s: %zu leads in %zu parts, said to be %ld", how.c_str(), v.size(), G.size(), got); else SIM_CHECK(v.empty() || (long)(v.size() * G.size()) >= least, "extent.least", "%s: %zu leads printed", how.c_str(), v.size() * G.size()); if (quiet && v.empty()) { if (least) continue; }
    std::map<Row, int> idx; std::set<Row> rows; for (auto& s : v) { SIM_CHECK(HS.count(s.r), "extent.head", "%s: printed a lead from %s", how.c_str(), str(s.r).c_str()); SIM_CHECK(s.sign == (even(s.r) ? '+' : '-'), "extent.sign", "%s: printed %s%c", how.c_str(), str(s.r).c_str(), s.sign); SIM_CHECK(idx.emplace(rep(s.r), s.idx).second, "extent.twice", "%s: printed %s twice", how.c_str(), str(s.r).c_str());
      for (auto& g : G) { Row a = compose(g, s.r); std::set<Row> mine; for (auto& x : R) mine.insert(compose(a, x)); for (auto& x : mine) SIM_CHECK(rows.insert(x).second, "extent.false", "%s: the row %s of the lead from %s is in another lead", how.c_str(), str(x).c_str(), str(a).c_str()); } }
    { std::set<int> ids; for (auto& x : idx) SIM_CHECK(ids.insert(x.second).second, "extent.index", "%s: two leads have number %d", how.c_str(), x.second); }
    if (!link) for (auto& q : req) SIM_CHECK(idx.count(rep(q)), "extent.required", "%s: the lead from %s is missing", how.c_str(), str(q).c_str());
    for (auto& s : v) { vector<int> want; if (link) { for (auto& q : fol) { Row x = rep(compose(s.r, q)); if (x != rep(s.r) && idx.count(x)) want.push_back(idx[x]); } SIM_CHECK(!want.empty(), "extent.linked", "%s: no lead follows the one from %s", how.c_str(), str(s.r).c_str()); } SIM_CHECK(s.links == want, "extent.links", "%s: what follows %s is given wrongly", how.c_str(), str(s.r).c_str()); }
    // in time no lead is left that could be added
    if (settle && !weighted && !link) { for (auto& h : H) { if (rep(h) != h || idx.count(h) || self_false(h)) continue; bool no = false; for (auto& s : v) if (clash(s.r, h) || clash(h, s.r)) { no = true; break; } SIM_CHECK(no, "extent.maximal", "%s: the lead from %s could be added", how.c_str(), str(h).c_str()); } probe("maximal sets"); }
    if (!v.empty()) probe(link ? "linked sets" : G.size() > 1 ? "sets in parts" : "sets"); state(hash(fmt("%d %d %zu %zu %d", n, in, G.size(), v.size(), link)));
  }
  if (quiet && !print) { SIM_CHECK(L.size() == 1 && !L[0].empty() && L[0].find_first_not_of("0123456789") == string::npos, "extent.quiet", "%s: printed %s", how.c_str(), quote(r.out).c_str()); long x = atol(L[0].c_str()); SIM_CHECK(x <= (long)H.size() && x % (long)G.size() == 0, "extent.quiet", "%s: printed %ld", how.c_str(), x); i = L.size(); }
  SIM_CHECK(i >= L.size(), "extent.more", "%s: printed more: %s", how.c_str(), quote(i < L.size() ? L[i] : "").c_str());
  if (chance(1, 6) && !r.alloc_fail) { AppRun s; s.args = r.args; ran(s); SIM_CHECK(s.out == r.out && s.code == 0, "extent.repeat", "%s: the same seed gives another answer", how.c_str()); probe("repeated"); }
}
// Whole courses: each is every lead from a head with the tenor home until that head comes round.
SCENARIO(extent_courses, "P22", 2) {
  static const int st[] = { 5, 5, 6, 6, 7, 8 }; int n = st[choose(6)]; bool tt = n >= 7 ? n == 8 || chance(1, 2) : chance(1, 4), in = chance(1, 2) || n >= 7; AppRun r; r.args = { "fextent" }; val(r, "b", "bells", fmt("%d", n)); flag(r, "c", "whole-courses"); if (in) flag(r, "i", "in-course"); if (tt) flag(r, "t", "tenors-together");
  Method m; if (n <= 6 && chance(1, 4)) { m = gen_method(n, 10).m; if (head(m, n)[0] != 0) discard(); } else m = gen_sym(n, false, {}); Row lh = head(m, n); if (in && !even(lh)) discard();
  vector<Row> C = { rounds(n) }; for (Row x = lh; x != rounds(n); x = compose(x, lh)) { if (x[n - 1] == n - 1) discard(); C.push_back(x); } bool cycle = (int)C.size() == n - 1; if (C.size() * m.size() > 240) discard();
  auto is_head = [&](Row const& x) { if (x[0] != 0 || x[n - 1] != n - 1 || (in && !even(x))) return false; if (tt) for (int b = 6; b < n; ++b) if (x[b] != b) return false; return true; };
  vector<string> ps = gen_parts(n, in, false); vector<Row> gens; for (auto& p : ps) { Row g = row_of(p, n); if ((!cycle && g[n - 1] != n - 1)) discard(); if (tt) for (int b = 6; b < n; ++b) if (g[b] != b) discard(); val(r, "P", "part-end", p); gens.push_back(g); } vector<Row> G = group_of(gens, n); if (G.size() > 60) discard();
  vector<Row> H; for (auto& x : heads(n, in, false)) if (is_head(x)) H.push_back(x);
  vector<Row> R; for (auto& c : C) for (auto& x : lead(m, n)) R.push_back(compose(c, x)); bool whole = std::set<Row>(R.begin(), R.end()).size() == R.size(); if (!whole) discard(); bool moves = false; for (auto& g : G) if (g[n - 1] != n - 1) moves = true;
  auto course_of = [&](Row const& a) { Row b; for (auto& c : C) { Row x = compose(a, c); if (x[n - 1] == n - 1) b = x; } return b; };
  std::map<Row, Row> reps; auto rep = [&](Row const& x) { auto it = reps.find(x); if (it != reps.end()) return it->second; Row b; for (auto& g : G) { Row y = course_of(compose(g, x)); if (!y.empty() && (b.empty() || y < b)) b = y; } return reps[x] = b; };
  std::set<Row> F; for (auto& x : R) { Row xi = inverse(x); (void)xi; for (auto& y : R) { Row q = compose(x, inverse(y)); if (q[0] == 0 && q[n - 1] == n - 1 && q != rounds(n)) F.insert(q); } if (n == 8) break; }
  if (n == 8) { F.clear(); vector<Row> ri; for (auto& y : R) ri.push_back(inverse(y)); for (auto& x : R) for (auto& y : ri) { if (x[y[0]] != 0 || x[y[n - 1]] != n - 1 || x[y[6]] != 6) continue; Row q = compose(x, y); if (q != rounds(n)) F.insert(q); } }
  auto self_false = [&](Row const& a) { std::set<Row> seen; for (auto& f : F) { Row b = compose(a, f); if (is_head(b) && b != a && rep(b) == rep(a)) return true; } return false; };
  auto clash = [&](Row const& a, Row const& b) { for (auto& f : F) { Row x = compose(a, f); if (is_head(x) && rep(x) == rep(b)) return true; } return false; };
  bool refuse = self_false(rounds(n)); vector<Row> req; bool link = !moves && chance(1, 3); vector<vector<Row>> Q; if (link) { flag(r, "k", "linkage"); Row e = end_of(m, n); vector<Change> calls; int k = choose(3); for (int i = 0; i < std::max(k, 1); ++i) { Change c = gen_change(n); if (!k) { c.sw.clear(); c.sw.push_back(1); for (int j = 4; j + 1 < n; j += 2) c.sw.push_back(j); } else if (chance(1, 2)) { c.sw.clear(); for (int j = 1 + choose(2); j + 1 < n; j += 2 + chance(1, 4)) c.sw.push_back(j); } Row x = ref::apply(e, c); if (x[0] != 0 || (in && !even(x))) discard(); calls.push_back(c); if (k) val(r, "C", "call", c.places().empty() ? "X" : c.pn()); }
    for (auto& c : calls) { Row q = compose(inverse(lh), ref::apply(e, c)); for (auto& x : C) { vector<Row> v; bool ok = true; for (Row y = q; ok && y != rounds(n); y = compose(y, q)) { Row z; for (auto& w : C) { Row u = compose(compose(x, y), w); if (u[n - 1] == n - 1 && (!tt || is_tenors(u, n))) { z = u; break; } } if (z.empty() || F.count(z)) ok = false; v.push_back(z); } if (ok) Q.push_back(v); } } if (Q.empty()) refuse = true; }
  if (!link && chance(1, 4)) { for (int k = range(1, 2); k; --k) { Row a = compose(H[choose(H.size())], C[choose(C.size())]); req.push_back(a); val(r, "r", "required", str(a)); } for (size_t i = 0; i < req.size(); ++i) { Row a = course_of(req[i]); if (self_false(a)) refuse = true; for (size_t j = 0; j < i; ++j) { Row b = course_of(req[j]); if (rep(a) == rep(b) || clash(a, b) || clash(b, a)) refuse = true; } } }
  size_t M = H.size() / G.size(); bool settle = M <= 120 && chance(1, 2); long steps = settle ? 250 * (M + 1) : 1 + choose(2000); val(r, "n", "iterations", fmt("%ld", steps)); val(r, "", "seed", fmt("%d", 1 + choose(1000000))); flag(r, "", "print-leads"); bool weighted = chance(1, 5); if (weighted) val(r, "W", "weighting", chance(1, 2) ? "tenors-together=0.5" : "tenors-over=2");
  string pn = pn_of(m); if (pn[0] == '-') discard(); r.args.insert(r.args.begin() + 1 + choose(r.args.size()), pn); int f = choose(10); if (f == 1) r.out_fail_at = choose(600); if (f == 2) r.alloc_fail = 1 + choose(chance(1, 2) ? 300 : 20000);
  nontrivial(); ran(r); if (!r.threw.empty() || r.aborted) return; string how = show_args(r);
  if (r.code) { SIM_CHECK(r.out_failed || r.alloc_fired || refuse || moves, "extent.refused", "%s: exit status %d (%s)", how.c_str(), r.code, quote(r.err).c_str()); SIM_CHECK(r.alloc_fired || !r.err.empty(), "extent.mute", "%s: exit status %d and not a word", how.c_str(), r.code); return; }
  SIM_CHECK(!r.out_failed, "extent.output", "%s: exit status 0 though the output could not be written", how.c_str()); if (r.alloc_fired && !r.err.empty()) return; SIM_CHECK(!refuse, "extent.accepted", "%s: what is required is false, or conflicts with the parts", how.c_str());
  vector<string> L = lines(r.out); if (link) { std::multiset<string> want, have; for (auto& q : Q) { std::multiset<string> w; for (auto& x : q) w.insert(str(x)); string k; for (auto& x : w) k += " " + x; want.insert(k); } size_t at = L.size(); for (size_t j = 0; j < L.size(); ++j) if (L[j].compare(0, 1, "Q") == 0) { at = std::min(at, j); size_t c = L[j].find("): "); int no = -1; if (c == string::npos || sscanf(L[j].c_str(), "Q%d (call", &no) != 1 || no != (int)have.size() || at + have.size() != j) violation("extent.qset", "%s: printed %s", how.c_str(), quote(L[j]).c_str()); std::multiset<string> w; string x; std::istringstream is(L[j].substr(c + 3)); while (is >> x) w.insert(x); string k; for (auto& y : w) k += " " + y; have.insert(k); }
    SIM_CHECK(have == want, "extent.qset", "%s: printed %zu Q-sets, there are %zu: %s", how.c_str(), have.size(), want.size(), quote(r.out, 400).c_str()); L.erase(L.begin() + at, L.begin() + at + have.size()); }
  SIM_CHECK(L.size() >= 3 && L[0].compare(0, 18, "Started with seed ") == 0 && L[1] == fmt("Using part-end group of order %zu", G.size()), "extent.short", "%s: printed %s", how.c_str(), quote(r.out, 200).c_str()); long got, chg; int used = 0; if (sscanf(L[2].c_str(), "%ld leads (%ld)%n", &got, &chg, &used) != 2 || L[2].size() != (size_t)used) violation("extent.count", "%s: printed %s", how.c_str(), quote(L[2]).c_str()); SIM_CHECK(chg == got * (long)m.size(), "extent.count", "%s: printed %s", how.c_str(), quote(L[2]).c_str());
  vector<string> d; size_t i = 3; (void)i; while (i < L.size() && !L[i].empty()) d.push_back(L[i++]); for (; i < L.size(); ++i) SIM_CHECK(L[i].empty(), "extent.more", "%s: printed more: %s", how.c_str(), quote(L[i]).c_str());
  vector<string> sets; if (link) for (auto& l : d) { size_t c = l.find(" Q"); sets.push_back(c == string::npos ? "" : l.substr(c)); if (c != string::npos) l.erase(c); } vector<Shown> v = parse(r, d, n); SIM_CHECK((long)(v.size() * G.size() * C.size()) == got, "extent.number", "%s: %zu courses of %zu leads in %zu parts, said to be %ld leads", how.c_str(), v.size(), C.size(), G.size(), got);
  std::map<Row, int> idx; std::set<Row> rows; std::set<int> ids;
  for (auto& s : v) { SIM_CHECK(is_head(s.r), "extent.head", "%s: printed a course from %s", how.c_str(), str(s.r).c_str()); SIM_CHECK(s.sign == (even(s.r) ? '+' : '-') && s.links.empty(), "extent.sign", "%s: printed %s%c", how.c_str(), str(s.r).c_str(), s.sign); SIM_CHECK(idx.emplace(rep(s.r), s.idx).second && ids.insert(s.idx).second, "extent.twice", "%s: printed %s twice", how.c_str(), str(s.r).c_str());
    for (auto& g : G) { Row a = compose(g, s.r); for (auto& x : R) SIM_CHECK(rows.insert(compose(a, x)).second, "extent.false", "%s: the row %s of the course from %s is in another course", how.c_str(), str(compose(a, x)).c_str(), str(a).c_str()); } }
  for (auto& q : req) SIM_CHECK(idx.count(rep(course_of(q))), "extent.required", "%s: the course with the lead from %s is missing", how.c_str(), str(q).c_str());
  if (link) { std::map<int, Row> back; for (auto& x : idx) back[x.second] = x.first; for (size_t j = 0; j < v.size(); ++j) { bool any = false; Row a = v[j].r; for (auto& q : Q) { std::set<Row> mem = { rep(a) }; bool ok = true; for (auto& x : q) { Row b = compose(a, x); if (!is_head(b) || !idx.count(rep(b))) { ok = false; break; } mem.insert(rep(b)); } if (ok && mem.size() == q.size() + 1) any = true; } SIM_CHECK(any, "extent.linked", "%s: the course from %s is in no complete Q-set", how.c_str(), str(a).c_str());
      string t = sets[j]; size_t i = 0; int cnt = 0; while (i < t.size()) { int no, me, u = 0; if (sscanf(t.c_str() + i, " Q%d (%d%n", &no, &me, &u) != 2 || me != v[j].idx || no >= (int)Q.size()) violation("extent.links", "%s: printed %s", how.c_str(), quote(t).c_str()); i += u; size_t e = t.find(')', i); if (e == string::npos) violation("extent.links", "%s: printed %s", how.c_str(), quote(t).c_str()); std::istringstream is(t.substr(i, e - i)); std::multiset<Row> g; int o; while (is >> o) { if (!back.count(o)) violation("extent.links", "%s: course %d is not in the set", how.c_str(), o); g.insert(back[o]); } i = e + 1; bool found = false; for (auto& q : Q) { std::multiset<Row> w; for (auto& x : q) w.insert(rep(compose(a, x))); if (w == g) found = true; } SIM_CHECK(found, "extent.links", "%s: %s is not a Q-set of the course from %s", how.c_str(), quote(t).c_str(), str(a).c_str()); ++cnt; } SIM_CHECK(cnt, "extent.links", "%s: no Q-set is given for %s", how.c_str(), str(a).c_str()); } if (!v.empty()) probe("linked courses"); }
  if (settle && !weighted && !link) { for (auto& h : H) { if (idx.count(rep(h)) || self_false(h)) continue; bool no = false; for (auto& s : v) if (clash(s.r, h) || clash(h, s.r)) { no = true; break; } SIM_CHECK(no, "extent.maximal", "%s: the course from %s could be added", how.c_str(), str(h).c_str()); } probe("maximal sets of courses"); }
  if (!v.empty()) probe(tt ? "sets of courses, tenors together" : G.size() > 1 ? "sets of courses in parts" : "sets of courses"); state(hash(fmt("c %d %d %d %zu %zu", n, in, tt, G.size(), v.size())));
}
SCENARIO(extent_bad, "P22", 1) {
  static const vector<vector<string>> bad = { {}, {"-b0"}, {"-b3"}, {"-b-2"}, {"-b300"}, {"-bx"}, {"-b5", "-t"}, {"-b5", "-c", "-p"}, {"-b5", "-Px"}, {"-b5", "-P11345"}, {"-b5", "-P21345"}, {"-b5", "-P123456"}, {"-b5", "-i", "-P13245"}, {"-b5", "-rx"}, {"-b5", "-r21345"}, {"-b5", "-r123465"}, {"-b5", "-i", "-r13245"}, {"-b5", "-n0"}, {"-b5", "-n-4"}, {"-b5", "-nx"}, {"-b5", "-lx"}, {"-b5", "--seed=x"}, {"-b5", "-Wb"}, {"-b5", "-Wb=x"}, {"-b5", "-Wb=nan"}, {"-b5", "-Wq=1"}, {"-b5", "-Wb=inf"}, {"-b5", "-k", "-Czz"}, {"-b5", "-k", "-CX"}, {"-b5", "-k", "-C126"}, {"-b5", "-k", "-C345"}, {"-b5", "--zz"}, {"-b5", "-Z"}, {"-b5", "-P12354", "-P12453", "-P13245", "-c", "-i"} };
  static const vector<string> meths = { "bad", "&", "5.1.5", "&5.1.5.1.5,34", "zz", "6.1", "" };
  AppRun r; r.args = { "fextent" }; if (choose(3)) { for (auto& a : bad[choose(bad.size())]) r.args.push_back(a); if (r.args.size() > 1 || choose(2)) r.args.insert(r.args.begin() + 1 + choose(r.args.size()), "&5.1.5.1.5,125"); } else { r.args.push_back("-b5"); string m = meths[choose(meths.size())]; if (!m.empty()) r.args.push_back(m); }
  nontrivial(); state(hash(show_args(r))); ran(r); SIM_CHECK(r.code == 1 && r.out.empty() && !r.err.empty(), "extent.bad", "%s: exit status %d, %s, %s", show_args(r).c_str(), r.code, quote(r.out, 80).c_str(), quote(r.err, 80).c_str());
}
