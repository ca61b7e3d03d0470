// Leads as sets of rows: what fextent and spliceplan promise to keep apart.
#ifndef VERIF_PLANS_H
#define VERIF_PLANS_H
#include "libmodel.h"
#include "simapp.h"
#include <functional>
using namespace ref; using namespace sim;
int app_main(int, char**);
static int entry(int c, char** v) { return app_main(c, v); }
static void ran(AppRun& r) { run_app(r, entry); SIM_CHECK(r.threw.empty() || r.alloc_fired, "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted || r.alloc_fired, "abort", "%s aborted", show_args(r).c_str()); }
namespace {
vector<string> lines(string const& s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
void flag(AppRun& r, const char* s, const char* l) { r.args.push_back(*s && chance(1, 2) ? fmt("-%s", s) : fmt("--%s", l)); }
void val(AppRun& r, const char* s, const char* l, string const& v) { if (*s && chance(1, 2)) r.args.push_back(fmt("-%s%s", s, v.c_str())); else r.args.push_back(fmt("--%s=%s", l, v.c_str())); }
Row head(Method const& m, int n) { Row r = rounds(n); for (auto& c : m) r = ref::apply(r, c); return r; }
Row end_of(Method const& m, int n) { return ref::apply(head(m, n), m.back()); }
vector<Row> lead(Method const& m, int n) { vector<Row> v; Row r = rounds(n); for (auto& c : m) { v.push_back(r); r = ref::apply(r, c); } return v; }
bool true_lead(Method const& m, int n) { auto v = lead(m, n); return std::set<Row>(v.begin(), v.end()).size() == v.size(); }
bool even(Row const& r) { return ref::sign(r) > 0; }
// The rows a lead may start from.
vector<Row> heads(int n, bool in, bool any_treble) { vector<Row> v; Row r = rounds(n); do { if (!any_treble && r[0] != 0) break; if (!in || even(r)) v.push_back(r); } while (std::next_permutation(r.begin(), r.end())); return v; }
vector<Row> group_of(vector<Row> const& gens, int n) { std::set<Row> s = { rounds(n) }; vector<Row> todo = { rounds(n) }; while (!todo.empty()) { Row x = todo.back(); todo.pop_back(); for (auto& g : gens) { Row y = compose(x, g); if (s.insert(y).second) todo.push_back(y); } } return vector<Row>(s.begin(), s.end()); }
// A palindromic method whose treble comes home.
Method gen_sym(int n, bool in, vector<Method> const& had) {
  for (int t = 0; t < 300; ++t) {
    Method h; Change le; if (!had.empty() && chance(2, 3)) { Method const& m = had[choose(had.size())]; if (m.size() % 2) continue; h.assign(m.begin(), m.begin() + m.size() / 2); le = m.back(); int k = choose(3); if (k == 0) le = gen_change(n); else h[choose(h.size())] = gen_change(n); }
    else { int half = chance(1, 2) ? n : 1 + choose(7); bool hunt = half == n; int p = 0; for (int i = 0; i < half; ++i) { Change c = gen_change(n); if (hunt) { Change d; d.n = n; int at = i + 1 < n ? i : n; for (int s : c.sw) if (s + 1 < at || (s > at + 1 && at < n) ) d.sw.push_back(s); if (at < n) d.sw.push_back(at); std::sort(d.sw.begin(), d.sw.end()); c = d; if (i + 1 == n) { Change e = gen_change(n); if (!e.sw.empty() && e.sw.back() == n - 2) e.sw.pop_back(); c = e; } } h.push_back(c); (void)p; } le = gen_change(n); if (!le.sw.empty() && le.sw[0] == 0) le.sw.erase(le.sw.begin()); }
    if (h.empty()) continue; Method m = h; for (int i = (int)h.size() - 2; i >= 0; --i) m.push_back(h[i]); m.push_back(le);
    Row lh = head(m, n), e = end_of(m, n); if (lh[0] != 0 || e[0] != 0 || (in && (!even(lh) || !even(e))) || !true_lead(m, n)) continue; return m; }
  discard(); return Method();
}
string pn_of(Method const& v) { size_t L = v.size(); bool pal = L >= 2 && L % 2 == 0; for (size_t i = 0; pal && i + 1 < L; ++i) pal = v[i] == v[L - 2 - i]; if (pal && choose(4)) { vector<Change> h(v.begin(), v.begin() + L / 2); return "&" + join_pn(h) + "," + pn_text(v.back()); } return "+" + join_pn(v); }
vector<string> gen_parts(int n, bool in, bool treble) { vector<string> v; if (chance(1, 2)) return v; int k = 1 + chance(1, 4); for (int i = 0; i < k; ++i) { Row r = rounds(n); int lo = treble ? 0 : 1, c = 1 + choose(3); for (int j = 0; j < c; ++j) { int a = lo + choose(n - lo), b = lo + choose(n - lo); std::swap(r[a], r[b]); } if (in && !even(r)) { if (n - lo < 2) continue; std::swap(r[lo], r[lo + 1]); } string s = str(r); if (chance(1, 4)) while (s.size() > 1 && r[s.size() - 1] == (int)s.size() - 1) s.pop_back(); v.push_back(s); } return v; }
Row row_of(string const& s, int n) { Row r = rounds(n); for (size_t i = 0; i < s.size(); ++i) for (int b = 0; b < n; ++b) if (bell_char(b) == s[i]) r[i] = b; return r; }
}
#endif
