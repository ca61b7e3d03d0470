// splices: which pairs of methods share leads, told from the rows alone.
#include "libmodel.h"
#include "simapp.h"
#include <functional>
using namespace ref; using namespace sim;
int app_main(int, char**);
static int entry(int c, char** v) { return app_main(c, v); }
static void ran(AppRun& r) { run_app(r, entry); SIM_CHECK(r.threw.empty() || r.alloc_fired, "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted || r.alloc_fired, "abort", "%s aborted", show_args(r).c_str()); }
static void flag(AppRun& r, const char* s, const char* l) { r.args.push_back(chance(1, 2) ? fmt("-%s", s) : fmt("--%s", l)); }
static void val(AppRun& r, const char* s, const char* l, string const& v) { if (*s && chance(1, 3)) r.args.push_back(fmt("-%s%s", s, v.c_str())); else if (*s && chance(1, 2) && v[0] != '-' && !v.empty()) { r.args.push_back(fmt("-%s", s)); r.args.push_back(v); } else r.args.push_back(fmt("--%s=%s", l, v.c_str())); }
static vector<string> lines(string const& s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
namespace {
Row over(Row const& a, Row const& b) { Row q(a.size()); for (size_t i = 0; i < a.size(); ++i) q[b[i]] = a[i]; return q; }
bool odd(Row const& r) { bool o = false; for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < i; ++j) o ^= r[j] > r[i]; return o; }
typedef std::set<Row> Rows;
struct Named { Method m; string name; };
struct Want { int n; bool in = false, out = false, half = false, same = false, null = false, pn = false, group = false, filter = false; int only = -1; };
vector<Row> lead(Method const& m, int n, bool half) { vector<Row> v; Row r = rounds(n); size_t L = half ? m.size() / 2 : m.size(); for (size_t i = 0; i < L; ++i) { v.push_back(r); r = ref::apply(r, m[i]); } return v; }
Rows falseness(vector<Row> const& a, vector<Row> const& b, Want const& w) { Rows f; for (auto& x : a) for (auto& y : b) { Row q = over(x, y); if (q[0] != 0 || (w.in && odd(q)) || (w.out && !odd(q))) continue; f.insert(q); } return f; }
Rows closure(Rows const& f, Want const& w) {   // a splice keeps together all leads these join
  vector<Row> g; if (w.out) { for (auto& x : f) for (auto& y : f) g.push_back(over(x, y)); } else g.assign(f.begin(), f.end());
  Rows s = { rounds(w.n) }; vector<Row> todo = { rounds(w.n) }; Rows gs(g.begin(), g.end()); while (!todo.empty()) { Row x = todo.back(); todo.pop_back(); for (auto& y : gs) { Row z = compose(x, y); if (s.insert(z).second) todo.push_back(z); } } return s;
}
long fac(int n) { long f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; }
// every way to say it: which bell is named is free where several would do
std::set<string> describe(Rows const& g, Want const& w) {
  std::set<string> v; string h = fmt("%zu-lead", g.size() / 2); long sz = g.size(); int n = w.n; vector<string> pv = { "" }, sw = { "" };
  if (n > 2 && sz > 2) { long f2 = fac(n - 3), f1 = f2 * (n - 2);
    if (sz == f1 || sz == f1 / 2) { vector<string> p; for (int b = 1; b < n; ++b) { bool ok = true; for (auto& r : g) ok &= r[b] == b; if (ok) p.push_back(fmt(" (pivot: %c)", bell_char(b))); } if (!p.empty()) pv = p; }
    if (sz == f2 || sz == f2 / 2) { vector<string> p; for (int b = 1; b < n; ++b) for (int c = b + 1; c < n; ++c) { bool ok = true; for (auto& r : g) ok &= (r[b] == b && r[c] == c) || (r[b] == c && r[c] == b); if (ok) p.push_back(fmt(" (swaps: %c&%c)", bell_char(b), bell_char(c))); } if (!p.empty()) sw = p; } }
  for (auto& a : pv) for (auto& b : sw) v.insert(h + a + b); return v;
}
std::set<string> splice(vector<Row> const& a, vector<Row> const& b, Want const& w) {   // empty: there is none to show
  Rows g = closure(falseness(a, b, w), w); size_t max = fac(w.n - 1); if (w.in || w.out) max /= 2; if (!w.null && g.size() == max) return {}; if (w.only != -1 && (long)g.size() != 2L * w.only) return {};
  auto d = describe(g, w); if (w.out) { auto e = describe(closure(falseness(b, a, w), w), w); d.insert(e.begin(), e.end()); } return d;
}
string notation(Method const& m, int n) { Quiet q; return to(m, n, "").format(ringing::method::M_FULL_SYMMETRY | ringing::method::M_DASH); }
Method gen_meth(int n, vector<Named> const& had) {
  auto fixed = [&](Change c) { if (!c.sw.empty() && c.sw[0] == 0) c.sw.erase(c.sw.begin()); if (c.sw.empty()) c.sw.push_back(1 + choose(n - 2)); return c; };
  for (int t = 0; t < 200; ++t) {
    Method h; Change le; int half; bool any = chance(1, 6);
    if (any) { int L = 1 + choose(10); Method m; for (int i = 0; i < L; ++i) m.push_back(gen_change(n)); return m; }
    if (!had.empty() && chance(3, 4)) { Method m = had[choose(had.size())].m; if (m.size() % 2) continue; half = m.size() / 2; h.assign(m.begin(), m.begin() + half); le = m.back(); int k = choose(4); if (k == 0) le = fixed(gen_change(n)); else if (k < 3) h[choose(half)] = gen_change(n); else { h[choose(half)] = gen_change(n); le = fixed(gen_change(n)); } }
    else { bool hunt = chance(2, 3); half = hunt ? n : 1 + choose(8); for (int i = 0; i < half; ++i) { Change c = gen_change(n); if (hunt) { Change d; d.n = n; std::set<int> used; if (i + 1 < n) { d.sw.push_back(i); used = { i, i + 1 }; } for (int s : c.sw) if (!used.count(s) && !used.count(s + 1)) { d.sw.push_back(s); used.insert(s); used.insert(s + 1); } std::sort(d.sw.begin(), d.sw.end()); c = d; if (c.sw.empty()) c.sw.push_back(0); } h.push_back(c); } le = fixed(gen_change(n)); }
    Method m = h; for (int i = half - 2; i >= 0; --i) m.push_back(h[i]); m.push_back(le); Row x = rounds(n); for (auto& c : m) x = ref::apply(x, c); if (x[0] != 0) continue; return m; }
  discard(); return Method();
}
vector<Named> gen_meths(int n, int k, bool plain) {
  vector<Named> v; std::set<Method> had; std::set<string> names; for (int i = 0; i < k; ++i) { Named x; x.m = gen_meth(n, v); if (!had.insert(x.m).second) continue; for (int t = 0; t < 9; ++t) { x.name = plain || chance(1, 2) ? fmt(choose(2) ? "%c%d" : "%d%c", 0, 0) : gen_name(3); if (plain || x.name.size() < 2 || !x.name[0]) { char c = 'A' + choose(26); int d = choose(40); x.name = choose(2) ? fmt("%c%d", c, d) : fmt("%d%c", d, c); } if (!plain && chance(1, 6)) x.name = ""; if (x.name.empty() || names.insert(x.name).second) break; x.name = fmt("q%d", i); } v.push_back(x); }
  return v;
}
string pn_of(Method const& v) { size_t L = v.size(); bool pal = L >= 2 && L % 2 == 0; for (size_t i = 0; pal && i + 1 < L; ++i) pal = v[i] == v[L - 2 - i]; if (pal && choose(4)) { vector<Change> h(v.begin(), v.begin() + L / 2); return "&" + join_pn(h) + "," + pn_text(v.back()); } return (choose(3) ? "" : "+") + join_pn(v); }
void options(AppRun& r, Want& w, bool stream, bool one) {
  r.args.push_back(chance(1, 2) ? fmt("-b%d", w.n) : fmt("--bells=%d", w.n)); int p = choose(3); if (p == 1) { w.in = true; flag(r, "i", "in-course"); } if (p == 2 && chance(1, 2)) { w.out = true; flag(r, "o", "out-of-course"); }
  if (chance(1, 5)) { w.half = true; flag(r, "h", "half-lead"); } if (chance(1, 5)) { w.same = true; flag(r, "e", "same-lead-ends"); }
  if (stream && chance(1, 4)) { w.filter = true; flag(r, "I", "filter"); }
  if (!w.filter && chance(1, 4)) { w.pn = true; flag(r, "p", "place-notation"); }
  if (stream && !w.filter && chance(1, 3)) { w.group = true; flag(r, "g", "group-together"); }
  if (!(w.filter && !one)) { if (!w.group && chance(1, 6)) { w.null = true; flag(r, "n", "null-splice"); } else if (chance(1, 5)) { w.only = chance(1, 4) ? choose(3) : vector<int>{ 1, 1, 2, 3, 6, 12, 60 }[choose(7)]; val(r, "l", "leads", fmt("%d", w.only)); } }
}
string stream_of(AppRun& r, vector<Named> const& ms, Want const& w, bool& junk) {
  string data; for (auto& x : ms) { if (chance(1, 8)) data += chance(1, 2) ? "\n" : "  \n"; if (chance(1, 6)) data += " "; if (chance(1, 4)) data += fmt("%d:", w.n); data += pn_of(x.m); if (!x.name.empty()) data += (chance(1, 2) ? "\t" : " ") + x.name; data += chance(1, 8) ? "\r\n" : "\n"; if (chance(1, 16)) { data += chance(1, 2) ? "&%%nonsense\tq\n" : fmt("%d: none\n", w.n); junk = true; } if (chance(1, 16)) data += fmt("%d:&-,1 other stage\n", w.n + 2); }
  if (!data.empty() && chance(1, 6)) { data.pop_back(); if (!data.empty() && data.back() == '\r') data.pop_back(); } return data;
}
void faults(AppRun& r, string const& data, bool input, size_t est) { r.in.data = data; r.in.mode = choose(4); unsigned f = choose(8); if (f == 1 && input) r.in.fail_at = choose(data.size() + 1); if (f == 2) r.out_fail_at = choose(est + 1); if (f == 3) r.out_fail_sync = 1; if (f == 4) r.alloc_fail = 1 + choose(chance(1, 2) ? 100 : 2000); }
bool outcome(AppRun& r) {   // true: the answer is to be judged in full (what memory ran out for is at least said)
  if (!r.threw.empty() || r.aborted) return false;
  if (r.code == 0 && r.alloc_fired && !r.err.empty()) return false;
  if (r.code == 0) { SIM_CHECK(!r.out_failed, "splice.output", "%s: exit status 0 though the output could not be written", show_args(r).c_str()); SIM_CHECK(!r.in_failed, "splice.input", "%s: exit status 0 though the input could not be read", show_args(r).c_str()); return true; }
  SIM_CHECK(r.in_failed || r.out_failed || r.alloc_fired, "splice.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str()); if (!r.alloc_fired) SIM_CHECK(!r.err.empty(), "splice.mute", "%s: exit status %d and not a word", show_args(r).c_str(), r.code); probe("splice.failed"); return false;
}
struct Pair { size_t a, b; std::set<string> desc; };
string label(Named const& x, Want const& w) { return x.name.empty() || w.pn ? notation(x.m, w.n) : x.name; }
// Each line printed must be a wanted one, and each wanted one must be printed once.
void judge(AppRun& r, vector<string> got, vector<std::set<string>> want) {
  for (auto& l : got) { bool ok = false; for (auto i = want.begin(); i != want.end(); ++i) if (i->count(l)) { want.erase(i); ok = true; break; } SIM_CHECK(ok, "splice.wrong", "%s: printed %s, which is no such splice", show_args(r).c_str(), quote(l).c_str()); }
  if (!want.empty()) violation("splice.missed", "%s: not printed: %s", show_args(r).c_str(), quote(*want[0].begin()).c_str());
}
std::set<string> ways(string const& a, string const& b, std::set<string> const& desc) { std::set<string> s; for (auto& d : desc) { s.insert(a + " / " + b + "\t" + d); s.insert(b + " / " + a + "\t" + d); } return s; }
vector<string> cut(string const& s, string const& sep) { vector<string> v; size_t i = 0; for (;;) { size_t j = s.find(sep, i); v.push_back(s.substr(i, j == string::npos ? j : j - i)); if (j == string::npos) return v; i = j + sep.size(); } }
// Methods that may be spliced with one another on one line; those that differ by a lead splice are in brackets.
void judge_groups(AppRun& r, vector<Named> const& ms, vector<Pair> const& ps, Want const& w) {
  std::map<string, size_t> id; for (size_t i = 0; i < ms.size(); ++i) id[label(ms[i], w)] = i; if (id.size() != ms.size()) discard();
  for (auto& p : ps) if (p.desc.size() != 1) discard();
  std::map<string, vector<size_t>> up; std::function<size_t(vector<size_t>&, size_t)> find = [&](vector<size_t>& u, size_t x) { while (u[x] != x) x = u[x]; return x; };
  std::map<string, std::set<size_t>> in; for (auto& p : ps) { auto& u = up[*p.desc.begin()]; if (u.empty()) for (size_t i = 0; i < ms.size(); ++i) u.push_back(i); u[find(u, p.a)] = find(u, p.b); in[*p.desc.begin()].insert(p.a); in[*p.desc.begin()].insert(p.b); }
  struct Line { string desc; std::set<size_t> m; }; vector<Line> want; for (auto& d : up) { std::map<size_t, std::set<size_t>> c; for (size_t x : in[d.first]) c[find(d.second, x)].insert(x); for (auto& x : c) { if (w.same) { bool just = true; for (size_t k : x.second) { auto &A = ms[k].m, &B = ms[*x.second.begin()].m; just &= A.size() == B.size() && std::equal(A.begin(), A.end() - 1, B.begin()); } if (just) continue; } want.push_back({ d.first, x.second }); } }
  auto mate = [&](size_t a, size_t b) { auto i = up.find("1-lead"); return i != up.end() && find(i->second, a) == find(i->second, b) && ms[a].m.back() == ms[b].m.back(); };
  for (auto& l : lines(r.out)) { size_t t = l.find('\t'); SIM_CHECK(t != string::npos, "group.line", "%s: printed %s", show_args(r).c_str(), quote(l).c_str()); string d = l.substr(t + 1); std::set<size_t> seen; 
    vector<string> parts = w.same ? cut(l.substr(0, t), " / ") : vector<string>{ l.substr(0, t) }; std::set<Change> les;
    for (auto& p : parts) { std::set<Change> le; bool open = false; long first = -1; for (auto x : cut(p, ", ")) { bool close = false; if (!x.empty() && x[0] == '[') { open = true; first = -1; x.erase(0, 1); } if (!x.empty() && x.back() == ']') { close = true; x.pop_back(); } auto i = id.find(x); SIM_CHECK(i != id.end(), "group.name", "%s: no method %s, in %s", show_args(r).c_str(), quote(x).c_str(), quote(l).c_str()); SIM_CHECK(seen.insert(i->second).second, "group.twice", "%s: %s twice in %s", show_args(r).c_str(), quote(x).c_str(), quote(l).c_str()); le.insert(ms[i->second].m.back());
        if (open) { if (first >= 0) SIM_CHECK(mate(first, i->second), "group.bracket", "%s: no lead splice within the brackets of %s", show_args(r).c_str(), quote(l).c_str()); first = i->second; } if (close) open = false; }
      if (w.same) { SIM_CHECK(le.size() == 1 && les.insert(*le.begin()).second, "group.lead-ends", "%s: lead ends are not kept apart in %s", show_args(r).c_str(), quote(l).c_str()); } }
    bool ok = false; for (auto i = want.begin(); !ok && i != want.end(); ++i) { if (i->desc != d) continue; bool all = true; for (size_t k : i->m) all &= seen.count(k) > 0; for (size_t k : seen) { bool m = i->m.count(k); for (size_t q : i->m) m |= mate(k, q); all &= m; } if (all) { want.erase(i); ok = true; break; } }
    SIM_CHECK(ok, "group.wrong", "%s: printed %s: these are not those methods", show_args(r).c_str(), quote(l).c_str()); }
  if (!want.empty()) { string s; for (size_t k : want[0].m) s += label(ms[k], w) + " "; violation("group.missed", "%s: not printed: %s%s", show_args(r).c_str(), s.c_str(), want[0].desc.c_str()); }
}
int stage() { static const int s[] = { 4, 5, 5, 6, 6, 6, 3, 7 }; return s[choose(8)]; }
}
SCENARIO(splice_stream, "P19", 4) {
  Want w; w.n = stage(); AppRun r; r.args = {"splices"}; bool one = chance(1, 3); options(r, w, true, one); vector<Named> ms = gen_meths(w.n, choose(chance(1, 4) ? 9 : 5) + one, w.group); if (ms.empty() && one) discard(); vector<vector<Row>> ls; for (auto& x : ms) ls.push_back(lead(x.m, w.n, w.half));
  bool junk = false; Method base; if (one) { base = ms[0].m; if (chance(3, 4)) { ms.erase(ms.begin()); ls.erase(ls.begin()); } string p = pn_of(base); if (p[0] == '-') r.args.push_back("--"); r.args.push_back(p); }
  vector<Pair> ps; size_t est = 0; vector<bool> ok(ms.size(), false); std::map<string, std::set<Method>> seen;
  if (one) { auto bl = lead(base, w.n, w.half); for (size_t i = 0; i < ms.size(); ++i) { if (ms[i].m == base) continue; if (!w.group && w.same && !(ms[i].m.back() == base.back())) continue; auto d = splice(ls[i], bl, w); if (d.empty()) continue; ps.push_back({ i, i, d }); ok[i] = true; } }
  else for (size_t i = 0; i < ms.size(); ++i) for (size_t j = 0; j < i; ++j) { if (!w.group && w.same && !(ms[i].m.back() == ms[j].m.back())) continue; auto d = splice(ls[i], ls[j], w); if (!d.empty()) ps.push_back({ i, j, d }); }
  if (w.filter && !one) { for (size_t i = 0; i < ms.size(); ++i) { ok[i] = true; for (auto& p : ps) if (p.a == i && p.desc.count("1-lead")) ok[i] = false; } }
  string data = stream_of(r, ms, w, junk); for (auto& p : ps) est += 20 + p.desc.begin()->size(); if (!ps.empty()) nontrivial(); state(mix(hash(fmt("%d%d%d%d%d%d%d%d%d %d", w.n, w.in, w.out, w.half, w.same, w.null, w.pn, w.group, w.filter, w.only)), mix(ms.size(), ps.size())));
  faults(r, data, true, est); ran(r); if (!outcome(r)) return; if (junk) SIM_CHECK(!r.err.empty(), "splice.junk", "%s: nonsense was not reported", show_args(r).c_str());
  if (w.filter) { string e; for (size_t i = 0; i < ms.size(); ++i) if (ok[i]) e += notation(ms[i].m, w.n) + "\t" + ms[i].name + "\n"; SIM_CHECK(r.out == e, "splice.filter", "%s: passed on %s, should be %s", show_args(r).c_str(), quote(r.out).c_str(), quote(e).c_str()); if (!e.empty()) probe("methods passed on"); return; }
  if (w.group) { if (one) { Named b; b.m = base; b.name = "Method 1"; size_t k = ms.size(); for (size_t i = 0; i < ms.size(); ++i) if (ms[i].m == base) discard(); ms.push_back(b); for (auto& p : ps) p.b = k; } judge_groups(r, ms, ps, w); if (!ps.empty()) probe("splices in groups"); return; }
  vector<std::set<string>> want; for (auto& p : ps) { if (one) { std::set<string> s; for (auto& d : p.desc) s.insert(label(ms[p.a], w) + "\t" + d); want.push_back(s); } else want.push_back(ways(label(ms[p.a], w), label(ms[p.b], w), p.desc)); }
  judge(r, lines(r.out), want); if (!ps.empty()) probe(one ? "splices with one method" : "splices of a stream");
}
SCENARIO(splice_two, "P19", 2) {
  Want w; w.n = stage(); AppRun r; r.args = {"splices"}; options(r, w, false, true); vector<Named> ms = gen_meths(w.n, 4, true); if (ms.size() < 2) discard(); ms.resize(2); for (int i = 0; i < 2; ++i) ms[i].name = fmt("Method %d", i + 1);
  bool G = chance(1, 4), F = !G && chance(1, 3); if (G) flag(r, "G", "print-group"); if (F) flag(r, "F", "print-falseness"); r.args.push_back("--"); for (auto& x : ms) r.args.push_back(pn_of(x.m));
  auto a = lead(ms[0].m, w.n, w.half), b = lead(ms[1].m, w.n, w.half); bool apart = w.same && !(ms[0].m.back() == ms[1].m.back()); auto d = splice(a, b, w); if (!d.empty() && !apart) nontrivial(); state(mix(hash(fmt("two %d%d%d%d%d%d%d%d %d", w.n, w.in, w.out, w.half, w.same, w.null, G, F, w.only)), d.size()));
  size_t est = 40; faults(r, "", false, est); ran(r); if (!outcome(r)) return; vector<string> got = lines(r.out);
  if (apart) { SIM_CHECK(got.empty(), "splice.apart", "%s: printed %s", show_args(r).c_str(), quote(r.out).c_str()); return; }
  if (G || F) { std::multiset<string> g(got.begin(), got.end()), e, e2; auto put = [&](Rows const& s, std::multiset<string>& o) { for (auto& x : s) o.insert(str(x)); }; Rows f1 = falseness(a, b, w), f2 = falseness(b, a, w); if (G && f1.empty()) return; put(F ? f1 : closure(f1, w), e); put(F ? f2 : closure(f2, w), e2); SIM_CHECK(g == e || g == e2, F ? "splice.falseness" : "splice.group", "%s: printed %zu rows %s, should be %zu rows", show_args(r).c_str(), got.size(), quote(r.out).c_str(), e.size()); probe(F ? "falseness printed" : "group printed"); return; }
  vector<std::set<string>> want; if (!d.empty()) want.push_back(ways(label(ms[0], w), label(ms[1], w), d)); judge(r, got, want); if (!d.empty()) probe("splices of two methods");
}
SCENARIO(splice_rows, "P19", 2) {
  Want w; w.n = stage(); AppRun r; r.args = {"splices"}; bool file = chance(1, 2); options(r, w, false, true); if (w.same) { w.same = false; for (auto i = r.args.begin(); i != r.args.end(); ++i) if (*i == "-e" || *i == "--same-lead-ends") { r.args.erase(i); break; } }
  if (file && !w.null && w.only == -1 && !w.pn && chance(1, 4)) { w.filter = true; flag(r, "I", "filter"); }
  vector<Named> ms = gen_meths(w.n, 4, true); if (ms.size() < 2) discard(); Named other = ms.back(); ms.pop_back(); vector<Row> rows = lead(other.m, w.n, w.half); if (chance(1, 4)) { rows.clear(); int k = choose(12); for (int i = 0; i < k; ++i) { Row x = rounds(w.n); for (size_t q = x.size(); q > 1; --q) std::swap(x[q - 1], x[choose(q)]); rows.push_back(x); } }
  string text; for (auto& x : rows) { string t = str(x); if (chance(1, 10)) while (t.size() > 1 && t.back() == bell_char((int)t.size() - 1)) t.pop_back(); text += t + (chance(1, 10) ? " " : "\n"); if (chance(1, 12)) text += "\n"; } if (chance(1, 8) && !text.empty()) text.pop_back();
  int bad = choose(8); if (bad == 1) { string j[] = { "12a?", "1123", str(rounds(w.n + 1)) }; size_t at = choose(text.size() + 1); if (at && text[at - 1] != '\n') at = 0; text.insert(at, j[choose(3)] + "\n"); } else if (bad == 2 && file) ; else bad = 0;
  op("rows %s", quote(text).c_str());
  string data; bool junk = false, disk = false; if (file) { if (bad != 2) io::put("/sim/rows", text); if (!bad && chance(1, 10)) { io::Policy p = io::policy; p.eio_after = choose(text.size() + 1); io::file_policy["/sim/rows"] = p; disk = true; } r.args.push_back("--rows-file=/sim/rows"); data = stream_of(r, ms, w, junk); } else { r.args.push_back("--read-rows"); while (ms.size() > 2) ms.pop_back(); r.args.push_back("--"); for (size_t i = 0; i < ms.size(); ++i) { ms[i].name = fmt("Method %zu", i + 1); r.args.push_back(pn_of(ms[i].m)); } data = text; }
  vector<std::set<string>> want; string pass; for (auto& x : ms) { auto d = splice(lead(x.m, w.n, w.half), rows, w); if (d.empty()) continue; pass += notation(x.m, w.n) + "\t" + x.name + "\n"; std::set<string> s; for (auto& q : d) s.insert(label(x, w) + "\t" + q); want.push_back(s); }
  if (!want.empty()) nontrivial(); state(mix(hash(fmt("rows %d%d%d%d%d%d%d %d", w.n, w.in, w.out, w.half, file, w.filter, bad, w.only)), mix(rows.size(), want.size())));
  faults(r, data, true, 30 * want.size()); ran(r); if (r.alloc_fired && r.code) return;
  if (bad || (disk && r.code)) { SIM_CHECK(r.code && !r.err.empty(), "rows.bad", "%s: exit status %d though the rows cannot be read: %s", show_args(r).c_str(), r.code, quote(text).c_str()); probe("rows refused"); return; }
  if (!outcome(r)) return; if (rows.empty()) return; if (junk) SIM_CHECK(!r.err.empty(), "splice.junk", "%s: nonsense was not reported", show_args(r).c_str());
  if (w.filter) { SIM_CHECK(r.out == pass, "rows.filter", "%s: passed on %s, should be %s", show_args(r).c_str(), quote(r.out).c_str(), quote(pass).c_str()); return; }
  vector<string> got = lines(r.out); for (auto& g : got) { size_t t = g.find(" / \t"); if (t != string::npos) g.erase(t, 3); } judge(r, got, want); if (!got.empty()) probe("splices with rows");
}
SCENARIO(splice_bad, "P19", 1) {
  static const vector<vector<string>> bad = { {"x16"}, {"-b0", "x16"}, {"-b-3"}, {"-b34", "x16"}, {"-bx", "x16"}, {"-b6", "x17"}, {"-b6", "&x%", "x16"}, {"-b6", "-i", "-o"}, {"-b6", "-I", "-g"}, {"-b6", "-I", "-p"}, {"-b6", "-I", "x16", "x14"}, {"-b6", "-I", "-n"}, {"-b6", "-I", "-l3"}, {"-b6", "-G"}, {"-b6", "-F", "x16"}, {"-b6", "-g", "-n"}, {"-b6", "-g", "-G", "x14", "x16"}, {"-b6", "-l2", "-n"}, {"-b6", "x14", "x16", "x12"}, {"-b6", "--no-such"}, {"-b6", "-lq"}, {"-b6", "--read-rows", "-I"}, {"-b6", "--rows-file=/sim/absent"}, {"-b6", ""} };
  static const vector<vector<string>> small = { {"-b1"}, {"-b2"}, {"-b2", "-o"}, {"-b2", "-i"}, {"-b1", "-n"}, {"-b2", "-h"} };
  AppRun r; r.args = {"splices"}; nontrivial(); r.in.mode = choose(4);
  if (chance(1, 3)) { for (auto& a : small[choose(small.size())]) r.args.push_back(a); bool one = r.args[1] == "-b1"; r.in.data = one ? "1 A\n1.1 B\n" : "x A\n12 B\nx12 C\n&x,12 D\n"; ran(r); SIM_CHECK(r.code == 0, "splice.small", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str()); return; }
  for (auto& a : bad[choose(bad.size())]) r.args.push_back(a); ran(r); SIM_CHECK(r.code == 1 && r.out.empty() && !r.err.empty(), "splice.bad", "%s: exit status %d, %s", show_args(r).c_str(), r.code, quote(r.out).c_str());
}
