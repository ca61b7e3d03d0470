// spliceplan: every way to share out the leads among methods, told from the rows alone.
#include "plans.h"
namespace {
typedef vector<uint64_t> Bits;
struct Orbit { int m; vector<int> el; Bits rows; };
struct Plans {   // exact covers of the lead heads and ends by true sets of leads
  int n; vector<Row> H; std::map<Row, int> id; vector<Orbit> orbits; vector<vector<int>> of; vector<int> use; vector<vector<int>> out; long work = 0; size_t cap;
  Plans(int n, bool in, vector<Method> const& ms, vector<Row> const& G, size_t cap) : n(n), H(heads(n, in, false)), cap(cap) {
    for (auto& r : H) { int k = id.size(); id[r] = k; } std::map<Row, int> rid; of.resize(H.size());
    for (size_t mi = 0; mi < ms.size(); ++mi) { auto R = lead(ms[mi], n); Row le = end_of(ms[mi], n); std::set<int> done;
      for (auto& a : H) { if (done.count(id[a])) continue; Orbit o; o.m = mi; std::set<int> el; std::set<int> rows; bool ok = true;
        for (auto& g : G) { Row b = compose(g, a), e = compose(b, le); int i = id.at(b), j = id.at(e); bool dup = el.count(i); el.insert(i); el.insert(j); if (dup) continue; for (auto& x : R) { Row y = compose(b, x); int k = rid.emplace(y, rid.size()).first->second; if (!rows.insert(k).second) ok = false; } }
        for (int i : el) done.insert(i); if (!ok) continue; o.el.assign(el.begin(), el.end()); for (int k : rows) { if (o.rows.size() <= (size_t)k / 64) o.rows.resize(k / 64 + 1); o.rows[k / 64] |= 1ull << k % 64; } for (int i : o.el) of[i].push_back(orbits.size()); orbits.push_back(o); } }
    use.assign(H.size(), -1); Bits b(12 * 60); go(b); }
  void go(Bits& b) {
    if (++work > 60000 || out.size() > cap) discard(); size_t i = 0; while (i < use.size() && use[i] >= 0) ++i; if (i == use.size()) { out.push_back(use); return; }
    for (int k : of[i]) { Orbit const& o = orbits[k]; bool ok = true; for (int e : o.el) ok &= use[e] < 0; for (size_t j = 0; ok && j < o.rows.size(); ++j) ok = !(o.rows[j] & b[j]); if (!ok) continue; Bits c = b; for (size_t j = 0; j < o.rows.size(); ++j) c[j] |= o.rows[j]; for (int e : o.el) use[e] = o.m; go(c); for (int e : o.el) use[e] = -1; } }
  vector<int> rotate(vector<int> const& p, Row const& r) { vector<int> q(p.size()); for (size_t i = 0; i < H.size(); ++i) q[id.at(compose(r, H[i]))] = p[i]; return q; }
};
struct Named { Method m; string pn, name, shown; };
}
SCENARIO(plan_search, "P22", 4) {
  static const int st[] = { 4, 4, 5, 5, 6 }; int n = st[choose(5)]; bool in = n == 6 || chance(1, 2); AppRun r; r.args = { "spliceplan" }; val(r, "b", "bells", fmt("%d", n)); if (in) flag(r, "i", "in-course");
  vector<Method> ms; int k = choose(n == 6 ? 3 : 5); for (int i = 0; i < k; ++i) ms.push_back(gen_sym(n, in, ms)); vector<string> ps = gen_parts(n, in, false); for (auto& p : ps) val(r, "P", "part-end", p); vector<Row> gens; for (auto& p : ps) gens.push_back(row_of(p, n)); vector<Row> G = group_of(gens, n);
  bool rot = G.size() == 1 && chance(1, 3), quiet = chance(1, 5); if (rot) flag(r, "r", "ignore-rotations"); if (quiet) flag(r, "q", "quiet"); for (int i = choose(8) ? 0 : range(1, 3); i > 0; --i) flag(r, "v", "verbose");
  Plans p(n, in, ms, G, 250); vector<Named> v; string data; std::set<string> had; for (auto& m : ms) { Named x; x.m = m; x.pn = pn_of(m); x.name = chance(1, 6) ? "" : fmt("%c%d%s", 'A' + (int)choose(26), (int)v.size(), chance(1, 5) ? " Bob" : ""); data += x.pn; if (!x.name.empty()) data += (chance(1, 2) ? "\t" : " ") + x.name; data += "\n"; if (chance(1, 8)) data += "\n"; { Quiet q; x.shown = to(m, n, "").format(ringing::method::M_SYMMETRY | ringing::method::M_DASH); } v.push_back(x); }
  if (!data.empty() && chance(1, 6)) data.pop_back();
  string path, pre, post; int w = choose(4); if (w == 1) { path = "/sim/plans"; pre = "/sim/plans/"; post = ".plan"; } if (w == 2) { path = "/sim/p%.txt"; pre = "/sim/p"; post = ".txt"; } if (w == 1 || w == 2) val(r, "O", "output-plans", path);
  // what is to be printed of each
  auto text = [&](vector<int> const& u, size_t rots) { string s; vector<int> c(ms.size()); for (int m : u) c[m]++; for (size_t i = 0; i < ms.size(); ++i) if (c[i]) s += (s.empty() ? "" : ", ") + v[i].name + fmt(" (%d)", c[i]); if (rots) s += fmt(" [%zu rotations]", rots); return s; };
  auto shown = [&](vector<int> const& u) { vector<string> s; for (size_t i = 0; i < u.size(); ++i) s.push_back(str(p.H[i]) + "\t" + v[u[i]].shown + "\t" + v[u[i]].name); std::sort(s.begin(), s.end()); return s; };
  struct Class { std::multiset<vector<string>> any; string line; }; vector<Class> want;
  if (rot) { std::set<vector<int>> left(p.out.begin(), p.out.end()); while (!left.empty()) { vector<int> u = *left.begin(); std::set<vector<int>> o; for (auto& h : p.H) o.insert(p.rotate(u, h)); Class c; c.line = text(u, o.size()); for (auto& x : o) { c.any.insert(shown(x)); if (!left.erase(x)) harness_error("a rotation of a plan is no plan"); } want.push_back(c); } }
  else for (auto& u : p.out) { Class c; c.line = text(u, 0); c.any.insert(shown(u)); want.push_back(c); }
  r.in.data = data; r.in.mode = choose(4); int f = choose(8); size_t est = 0; for (auto& c : want) est += c.line.size() + 1; bool disk = false;
  if (f == 1) r.in.fail_at = choose(data.size() + 1); if (f == 2) r.out_fail_at = choose(est + 1); if (f == 3) r.out_fail_sync = 1; if (f == 4) r.alloc_fail = 1 + choose(chance(1, 2) ? 200 : 4000); if (f == 5 && pre.size()) { if (choose(2)) io::policy.weio_after = choose(600); else io::policy.disk_free = choose(1500); disk = true; }
  if (!want.empty()) nontrivial(); state(hash(fmt("%d %d %zu %zu %zu %d", n, in, G.size(), p.out.size(), ms.size(), rot)));
  ran(r); if (!r.threw.empty() || r.aborted) return; string how = show_args(r) + " < " + quote(data, 300);
  if (r.code) { SIM_CHECK(r.in_failed || r.out_failed || r.alloc_fired || io::any_write_failed(), "plan.refused", "%s: exit status %d (%s)", how.c_str(), r.code, quote(r.err).c_str()); if (!r.alloc_fired) SIM_CHECK(!r.err.empty(), "plan.mute", "%s: exit status %d and not a word", how.c_str(), r.code); return; }
  SIM_CHECK(!r.in_failed, "plan.input", "%s: exit status 0 though the input could not be read", how.c_str()); SIM_CHECK(!r.out_failed && !(disk && io::any_write_failed()), "plan.output", "%s: exit status 0 though output could not be written", how.c_str());
  vector<string> got = lines(r.out); size_t N = quiet ? want.size() : got.size(); if (quiet) SIM_CHECK(got.empty(), "plan.quiet", "%s: printed %s", how.c_str(), quote(r.out, 200).c_str()); if (quiet && pre.empty()) return;
  for (size_t i = 0; i < N; ++i) {
    vector<string> pl; if (pre.size()) { string fn = pre + fmt("%zu", i + 1) + post; SIM_CHECK(io::exists(fn), "plan.file", "%s: plan %s was not written", how.c_str(), fn.c_str()); pl = lines(io::get(fn)); std::sort(pl.begin(), pl.end()); }
    bool ok = false; for (size_t j = 0; !ok && j < want.size(); ++j) if ((quiet || want[j].line == got[i]) && (pre.empty() || want[j].any.count(pl))) { want.erase(want.begin() + j); ok = true; }
    if (!ok) { string s; for (auto& l : pl) s += l + "; "; violation("plan.wrong", "%s: plan %zu, %s %s, is false, not whole, or was found before", how.c_str(), i + 1, quiet ? "" : quote(got[i]).c_str(), quote(s, 400).c_str()); } }
  if (pre.size()) SIM_CHECK(!io::exists(pre + fmt("%zu", N + 1) + post), "plan.file", "%s: a plan more was written", how.c_str());
  if (!want.empty()) violation("plan.missed", "%s: not found: %s", how.c_str(), want[0].line.c_str());
  probe(rot ? "plans up to rotation" : G.size() > 1 ? "plans in parts" : "plans");
}
SCENARIO(plan_bad, "P22", 1) {
  static const vector<vector<string>> bad = { {}, {"-b0"}, {"-b-2"}, {"-b300"}, {"-bx"}, {"-b"}, {"-b5", "-Px"}, {"-b5", "-P11345"}, {"-b5", "-P21345"}, {"-b5", "-P123456"}, {"-b5", "-i", "-P13245"}, {"-b5", "-r", "-P13245"}, {"-b5", "-O"}, {"-b5", "--zz"}, {"-b5", "-Z"} };
  static const vector<string> in = { "bad\tX\n", "&5.1.5,12\n", "5:5.1.5\n", "+5.1\tP\n", "&5.1.5.1.5,125\tP\nqq\n", "+1.1.1\tX\n", "+5.1.5.1.5\tX\n" };
  AppRun r; r.args = { "spliceplan" }; bool opt = choose(2); if (opt) { for (auto& a : bad[choose(bad.size())]) r.args.push_back(a); r.in.data = "&5.1.5.1.5,125\tPB\n"; } else { r.args.push_back("-b5"); r.in.data = in[choose(in.size())]; if (chance(1, 3)) r.in.data = "&5.1.5.1.5,125\tPB\n" + r.in.data; }
  nontrivial(); state(hash(show_args(r) + r.in.data)); ran(r); SIM_CHECK(r.code != 0 && r.out.empty() && !r.err.empty(), "plan.bad", "%s < %s: exit status %d, %s, %s", show_args(r).c_str(), quote(r.in.data).c_str(), r.code, quote(r.out, 80).c_str(), quote(r.err, 80).c_str());
}
