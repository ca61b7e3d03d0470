// touchsearch: the touches of a method, a plan or each method of a stream.
#include "touchmodel.h"
#include "simapp.h"
int app_main(int, char**);
static void ran(AppRun& r) { run_app(r, app_main); SIM_CHECK(r.threw.empty() || r.alloc_fired, "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted || r.alloc_fired, "abort", "%s aborted", show_args(r).c_str()); }
static void flag(AppRun& r, const char* s, const char* l) { r.args.push_back(chance(1, 2) ? fmt("-%s", s) : fmt("--%s", l)); }
static void val(AppRun& r, const char* s, const char* l, string const& v) { if (*s && chance(1, 3)) r.args.push_back(fmt("-%s%s", s, v.c_str())); else if (*s && chance(1, 2) && v[0] != '-' && !v.empty()) { r.args.push_back(fmt("-%s", s)); r.args.push_back(v); } else r.args.push_back(fmt("--%s=%s", l, v.c_str())); }
static string range_text(size_t lo, size_t hi) { if (lo == hi && chance(1, 2)) return fmt("%zu", lo); string a = lo || chance(1, 2) ? fmt("%zu", lo) : "", b = hi == size_t(-1) ? "" : fmt("%zu", hi); return a + "-" + b; }
static int order(Row const& r) { Row x = r; int k = 1; while (x != rounds((int)r.size())) x = mul(x, r), ++k; return k; }
static string pn_of(Method const& m) {   // as a whole, or folded where it is a palindrome
  vector<Change> v(m); size_t L = v.size(); bool pal = L >= 2 && L % 2 == 0; for (size_t i = 0; pal && i + 1 < L; ++i) pal = v[i] == v[L - 2 - i];
  if (pal && choose(4)) { vector<Change> h(v.begin(), v.begin() + L / 2); return "&" + join_pn(h) + "," + pn_text(v.back()); }
  return (choose(3) ? "" : "+") + join_pn(v);
}
static vector<string> lines(string const& s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
namespace {
struct Names { vector<string> call; string plain; bool comma = false; };
struct Print { Spec const& s; Names const& nm;
  string of(Calls const& c) const { string o; Row r = rounds(s.n); bool first = true; size_t len = 0; int guard = 0;
    do for (int k : c) { for (auto& ch : s.lead) r = ref::apply(r, ch); r = ref::apply(r, s.call(k)); len += s.lead.size() + 1; if (nm.comma && !first) o += ','; first = false; int cn = k; if (!k) for (size_t q = 0; q < s.calls.size(); ++q) if (s.calls[q] == s.le) { cn = q + 1; break; } o += cn ? nm.call[cn - 1] : nm.plain; if (++guard > 5000) discard(); } while (nm.comma && order(r) > 1);
    if (order(r) > 1) o += fmt(" x%d", order(r)); if (!nm.comma) o += fmt("  (%zu changes)", len * order(r)); return o; } };
Names gen_names(Spec const& s) { static const vector<vector<string>> pool = { {"b", "s", "x"}, {"B", "S", "Z"}, {"14", "34", "99"}, {"bob", "single", "u"} };   // prefix-free within a row
  Names n; auto& p = pool[choose(pool.size())]; for (size_t i = 0; i < s.calls.size(); ++i) n.call.push_back(p[i]); n.comma = chance(1, 4); return n; }
// options every kind of run shares
struct Opts { bool quiet, count, raw; long limit = -1; };
void common(AppRun& r, Spec const& s, Names& nm, Opts& o) {
  r.args.push_back(chance(1, 2) ? fmt("-b%d", s.n) : fmt("--bells=%d", s.n));
  for (size_t i = 0; i < s.calls.size(); ++i) { string pn = s.calls[i].places().empty() ? string(1, "Xx-"[choose(3)]) : s.calls[i].pn(); if (pn != "-" && chance(1, 4)) nm.call[i] = pn; val(r, "C", "call", nm.call[i] == pn ? pn : nm.call[i] + "=" + pn); }
  // a name taken from the notation may begin another: then what is printed says less, but is still exact
  nm.plain = nm.comma ? "p" : "."; if (chance(1, 4)) { nm.plain = chance(1, 2) ? "pl" : "_"; val(r, "p", "plain-name", nm.plain); }
  if (nm.comma) flag(r, "g", "comma-separate");
  o.quiet = chance(1, 8); o.count = chance(1, 4); o.raw = chance(1, 6); if (o.quiet) flag(r, "q", "quiet"); if (o.count) flag(r, "c", "count"); if (o.raw) r.args.push_back("--raw-count");
}
string tail(Opts const& o, size_t n, bool filter) { string s; if (!o.quiet && (o.count || o.raw)) s = "\n"; if (o.raw) s += fmt("%zu\n", n); else if (o.count) s += fmt("Found %zu %s\n", n, filter ? "methods" : "touches"); return s; }
void faults(AppRun& r, string const& data, bool input, size_t est) { r.in.data = data; r.in.mode = choose(4); unsigned f = choose(8); if (f == 1 && input) r.in.fail_at = choose(data.size() + 1); if (f == 2) r.out_fail_at = choose(est + 1); if (f == 3) r.out_fail_sync = 1; if (f == 4) r.alloc_fail = 1 + choose(chance(1, 2) ? 100 : 2000); }
// true: the answer is to be judged in full (what memory ran out for is at least said)
bool outcome(AppRun& r) {
  if (!r.threw.empty() || r.aborted) return false;
  if (r.code == 0 && r.alloc_fired && !r.err.empty()) return false;
  if (r.code == 0) { SIM_CHECK(!r.out_failed, "touch.output", "%s: exit status 0 though the output could not be written", show_args(r).c_str()); SIM_CHECK(!r.in_failed, "touch.input", "%s: exit status 0 though the input could not be read", show_args(r).c_str()); return true; }
  SIM_CHECK(r.in_failed || r.out_failed || r.alloc_fired, "touch.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str()); if (!r.alloc_fired) SIM_CHECK(!r.err.empty(), "touch.mute", "%s: exit status %d and not a word", show_args(r).c_str(), r.code); probe("touch.failed"); return false;
}
// The touches printed are those wanted: each once, or with rotations left out one of each class.
void judge(AppRun& r, vector<string> got, std::map<string, vector<Calls>> const& want, bool classes, long limit, const char* w) {
  std::map<string, size_t> cnt; size_t total = 0; for (auto& g : got) ++cnt[g]; for (auto& x : want) total += x.second.size();
  for (auto& c : cnt) { auto i = want.find(c.first); if (i == want.end()) violation("touch.wrong", "%s: %s is no true touch (%s)", show_args(r).c_str(), quote(c.first).c_str(), w); SIM_CHECK(c.second <= i->second.size(), "touch.twice", "%s: %s printed %zu times (%s)", show_args(r).c_str(), quote(c.first).c_str(), c.second, w); }
  if (classes) { std::set<Calls> cl, seen; for (auto& x : want) for (auto& c : x.second) cl.insert(least(c)); total = cl.size(); for (auto& g : got) { auto& v = want.at(g); if (v.size() == 1) SIM_CHECK(seen.insert(least(v[0])).second, "touch.rotation", "%s: two rotations of %s", show_args(r).c_str(), quote(g).c_str()); } }
  size_t need = limit >= 0 ? std::min(total, (size_t)limit) : total; if (got.size() == need) return;
  string miss; for (auto& x : want) if (cnt[x.first] < x.second.size()) { miss = x.first; break; }
  violation("touch.missed", "%s: %zu touches printed, should be %zu; e.g. not %s (%s)", show_args(r).c_str(), got.size(), need, quote(miss).c_str(), w);
}
vector<string> strip(AppRun& r, Opts const& o, bool filter, bool nonl, size_t want_n, bool knows) {   // take the count off; it must agree with the lines
  vector<string> l; string out = r.out; string t; size_t n;
  if (o.quiet) { n = want_n; SIM_CHECK(!knows || out == tail(o, n, filter), "touch.count", "%s: printed %s, should be %s", show_args(r).c_str(), quote(out).c_str(), quote(tail(o, n, filter)).c_str()); return l; }
  l = lines(out); size_t extra = o.count || o.raw ? 2 : 0; SIM_CHECK(l.size() >= extra, "touch.count", "%s: printed %s", show_args(r).c_str(), quote(out).c_str()); n = l.size() - extra; t = tail(o, n, filter);
  SIM_CHECK(out.size() >= t.size() && out.compare(out.size() - t.size(), t.size(), t) == 0, "touch.count", "%s: printed %s, which should end %s", show_args(r).c_str(), quote(out).c_str(), quote(t).c_str()); l.resize(n); return l;
}
}
SCENARIO(touch_list, "P16", 4) {
  Spec s = gen(); if (s.basic) { s.basic = false; s.parts = { rounds(s.n) }; } s.flags |= table_search::length_in_changes; size_t unit = s.parts.size() * (s.lead.size() + 1);
  if (s.range && !s.clo && s.chi == size_t(-1)) { s.clo = s.lo ? s.lo * unit - choose(unit) : 0; s.chi = s.hi * unit + choose(unit); }
  bool mutual = s.flags & table_search::mutually_true_parts;
  Names nm = gen_names(s); Opts o; AppRun r; r.args = {"touchsearch"}; common(r, s, nm, o);
  if (s.range) val(r, "l", "length", range_text(s.clo, s.chi)); if (s.rot) flag(r, "r", "ignore-rotations"); if (mutual) flag(r, "m", "mutually-true-parts");
  bool loose = chance(1, 8); if (loose) flag(r, "R", "allow-non-round-blocks");
  if (s.parts.size() > 1) { string p = str(s.parts[1]); if (chance(1, 4)) while (p.size() > 1 && p.back() == bell_char((int)p.size() - 1)) p.pop_back(); val(r, "P", "part-end", p); if (chance(1, 5)) val(r, "P", "part-end", str(s.parts[choose(s.parts.size())])); }
  else if (chance(1, 10)) val(r, "P", "part-end", str(rounds(s.n)));
  if (!s.rot && chance(1, 6)) { o.limit = 1 + choose(6); val(r, "", "limit", fmt("%ld", o.limit)); }
  if (s.calls.empty()) { Change b; b.n = s.n; b.sw = { 1 }; for (int i = 4; i + 1 < s.n; i += 2) b.sw.push_back(i); s.calls.push_back(b); nm.call.push_back("b"); }   // fourths place bobs
  Method m = s.lead; m.push_back(s.le); string pn = pn_of(m); if (pn[0] == '-') r.args.push_back("--"); r.args.push_back(pn);
  Brute b(s); b.go(rounds(s.n)); Print p{s, nm}; std::map<string, vector<Calls>> want; for (auto& c : b.out) want[p.of(c)].push_back(c); size_t est = 0, tot = b.out.size(); for (auto& x : want) est += (x.first.size() + 1) * x.second.size();
  if (b.out.size() > 1) nontrivial(); state(mix(hash(fmt("%d%d%d%d %ld %d", nm.comma, s.rot, mutual, loose, o.limit, (int)s.parts.size())), b.out.size()));
  faults(r, "", false, est); ran(r); if (!outcome(r)) return;
  bool cls = s.rot && s.parts.size() == 1; if (cls) { std::set<Calls> c; for (auto& x : b.out) c.insert(least(x)); tot = c.size(); } if (o.limit >= 0) tot = std::min(tot, (size_t)o.limit);
  vector<string> got = strip(r, o, false, false, tot, !loose); if (o.quiet) return;
  if (!loose) { judge(r, got, want, cls, o.limit, "method"); if (!got.empty()) probe(nm.comma ? "touches, commas" : "touches"); return; }
  // touches need not come round: each is still true, and if not cut short no true round one is missing
  std::map<string, size_t> cnt; for (auto& g : got) ++cnt[g]; if (o.limit < 0 && !cls) for (auto& x : want) SIM_CHECK(cnt[x.first] >= x.second.size(), "touch.missed", "%s: %s not printed", show_args(r).c_str(), quote(x.first).c_str());
  if (nm.comma) return;
  for (auto& g : got) { string t = g.substr(0, g.find("  (")); t = t.substr(0, t.find(" x")); vector<Calls> at = { {} }; vector<size_t> pos = { 0 }; bool ok = false, any = false;   // every way to read it
    std::function<void(size_t, Calls&)> rd = [&](size_t i, Calls& c) { if (ok || c.size() > 60) return; if (i == t.size()) { any = true; std::set<Row> had; Row x = rounds(s.n); bool tr = true; for (auto& ch : s.changes(c)) { for (auto& q : s.parts) tr &= had.insert(mul(q, x)).second; x = ref::apply(x, ch); } ok = tr; return; } for (int k = 0; k <= (int)s.calls.size(); ++k) { string const& w = k ? nm.call[k - 1] : nm.plain; if (!w.empty() && t.compare(i, w.size(), w) == 0) { c.push_back(k); rd(i + w.size(), c); c.pop_back(); } } };
    Calls c; rd(0, c); SIM_CHECK(any && ok, "touch.false", "%s: %s is not true", show_args(r).c_str(), quote(g).c_str()); } probe("touches that need not come round");
}
SCENARIO(touch_plan, "P16", 3) {
  Spec s; s.n = choose(2) ? 5 : 4; int n = s.n; vector<Change> calls; int nc = 1 + choose(3); auto fixed = [&](Change c) { if (!c.sw.empty() && c.sw[0] == 0) c.sw.erase(c.sw.begin()); if (c.sw.empty()) c.sw.push_back(1 + choose(n - 2)); return c; };
  for (int i = 0; i < nc; ++i) { Change c = fixed(gen_change(n)); if (std::find(calls.begin(), calls.end(), c) == calls.end()) calls.push_back(c); } s.calls = calls;
  vector<Method> meths; int nm0 = 1 + choose(3); for (int i = 0; i < nm0; ++i) for (int t = 0; t < 40; ++t) { int half = choose(6); Method m; for (int k = 0; k < half; ++k) m.push_back(gen_change(n)); for (int k = half - 2; k >= 0; --k) m.push_back(m[k]); std::set<Row> seen; Row x = rounds(n); bool ok = seen.insert(x).second; for (auto& c : m) { x = ref::apply(x, c); ok &= seen.insert(x).second; } if (!ok || x[0] != 0) continue; meths.push_back(m); break; }
  if (meths.empty()) discard();
  struct Entry { Row lh; size_t m; std::set<Row> rows; Row le; }; vector<Entry> plan; vector<Row> all; { Row x = rounds(n); do all.push_back(x); while (std::next_permutation(x.begin() + 1, x.end())); } int dens = 1 + choose(4);
  for (auto& lh : all) { if ((int)choose(4) >= dens && lh != rounds(n)) continue; Entry e; e.lh = lh; e.m = choose(meths.size()); Row x = lh; e.rows.insert(x); for (auto& c : meths[e.m]) { x = ref::apply(x, c); e.rows.insert(x); } e.le = x; bool ok = true; for (auto& p : plan) { bool share = false, ends = p.lh == e.lh || p.lh == e.le || p.le == e.lh || p.le == e.le; for (auto& w : e.rows) share |= p.rows.count(w) > 0; if (share && !ends) ok = false; } if (ok) plan.push_back(e); }   // no falseness within the plan but at the lead ends
  if (chance(1, 10)) for (size_t i = 0; i < plan.size(); ++i) if (plan[i].lh == rounds(n)) { plan.erase(plan.begin() + i); break; }
  std::map<Row, Entry*> at; for (auto& e : plan) at[e.lh] = &e;
  Names nm = gen_names(s); Opts o; AppRun r; r.args = {"touchsearch"}; flag(r, "a", "use-plan"); common(r, s, nm, o); size_t lo = 0, hi = size_t(-1); if (chance(2, 3)) { lo = choose(40); hi = lo + choose(50); val(r, "l", "length", range_text(lo, hi)); } if (chance(1, 6)) { o.limit = 1 + choose(5); val(r, "", "limit", fmt("%ld", o.limit)); }
  std::map<string, vector<Calls>> want; size_t tot = 0, est = 0, work = 0; std::set<Row> had; vector<std::pair<size_t, int>> c;
  auto print = [&] { string t; Row x = rounds(n); bool first = true; size_t len = 0; do for (auto& q : c) { for (auto& ch : meths[q.first]) x = ref::apply(x, ch); x = ref::apply(x, calls[q.second]); len += meths[q.first].size() + 1; if (nm.comma && !first) t += ','; first = false; t += nm.call[q.second]; } while (nm.comma && order(x) > 1); if (order(x) > 1) t += fmt(" x%d", order(x)); if (!nm.comma) t += fmt("  (%zu changes)", len * order(x)); return t; };
  std::function<void(Row const&, size_t)> go = [&](Row const& lh, size_t len) { if (++work > 60000) discard(); auto i = at.find(lh); if (i == at.end()) return; Entry& e = *i->second; bool clash = false; for (auto& w : e.rows) clash |= had.count(w) > 0; if (clash) { if (lh == rounds(n) && len >= lo) { Calls k; for (auto& q : c) k.push_back(q.second); string t = print(); want[t].push_back(k); est += t.size() + 1; ++tot; if (tot > 4000) discard(); } return; } size_t l2 = len + meths[e.m].size() + 1; if (l2 > hi) return; for (auto& w : e.rows) had.insert(w); for (size_t k = 0; k < calls.size(); ++k) { c.push_back({ e.m, (int)k }); go(ref::apply(e.le, calls[k]), l2); c.pop_back(); } for (auto& w : e.rows) had.erase(w); };
  go(rounds(n), 0);
  for (size_t i = plan.size(); i > 1; --i) std::swap(plan[i - 1], plan[choose(i)]); string data; size_t bad = 0; bool halves = chance(1, 10); for (auto& e : plan) { Method m = meths[e.m]; m.push_back(calls[choose(calls.size())]); string lh = str(e.lh); if (halves) while (lh.size() > 1 && lh.back() == bell_char((int)lh.size() - 1)) lh.pop_back(); data += lh + (chance(1, 4) ? "\t" : " ") + pn_of(m); if (chance(1, 2)) data += " Name"; data += "\n"; if (chance(1, 12)) { data += chance(1, 2) ? "junk!\n" : "1234\n"; ++bad; } }
  if (!data.empty() && chance(1, 4)) data.pop_back();
  if (tot) nontrivial(); state(mix(hash(fmt("plan %d %ld", nm.comma, o.limit)), tot)); faults(r, data, true, est); ran(r); if (!outcome(r)) return;
  if (o.limit >= 0) tot = std::min(tot, (size_t)o.limit); vector<string> got = strip(r, o, false, false, tot, true); SIM_CHECK(bad == 0 || r.err.find("Error reading line") != string::npos, "plan.junk", "%s: a bad line of the plan was not reported", show_args(r).c_str()); if (o.quiet) return; judge(r, got, want, false, o.limit, "plan"); if (!got.empty()) probe("touches of a plan");
}
SCENARIO(touch_filter, "P16", 2) {
  Spec s0 = gen(); if (s0.basic) { s0.basic = false; s0.parts = { rounds(s0.n) }; } Names nm = gen_names(s0); Opts o; AppRun r; r.args = {"touchsearch"}; r.args.push_back("--filter"); common(r, s0, nm, o); size_t lo = 0, hi = size_t(-1);
  if (s0.parts.size() > 1) val(r, "P", "part-end", str(s0.parts[1])); if (s0.flags & table_search::mutually_true_parts) flag(r, "m", "mutually-true-parts");
  if (s0.calls.empty()) { Change b; b.n = s0.n; b.sw = { 1 }; s0.calls.push_back(b); nm.call.push_back("b"); }
  if (s0.n == 5 || chance(1, 2)) { lo = choose(60); hi = lo + 20 + choose(40); val(r, "l", "length", range_text(lo, hi)); }
  struct M { string pn, payload; std::map<string, vector<Calls>> want; }; vector<M> ms; string data; size_t work = 0, n_ok = 0; int k = choose(6); bool junk = false, hunt = true; for (auto& c : s0.calls) hunt &= c.sw.empty() || c.sw[0] != 0; for (auto& p : s0.parts) hunt &= p[0] == 0;
  for (int i = 0; i < k; ++i) {
    Spec s = i == 0 || chance(1, 4) ? s0 : gen(); if (s.n != s0.n) continue; s.calls = s0.calls; s.parts = s0.parts; s.flags = (s0.flags & table_search::mutually_true_parts) | table_search::length_in_changes; s.basic = s.rot = false; s.range = true; size_t unit = s.parts.size() * (s.lead.size() + 1); s.lo = (lo + unit - 1) / unit; s.hi = hi == size_t(-1) ? hi : hi / unit;
    if (hi == size_t(-1) && s.n == 5) continue; Brute b(s); b.go(rounds(s.n)); if ((work += b.work) > 400000) discard(); M m; Method mm = s.lead; mm.push_back(s.le); m.pn = pn_of(mm); if (chance(3, 4)) m.payload = gen_name(3); Print p{s, nm}; for (auto& c : b.out) m.want[p.of(c)].push_back(c); if (!m.want.empty()) ++n_ok;
    if (chance(1, 8)) data += "\n"; if (chance(1, 6)) data += " "; if (chance(1, 4)) data += fmt("%d:", s.n); data += m.pn; if (!m.payload.empty()) data += (chance(1, 2) ? "\t" : " ") + m.payload; data += chance(1, 8) ? "\r\n" : "\n"; ms.push_back(m);
    if (chance(1, 10)) { data += "&%%nonsense\tq\n"; junk = true; } if (chance(1, 10)) data += fmt("%d:&-,1 other stage\n", s.n + 2); }
  if (n_ok) nontrivial(); state(mix(hash("filter"), mix(k, n_ok))); faults(r, data, true, 20 * k); ran(r); if (!outcome(r)) return;
  vector<string> got = strip(r, o, true, false, n_ok, true); if (junk) SIM_CHECK(!r.err.empty(), "filter.junk", "%s: nonsense was not reported", show_args(r).c_str()); if (o.quiet) return;
  size_t g = 0; for (auto& m : ms) { if (m.want.empty()) continue; string pre = m.pn + "\t" + m.payload + "\t"; SIM_CHECK(g < got.size(), "filter.missed", "%s: no touch for %s", show_args(r).c_str(), quote(pre).c_str()); SIM_CHECK(got[g].compare(0, pre.size(), pre) == 0, "filter.line", "%s: printed %s, should be a touch of %s", show_args(r).c_str(), quote(got[g]).c_str(), quote(pre).c_str()); SIM_CHECK(m.want.count(got[g].substr(pre.size())), "filter.false", "%s: %s is no true touch", show_args(r).c_str(), quote(got[g]).c_str()); ++g; }
  SIM_CHECK(g == got.size(), "filter.extra", "%s: printed %s", show_args(r).c_str(), quote(g < got.size() ? got[g] : "").c_str()); if (g) probe("methods passed on with a touch");
}
SCENARIO(touch_bad, "P16", 1) {
  static const vector<vector<string>> bad = { {"-16"}, {"-b6"}, {"-b3", "x"}, {"-b34", "x16"}, {"-bx", "x16"}, {"-b6", "x17", "-C14"}, {"-b6", "x16", "-C18"}, {"-b6", "x16", "-Ch=?"}, {"-b6", "x16", "-l20-10"}, {"-b6", "x16", "-P1123"}, {"-b6", "x16", "-P1234567"}, {"-b6", "x16", "-P12a?"}, {"-b6", "-a", "x16"}, {"-b6", "--no-such", "x16"}, {"-b6", "x16", "-lq"} };
  static const vector<std::pair<vector<string>, string>> plans = { { {"-b6", "-a", "-C14"}, "213456 &x16,12\n" }, { {"-b6", "-a", "-C14"}, "12345678 &x16,12\n" }, { {"-b6", "-a", "-C34"}, "123456 x\n" }, { {"-b6", "-a", "-Cx"}, "123456 &x16,12\n" }, { {"-b6", "-a", "-C14"}, "123456 17\n" }, { {"-b6", "-a", "-C14"}, "123456 &x36,16\n213456 x16\n" } };
  AppRun r; r.args = {"touchsearch"}; if (chance(1, 2)) for (auto& a : bad[choose(bad.size())]) r.args.push_back(a); else { auto& p = plans[choose(plans.size())]; for (auto& a : p.first) r.args.push_back(a); r.in.data = p.second; r.in.mode = choose(4); }
  nontrivial(); ran(r); SIM_CHECK(r.code == 1 && r.out.empty() && !r.err.empty(), "touch.bad", "%s < %s: exit status %d, %s", show_args(r).c_str(), quote(r.in.data).c_str(), r.code, quote(r.out).c_str());
}
