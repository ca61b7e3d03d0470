// printmethod: the rows of a lead or course.
#include "common.h"
#include "simapp.h"
int app_main(int, char**);
using namespace sim; using namespace ref;
static void ran(AppRun& r) { run_app(r, app_main); SIM_CHECK(r.threw.empty() || r.alloc_fired, "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted || r.alloc_fired, "abort", "%s aborted", show_args(r).c_str()); }
static void opt(AppRun& r, const char* s, const char* l, string const& v) { unsigned k = choose(3); if (k == 0) r.args.push_back(fmt("-%s%s", s, v.c_str())); else if (k == 1) { r.args.push_back(fmt("-%s", s)); r.args.push_back(v); } else r.args.push_back(fmt("--%s=%s", l, v.c_str())); }
static void flag(AppRun& r, const char* s, const char* l) { r.args.push_back(chance(1, 2) ? fmt("-%s", s) : fmt("--%s", l)); }
SCENARIO(print_lead, "P15", 3) {
  int n = range(2, chance(1, 5) ? 14 : 8); GenMethod g = gen_method(n, 14); Row start = rounds(n); bool s = chance(1, 3), c = chance(1, 3), F = chance(1, 3), S = chance(1, 3); int ri = chance(1, 5) ? choose(3) : 0, rf = chance(1, 5) ? choose(3) : 0;
  if (s) for (int i = n - 1; i > 0; --i) std::swap(start[i], start[choose(i + 1)]);
  AppRun r; r.args = {"printmethod"}; bool colon = chance(1, 3); vector<int> o = {0, 1, 2, 3, 4, 5, 6, 7}; for (int i = 7; i; --i) std::swap(o[i], o[choose(i + 1)]);
  for (int k : o) { if (k == 0 && (!colon || chance(1, 3))) opt(r, "b", "bells", fmt("%d", n)); if (k == 1 && s) opt(r, "s", "start", str(start)); if (k == 2 && c) flag(r, "c", "course"); if (k == 3 && F) flag(r, "F", "omit-final"); if (k == 4 && S) flag(r, "S", "omit-start"); if (k == 5 && ri) opt(r, "r", "init-rounds", fmt("%d", ri)); if (k == 6 && rf) opt(r, "f", "final-rounds", fmt("%d", rf)); }
  string pn = (colon ? fmt("%d:", n) : "") + g.pn; if (pn[0] == '-') r.args.push_back("--"); r.args.push_back(pn);
  vector<Row> v; Row x = start; do { for (auto& ch : g.m) { v.push_back(x); x = ref::apply(x, ch); } } while (c && x != start && v.size() < 4000); if (v.size() >= 4000) discard(); v.push_back(x);
  string want; for (int i = 0; i < ri * 2; ++i) want += str(start) + "\n"; for (size_t i = 0; i < v.size(); ++i) { if (i == 0 && (S || ri)) continue; if (i + 1 == v.size() && F) continue; want += str(v[i]) + "\n"; } for (int i = 0; i < rf * 2; ++i) want += str(x) + "\n";
  unsigned f = choose(5); if (f == 1) r.out_fail_at = choose(want.size() + 1); if (f == 2) r.out_fail_sync = 1; if (f == 3) r.alloc_fail = 1 + choose(300); nontrivial(); ran(r); state(hash(fmt("%d %d%d%d%d %d %d", n, s, c, F, S, ri, rf)));
  if (!r.threw.empty() || r.aborted) return;
  if (r.code == 0) { SIM_CHECK(!r.out_failed, "lead.output", "%s: exit status 0 though the output could not be written", show_args(r).c_str()); SIM_CHECK(r.out == want, "lead.rows", "%s: printed %s, should be %s", show_args(r).c_str(), quote(r.out).c_str(), quote(want).c_str()); probe("lead.whole"); }
  else SIM_CHECK(r.out_failed || r.alloc_fired, "lead.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str());
}
SCENARIO(print_bad, "P15", 1) {
  static const vector<vector<string>> bad = { {"x"}, {"-b4", "6:x"}, {"-b4", "-s", "123", "x"}, {"-b4", "-s", "1233", "x"}, {"z:x"}, {":x"}, {"-b4", "hello"}, {"-b4", "15"}, {"999999999999:x"}, {"-b0", "x"}, {"-bx", "x"}, {"-b4", "&x"} };
  AppRun r; r.args = {"printmethod"}; size_t k = choose(bad.size() - 1); for (auto& a : bad[k]) r.args.push_back(a); nontrivial(); ran(r);
  SIM_CHECK(r.code == 1 && r.out.empty() && !r.err.empty(), "lead.bad", "%s: exit status %d, %s", show_args(r).c_str(), r.code, quote(r.out).c_str());
}
