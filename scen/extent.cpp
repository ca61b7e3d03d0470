// extent: every row there is, once, in order.
#include "common.h"
#include "simapp.h"
int app_main(int, char**);
using namespace sim; using namespace ref;
static void ran(AppRun& r) { run_app(r, app_main); SIM_CHECK(r.threw.empty() || r.alloc_fired, "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted || r.alloc_fired, "abort", "%s aborted", show_args(r).c_str()); }
static void opt(AppRun& r, const char* s, const char* l, int v) { unsigned k = choose(3); if (k == 0) r.args.push_back(fmt("-%s%d", s, v)); else if (k == 1) { r.args.push_back(fmt("-%s", s)); r.args.push_back(fmt("%d", v)); } else r.args.push_back(fmt("--%s=%d", l, v)); }
static string bell_name(int b) { return b < 33 ? string(1, bell_char(b)) : fmt("{%d}", b + 1); }
SCENARIO(extent_rows, "P15", 1) {
  int nw = choose(7), h = choose(4), t = choose(4); if (chance(1, 10)) { h = choose(60); t = choose(60); nw = choose(4); } int b = nw + h + t; if (!b) discard(); bool inc = chance(1, 2); if (b > 12 && nw > 5) discard();
  AppRun r; r.args = {"extent"}; vector<int> o = {0, 1, 2, 3}; for (int i = 3; i; --i) std::swap(o[i], o[choose(i + 1)]);
  for (int k : o) { if (k == 0) opt(r, "b", "bells", b); if (k == 1 && (h || chance(1, 4))) opt(r, "h", "hunts", h); if (k == 2 && (t || chance(1, 4))) opt(r, "t", "tenors", t); if (k == 3 && inc) r.args.push_back(chance(1, 2) ? "-i" : "--in-course"); }
  vector<int> w; for (int i = 0; i < nw; ++i) w.push_back(h + i); string want; size_t n = 0;
  do { Row x = rounds(b); for (int i = 0; i < nw; ++i) x[h + i] = w[i]; if (inc && sign(x) < 0) continue; for (int v : x) want += bell_name(v); want += "\n"; ++n; } while (std::next_permutation(w.begin(), w.end()));
  unsigned f = choose(4); if (f == 1) r.out_fail_at = choose(want.size() + 1); if (f == 2) r.out_fail_sync = 1; if (f == 3 && chance(1, 2)) { r.alloc_fail = 1 + choose(200); } nontrivial(); ran(r); state(hash(fmt("%d %d %d %d", nw, h, t, (int)inc)));
  if (!r.threw.empty() || r.aborted) return;
  if (r.code == 0) { SIM_CHECK(!r.out_failed, "extent.output", "%s: exit status 0 though the output could not be written", show_args(r).c_str()); SIM_CHECK(r.out == want, "extent.rows", "%s: %zu bytes printed, %zu expected: %s", show_args(r).c_str(), r.out.size(), want.size(), quote(r.out).c_str()); probe("extent.whole"); }
  else { SIM_CHECK(r.out_failed || r.alloc_fired, "extent.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str()); if (r.out_failed) probe("extent.output_failed"); }
}
SCENARIO(extent_bad, "P15", 1) {
  AppRun r; r.args = {"extent"}; unsigned k = choose(5); if (k == 0) { r.args.push_back("-b5"); r.args.push_back("-h3"); r.args.push_back(fmt("-t%d", 3 + (int)choose(3))); } else if (k == 1) r.args.push_back(fmt("-b%d", 257 + (int)choose(1000))), r.args.push_back("-h256"); else if (k == 2) r.args.push_back("-b0"); else if (k == 3) r.args.push_back("-bx"); nontrivial(); ran(r);
  SIM_CHECK(r.code == 1 && r.out.empty() && !r.err.empty(), "extent.bad", "%s: exit status %d, %s", show_args(r).c_str(), r.code, quote(r.out).c_str());
}
