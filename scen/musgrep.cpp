// musgrep: which rows of a stream are music, and what they score.
#include "pattern.h"
#include "simapp.h"
int app_main(int, char**);
using namespace sim; using namespace ref;
static void ran(AppRun& r) { run_app(r, app_main); SIM_CHECK(r.threw.empty() || r.alloc_fired, "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted || r.alloc_fired, "abort", "%s aborted", show_args(r).c_str()); }
static void flag(AppRun& r, const char* s, const char* l) { r.args.push_back(chance(1, 2) ? fmt("-%s", s) : fmt("--%s", l)); }
namespace { struct Item { vector<Pat> p; int sh = 1, sb = 1; long total = 0; }; }
SCENARIO(music_stream, "P15", 4) {
  int n = range(3, 8); bool multi = chance(1, 4); vector<Item> it; vector<string> texts; bool stroke = false, dash = false; int k = range(1, 4); vector<int> seen_named;
  for (int i = 0; i < k; ++i) { Item t; string s; t.sh = t.sb = chance(1, 2) ? 1 : (int)choose(8) - 3; if (chance(1, 5)) { t.sb = (int)choose(7) - 3; }
    if (chance(1, 4)) { int m = choose(9); if (m == 8 && n < 4) m = 7; t.p = named_music(m, n); s = fmt("<%s>", NAMED_MUSIC[m]); } else { Pat p = gen_pat(n, multi); if (minlen(p) > n) discard(); t.p = { p }; s = p.s; }
    if (t.sh != t.sb) { stroke = true; s = fmt("%d,%d:", t.sh, t.sb) + s; } else if (t.sh != 1 || chance(1, 4) || s[0] == '-') s = fmt("%d:", t.sh) + s; if (s[0] == '-') dash = true; it.push_back(t); texts.push_back(s); }
  bool in = chance(1, 5), out = !in && chance(1, 5); if (stroke) in = out = false;
  bool P = chance(1, 3), N = chance(1, 3), C = chance(1, 3), S = chance(1, 3), SS = chance(1, 6); bool rows = !(P || N || C || S || SS);
  AppRun r; r.args = {"musgrep"}; vector<int> o = {0, 1, 2, 3, 4, 5, 6}; for (int i = 6; i; --i) std::swap(o[i], o[choose(i + 1)]);
  for (int q : o) { if (q == 0) r.args.push_back(chance(1, 2) ? fmt("-b%d", n) : fmt("--bells=%d", n)); if (q == 1 && P) flag(r, "p", "positive"); if (q == 2 && N) flag(r, "n", "negative"); if (q == 3 && C) flag(r, "c", "count"); if (q == 4 && S) flag(r, "s", "score"); if (q == 5 && SS) flag(r, "S", "scores"); if (q == 6 && in) flag(r, "i", "in-course"); if (q == 6 && out) flag(r, "o", "out-of-course"); }
  if (dash || chance(1, 6)) r.args.push_back("--"); for (auto& t : texts) r.args.push_back(t);
  // the stream: mostly a run of changes, so that strokes mean something
  string data, want; int m = choose(chance(1, 8) ? 120 : 24); Row x = rounds(n); long cp = 0, cn = 0, cc = 0, score = 0; bool back = true, mixed = chance(1, 10);
  for (int i = 0; i < m; ++i) { Row y = x; if (mixed && chance(1, 4)) y = rounds(n + 1); else { x = ref::apply(x, gen_change(n)); back = !back; }
    data += str(y); data += chance(1, 12) ? (chance(1, 2) ? " " : "\r\n") : "\n"; if (chance(1, 30)) data += "\n"; if ((int)y.size() != n) continue;
    if ((in && sign(y) < 0) || (out && sign(y) > 0)) continue; bool hit = false; long d = 0;
    for (auto& t : it) for (auto& p : t.p) { if (!matches(p, y).empty()) { hit = true; long v = back ? t.sb : t.sh; d += v; t.total += v; } }
    if (hit) { ++cc; score += d; if (d > 0) ++cp; if (d < 0) ++cn; if (rows) want += str(y) + "\n"; } }
  if (!data.empty() && chance(1, 5)) while (!data.empty() && isspace((unsigned char)data.back())) data.pop_back();
  string line; auto add = [&](long v) { if (!line.empty()) line += "\t"; line += fmt("%ld", v); }; if (P) add(cp); if (N) add(cn); if (C) add(cc); if (S) add(score); if (!line.empty()) want += line + "\n"; line.clear(); if (SS) { for (auto& t : it) add(t.total); want += line + "\n"; }
  r.in.data = data; r.in.mode = choose(4); unsigned f = choose(7); bool junk = false; if (f == 1) r.in.fail_at = choose(data.size() + 1); if (f == 2) r.out_fail_at = choose(want.size() + 1); if (f == 3) r.out_fail_sync = 1; if (f == 4) r.alloc_fail = 1 + choose(chance(1, 2) ? 100 : 1000);
  if (f == 5) { static const char* js[] = { "xyz:", "1123", "12?", "&", "=", "1 2 ." }; size_t at = data.size() ? choose(data.size()) : 0; while (at && data[at - 1] != '\n') --at; r.in.data.insert(at, string(js[choose(6)]) + "\n"); junk = true; }
  nontrivial(); ran(r); state(hash(fmt("%d %d%d%d%d%d %d%d %u", n, P, N, C, S, SS, in, out, f))); if (!r.threw.empty() || r.aborted) return;
  if (r.code == 0) { SIM_CHECK(!r.out_failed, "music.output", "%s: exit status 0 though the output could not be written", show_args(r).c_str()); SIM_CHECK(!r.in_failed, "music.input", "%s: exit status 0 though the input could not be read", show_args(r).c_str()); if (junk) violation("music.junk", "%s: exit status 0 for %s", show_args(r).c_str(), quote(r.in.data).c_str());
    SIM_CHECK(r.out == want, "music.answer", "%s < %s: printed %s, should be %s", show_args(r).c_str(), quote(data).c_str(), quote(r.out).c_str(), quote(want).c_str()); probe(rows ? "music.rows" : "music.counts"); if (cc) probe("music.hit"); }
  else { SIM_CHECK(r.in_failed || r.out_failed || r.alloc_fired || junk, "music.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str()); probe("music.failed"); if (!r.alloc_fired) SIM_CHECK(!r.err.empty(), "music.mute", "%s: exit status %d and not a word", show_args(r).c_str(), r.code); }
}
SCENARIO(music_bad, "P15", 1) {
  static const vector<vector<string>> bad = { {"*"}, {"-b6", "-i", "-o", "*"}, {"-b6", "[12"}, {"-b6", "<nothing>"}, {"-b0", "*"}, {"-bx", "*"}, {"-b6", "x:12"} };
  AppRun r; r.args = {"musgrep"}; for (auto& a : bad[choose(bad.size())]) r.args.push_back(a); r.in.data = "123456\n"; nontrivial(); ran(r);
  SIM_CHECK(r.code == 1 && r.out.empty() && !r.err.empty(), "music.bad", "%s: exit status %d, %s", show_args(r).c_str(), r.code, quote(r.out).c_str());
}
