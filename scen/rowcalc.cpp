// rowcalc: the rows of a row expression, whatever the expression's sources do.
#include "rowexpr.h"
#include "simapp.h"
#include <cstdlib>
int app_main(int, char**);
using namespace sim; using namespace rowx; using std::string; using std::vector;
namespace {
vector<string> lines(string const& s) { vector<string> v; string c; for (char ch : s) { if (ch == '\n') { v.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) v.push_back("?" + c); return v; }
string nrm(string s) { while (s.size() > 1 && s.back() == ref::bell_char(s.size() - 1)) s.pop_back(); return s; }
struct Env { std::map<string, proc::Child> cmds; string shell; };
void set_shell(Env& e) {
  unsigned k = choose(3); if (k == 0) unsetenv("SHELL"); else setenv("SHELL", k == 1 ? "" : "/usr/bin/othersh", 1); e.shell = k == 2 ? "/usr/bin/othersh" : "/bin/sh";
  proc::handler = [&e](vector<string> const& av) -> proc::Child { SIM_CHECK(av.size() == 3 && av[0] == e.shell && av[1] == "-c", "exec.shell", "command %s run by %s", quote(av.back()).c_str(), quote(av[0]).c_str()); auto i = e.cmds.find(av[2]); SIM_CHECK(i != e.cmds.end(), "exec.command", "ran %s", quote(av[2]).c_str()); return i->second; };
}
void proc_reads() { if (chance(1, 2)) proc::plan.read_mode = choose(4); if (chance(1, 4)) proc::plan.eintr_pct = 5 + choose(30); if (chance(1, 5)) proc::plan.wait_eintr = 1 + choose(2); if (chance(1, 6)) { proc::plan.foreign = 1; proc::plan.foreign_status = choose(3); } }
void file_reads() { if (chance(1, 2)) io::policy.read_mode = choose(4); }
void tidy() { SIM_CHECK(proc::open_fds() == 0, "exec.fds", "%d pipe descriptors left open", proc::open_fds()); SIM_CHECK(proc::unreaped() == 0, "exec.zombies", "%d children never waited for", proc::unreaped()); }
void ran_ok(AppRun& r) { run_app(r, app_main); SIM_CHECK(r.threw.empty(), "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted, "abort", "%s aborted", show_args(r).c_str()); }

struct Ask { Gen g; P p; string text; int bells = 0; };
bool make(Ask& a, int depth) {
  a.g.n = range(2, chance(1, 8) ? 14 : 7); a.g.uniform = !chance(1, 4); a.g.changes = a.g.uniform && a.g.n > 2 && chance(1, 6); a.g.streams = true;
  int left = 4; a.p = a.g.gen(depth, left); if (a.g.too_big || a.g.empty_gen || (int)a.p->rows.size() > 600) return false; if (a.g.changes) a.bells = a.g.n; else if (chance(1, 2)) a.bells = std::max(1, (int)a.g.n + (int)choose(4) - 1);
  if (a.g.changes) for (auto& r : a.p->rows) if ((int)r.size() != a.bells) return false;
  a.text = a.g.text(a.p); return true;
}
// what the whole result is once padded or cut; false if a row cannot be cut
bool finish(Ask const& a, vector<string>& out) { for (auto& r : a.p->rows) { Row x = r; if (a.bells) { if ((int)x.size() > a.bells) { x = norm(x); if ((int)x.size() > a.bells) return false; } x = pad(x, a.bells); } out.push_back(ref::str(x)); } return true; }
void add_opts(AppRun& r, Ask const& a) { if (a.bells) { unsigned k = choose(3); if (k == 0) r.args.push_back(fmt("-b%d", a.bells)); else if (k == 1) { r.args.push_back("-b"); r.args.push_back(fmt("%d", a.bells)); } else r.args.push_back(fmt("--bells=%d", a.bells)); } if (a.g.changes) r.args.push_back(chance(1, 2) ? "-C" : "--accept-changes"); }
void compare(vector<string> got, vector<string> want, Ask const& a, string const& what) {
  bool exact = a.bells; if (!exact) { for (auto& s : got) s = nrm(s); for (auto& s : want) s = nrm(s); }
  bool distinct = std::set<string>(want.begin(), want.end()).size() == want.size();
  bool stream = a.p->k == FILE_ || a.p->k == STDIN || a.p->k == EXEC; P q = a.p; while (!stream && (q->k == POW || ((q->k == MUL || q->k == DIV || q->k == LDIV || q->k == CONJ) && q->kids[1]->k == ROW) )) { q = q->kids[0]; stream = q->k == FILE_ || q->k == STDIN || q->k == EXEC; }
  if (!stream) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (!distinct || plurals(a.p) > 1) { got.erase(std::unique(got.begin(), got.end()), got.end()); want.erase(std::unique(want.begin(), want.end()), want.end()); } }
  if (got != want) { string miss, extra; for (auto& w : want) if (std::find(got.begin(), got.end(), w) == got.end()) miss += " " + w; for (auto& w : got) if (std::find(want.begin(), want.end(), w) == want.end()) extra += " " + w;
    violation(miss.empty() && extra.empty() ? "rows.order" : miss.empty() ? "rows.extra" : "rows.missing", "%s: %zu rows printed, %zu expected; missing:%s; wrong:%s", what.c_str(), got.size(), want.size(), miss.substr(0, 200).c_str(), extra.substr(0, 200).c_str()); }
}
Env env;
void setup(Ask& a) { env.cmds.clear(); for (auto& c : a.g.cmds) { proc::Child k; k.out = c.second; if (chance(1, 6)) k.exit = choose(3); env.cmds[c.first] = k; } set_shell(env); }
void fresh() { io::reset(); proc::reset(); }
}

// One expression, read through storage, pipe and standard input that deliver as they like.
SCENARIO(row_eval, "P15", 10) {
  fresh(); Ask a; if (!make(a, range(0, 3))) discard(); setup(a); proc_reads(); file_reads(); nontrivial();
  AppRun r; r.args = {"rowcalc"}; add_opts(r, a); r.args.push_back(a.text); r.in.data = a.g.in; r.in.mode = choose(4);
  vector<string> want; bool fits = finish(a, want); ran_ok(r); tidy();
  state(hash(fmt("eval%d %d %zu %d", (int)a.p->k, a.bells, a.p->rows.size(), (int)a.g.changes)));
  if (!fits) { probe("row.truncation_refused"); SIM_CHECK(r.code == 1 && !r.err.empty(), "rows.truncate", "%s: exit status %d though a row cannot be cut to %d bells", show_args(r).c_str(), r.code, a.bells); return; }
  SIM_CHECK(r.code == 0, "rows.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str());
  compare(lines(r.out), want, a, show_args(r));
  if (a.p->rows.size() > 1) probe("row.multi"); if (a.g.in_used) probe("row.stdin"); if (!a.g.cmds.empty()) probe("row.command");
}
// Printed and counted, the same rows.
SCENARIO(row_count, "P15", 3) {
  fresh(); Ask a; if (!make(a, range(0, 3))) discard(); setup(a); proc_reads(); file_reads();
  AppRun r; r.args = {"rowcalc"}; add_opts(r, a); r.args.push_back(a.text); r.in.data = a.g.in; r.in.mode = choose(4); AppRun c = r; c.args.insert(c.args.begin() + 1, chance(1, 2) ? "-c" : "--count");
  vector<string> want; if (!finish(a, want)) discard(); nontrivial(); ran_ok(r); Env e2 = env; ran_ok(c); tidy();
  SIM_CHECK(r.code == 0 && c.code == 0, "count.refused", "%s: exit status %d, %d", show_args(c).c_str(), r.code, c.code);
  SIM_CHECK(c.out == fmt("%zu\n", lines(r.out).size()), "count.differs", "%s: %zu rows printed, count %s", show_args(c).c_str(), lines(r.out).size(), quote(c.out).c_str());
}
// Several expressions: on the command line, or one to a line on standard input, where one that is wrong spoils no other.
SCENARIO(row_many, "P15", 5) {
  fresh(); int k = range(1, 5); bool from_in = chance(1, 2); vector<Ask> v; env.cmds.clear(); int n = range(2, 7); string in; AppRun r; r.args = {"rowcalc"}; int bells = chance(1, 2) ? 0 : n + choose(3); if (bells) r.args.push_back(fmt("-b%d", bells)); int bad = chance(1, 3) ? choose(k) : -1; size_t nrows = 0;
  static const char* wrong[] = { "1233", "{12,", "12*", "*12", "12 21", "(21", "21)", "<21", "^2", "<(/sim/none)", "<(/sim/badrows)", "12=21", "", "{12,21}*<(/sim/badrows)", "21^", "12--21", "12^(" };
  io::put("/sim/badrows", "12x34\n1243\n"); string wrong_t = bad >= 0 ? wrong[choose(17)] : ""; if (!from_in && wrong_t == "") bad = -1;
  for (int i = 0; i < k; ++i) { if (i == bad) { if (from_in) { in += wrong_t + "\n"; } else r.args.push_back(wrong_t); if (!from_in) continue; else continue; }
    Ask a; a.g.n = n; a.g.allow_stdin = false; a.g.streams = true; a.g.nfile = i * 10; int left = 3; a.p = a.g.gen(range(0, 2), left); if (a.g.too_big || a.g.empty_gen) discard(); nrows += a.p->rows.size(); a.bells = bells; a.text = a.g.text(a.p);
    for (auto& c : a.g.cmds) { string nc = c.first + fmt("-%d", i); size_t at; while ((at = a.text.find("$(" + c.first + ")")) != string::npos) a.text.replace(at, c.first.size() + 3, "$(" + nc + ")"); proc::Child ch; ch.out = c.second; env.cmds[nc] = ch; }
    v.push_back(a); if (from_in) { in += (chance(1, 5) ? "  " : "") + a.text + (chance(1, 5) ? " \t" : "") + "\n"; if (chance(1, 6)) in += chance(1, 2) ? "\n" : "   \n"; } else r.args.push_back(a.text); }
  if (from_in && chance(1, 4) && !in.empty()) in.pop_back();
  if (v.empty() && !from_in) discard(); Env& e = env; set_shell(e); proc_reads(); file_reads(); r.in.data = in; r.in.mode = choose(4); nontrivial(); ran_ok(r); tidy();
  int upto = v.size(); if (bad >= 0 && !from_in) upto = bad;
  SIM_CHECK(r.code == (bad >= 0 && !from_in ? 1 : 0), "many.status", "%s < %s: exit status %d (%s)", show_args(r).c_str(), quote(in).c_str(), r.code, quote(r.err).c_str());
  if (bad >= 0 && wrong_t != "") SIM_CHECK(!r.err.empty(), "many.silent", "nothing said about %s", quote(wrong_t).c_str()); if (bad < 0) SIM_CHECK(r.err.empty(), "many.noise", "%s < %s: %s", show_args(r).c_str(), quote(in).c_str(), quote(r.err).c_str());
  vector<string> got = lines(r.out), want; std::set<string> ws; bool dup = false; for (int i = 0; i < upto; ++i) { finish(v[i], want); if (plurals(v[i].p) > 1) dup = true; }
  if (!bells) { for (auto& s : got) s = nrm(s); for (auto& s : want) s = nrm(s); }
  std::set<string> gs(got.begin(), got.end()); ws.insert(want.begin(), want.end()); 
  SIM_CHECK(gs == ws, "many.rows", "%s < %s: %zu distinct rows printed, %zu expected", show_args(r).c_str(), quote(in).c_str(), gs.size(), ws.size());
  if (!dup && bad < 0) { // one expression's rows after another's
    size_t at = 0; for (auto& a : v) { vector<string> w; finish(a, w); if (!bells) for (auto& s : w) s = nrm(s); vector<string> g2(got.begin() + std::min(at, got.size()), got.begin() + std::min(at + w.size(), got.size())); at += w.size(); std::sort(w.begin(), w.end()); std::sort(g2.begin(), g2.end()); SIM_CHECK(w == g2, "many.order", "%s < %s: rows of %s out of place", show_args(r).c_str(), quote(in).c_str(), quote(a.text).c_str()); } }
}
// A source that fails, an output that fails, a child that cannot be started, memory that runs out: never a shorter answer that looks whole.
SCENARIO(row_faults, "P15", 5) {
  fresh(); Ask a; if (!make(a, range(0, 2))) discard(); setup(a); proc_reads(); file_reads();
  vector<string> want; if (!finish(a, want)) discard(); AppRun r; r.args = {"rowcalc"}; add_opts(r, a); bool cnt = chance(1, 4); if (cnt) r.args.push_back("-c"); r.args.push_back(a.text); r.in.data = a.g.in; r.in.mode = choose(4); AppRun clean = r; { auto pl = proc::plan; auto io_ = io::policy; ran_ok(clean); proc::plan = pl; io::policy = io_; SIM_CHECK(clean.code == 0, "fault.refused", "%s: exit status %d (%s)", show_args(clean).c_str(), clean.code, quote(clean.err).c_str()); }
  unsigned w = choose(7); if (w == 0 && a.g.stream_paths.empty()) w = 3; if (w == 1 && !a.g.in_used) w = 3; if ((w == 2 || w == 5) && a.g.cmds.empty()) w = 4;
  switch (w) {
    case 0: { string f = a.g.stream_paths[choose(a.g.stream_paths.size())]; io::file_policy[f].eio_after = choose(io::get(f).size() + 1); break; }
    case 1: r.in.fail_at = choose(r.in.data.size() + 1); break;
    case 2: { size_t m = 0; for (auto& c : a.g.cmds) m = std::max(m, c.second.size()); proc::plan.eio_after = choose(m + 1); break; }
    case 3: r.out_fail_at = choose(clean.out.size() + 1); break;
    case 4: r.alloc_fail = 1 + choose(chance(1, 2) ? 60 : 600); if (chance(1, 3)) r.alloc_k = 1 + choose(4); break;
    case 5: if (chance(1, 2)) proc::plan.fail_pipe = 1 + choose(2); else proc::plan.fail_fork = 1 + choose(2); break;
    case 6: r.out_fail_sync = 1; break;
  }
  nontrivial(); int sp0 = R->faults[F_PIPE_FAIL] + R->faults[F_SPAWN_FAIL]; long rf0 = io::read_calls_failed; run_app(r, app_main);
  bool hurt = io::read_calls_failed > rf0 || r.in_failed || proc::eio || r.out_failed || (int)(R->faults[F_PIPE_FAIL] + R->faults[F_SPAWN_FAIL]) > sp0;
  if (!r.aborted && !r.alloc_fired) tidy();
  if (!r.threw.empty() || r.aborted) { SIM_CHECK(r.alloc_fired, "fault.escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); return; }
  if (r.code == 0) { if (r.out_failed) violation("fault.output", "%s: exit status 0 though the output could not be written", show_args(r).c_str()); SIM_CHECK(r.out == clean.out, hurt ? "fault.silent" : "fault.changed", "%s: exit status 0, but output %s; without the failure %s", show_args(r).c_str(), quote(r.out).c_str(), quote(clean.out).c_str()); if (hurt) probe("row.fault_harmless"); }
  else { SIM_CHECK(hurt || r.alloc_fired, "fault.spurious", "%s: exit status %d (%s) though nothing failed", show_args(r).c_str(), r.code, quote(r.err).c_str()); if (!r.alloc_fired) SIM_CHECK(!r.err.empty(), "fault.mute", "%s: exit status %d and not a word", show_args(r).c_str(), r.code); probe("row.fault_reported"); }
}
// Whatever the text, an answer or a complaint.
SCENARIO(row_garble, "P15", 3) {
  fresh(); Ask a; if (!make(a, range(0, 3))) discard(); setup(a); for (auto& c : env.cmds) c.second.exit = 0; string t = a.text; int k = range(1, 3);
  for (int i = 0; i < k; ++i) { static const char alpha[] = "1234567890ETXx()<>{}*/\\^-+,$ \t;:=?"; size_t at = choose(t.size() + 1); unsigned w = choose(4); if (w == 0 && !t.empty()) t.erase(std::min(at, t.size() - 1), 1 + choose(3)); else if (w == 1) t.insert(at, 1, alpha[choose(sizeof alpha - 1)]); else if (w == 2 && !t.empty()) t[std::min(at, t.size() - 1)] = alpha[choose(sizeof alpha - 1)]; else if (!t.empty()) { size_t b = choose(t.size()); t += t.substr(b, 6); } }
  proc::handler = [](vector<string> const& av) { proc::Child c; auto i = env.cmds.find(av[2]); if (i != env.cmds.end()) c = i->second; else c.exit = 127; return c; };
  bool in = chance(1, 3); AppRun r; r.args = {"rowcalc"}; add_opts(r, a); if (chance(1, 5)) r.args.push_back("-c"); if (in) r.in.data = t + "\n"; else { r.args.push_back("--"); r.args.push_back(t); r.in.data = a.g.in; } nontrivial();
  size_t b = 0; for (char c : t) if (isdigit((unsigned char)c)) ++b; ran_ok(r); tidy();
  SIM_CHECK(r.code == 0 || r.code == 1, "garble.status", "%s: exit status %d", show_args(r).c_str(), r.code);
  if (r.code) { SIM_CHECK(!r.err.empty(), "garble.mute", "%s: exit status %d and not a word", show_args(r).c_str(), r.code); probe("row.rejected"); } else probe("row.accepted");
}
