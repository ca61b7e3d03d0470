// methodlib: the methods of libraries, by title or by property.
#include "libgen.h"
#include "simapp.h"
#include <ringing/method.h>
#include <cstdlib>
int app_main(int, char**);
static int entry(int c, char** v) { return app_main(c, v); }
static void ran(AppRun& r) { run_app(r, entry); SIM_CHECK(r.threw.empty() || r.alloc_fired, "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted || r.alloc_fired, "abort", "%s aborted", show_args(r).c_str()); }
static void flag(AppRun& r, const char* s, const char* l) { r.args.push_back(chance(1, 2) ? fmt("-%s", s) : fmt("--%s", l)); }
static void val(AppRun& r, const char* s, const char* l, string const& v) { if (*s && !v.empty() && chance(1, 3)) r.args.push_back(fmt("-%s%s", s, v.c_str())); else if (*s && !v.empty() && v[0] != '-' && chance(1, 2)) { r.args.push_back(fmt("-%s", s)); r.args.push_back(v); } else r.args.push_back(fmt("--%s=%s", l, v.c_str())); }
namespace {
struct Item { int bells; Method m; string base, full; };
struct Line { int bells; Method m; string text; bool operator<(Line const& o) const { return std::tie(bells, m, text) < std::tie(o.bells, o.m, o.text); } bool operator==(Line const& o) const { return bells == o.bells && m == o.m && text == o.text; } };
struct Form { bool bells, full, pn, payload; };
// What is printed must be notation and text as asked for; notation may be written in any way that reads as the method.
vector<Line> read_back(AppRun& r, Form f, std::map<string, vector<Line>> const& by_text, int only_bells) {
  vector<Line> v; size_t i = 0; string const& s = r.out;
  while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) { if (r.code == 0) violation("lib.line", "%s: the last line is cut short", show_args(r).c_str()); break; } string l = s.substr(i, j - i); i = j + 1; Line x; x.bells = only_bells;
    if (f.bells) { size_t c = l.find(':'); SIM_CHECK(c != string::npos && c, "lib.line", "%s: no number of bells in %s", show_args(r).c_str(), quote(l).c_str()); x.bells = atoi(l.c_str()); l.erase(0, c + 1); }
    size_t t = l.find('\t'); SIM_CHECK((t == string::npos) == f.pn, "lib.line", "%s: printed %s", show_args(r).c_str(), quote(l).c_str()); if (t != string::npos) { x.text = l.substr(t + 1); l.erase(t); }
    // without the number of bells, the notation is compared as written
    bool ok = false; for (auto& p : by_text) if (!ok && (f.pn || p.first == x.text)) for (auto& q : p.second) { if (x.bells && q.bells != x.bells) continue; ringing::method w = to(q.m, q.bells, ""); if (!x.bells) ok = w.format(ringing::method::M_SYMMETRY | ringing::method::M_DASH) == l; else try { ok = of(ringing::method(l, q.bells)) == q.m; } catch (std::exception&) {} if (ok) { x.m = q.m; if (!x.bells) { x.m.clear(); x.text += "\t" + l; } break; } }
    if (!ok && r.in_failed && i >= s.size()) break;   // a title cut short
    SIM_CHECK(ok, "lib.wrong", "%s: printed %s %s, no such method is in the libraries", show_args(r).c_str(), quote(l).c_str(), quote(x.text).c_str()); v.push_back(x); }
  return v;
}
}
SCENARIO(library_query, "P16", 4) {
  int nl = range(1, 3); vector<Lib> libs; for (int i = 0; i < nl; ++i) libs.push_back(choose(2) ? gen_ms(i) : gen_cc(i));
  if (nl > 1 && chance(1, 2)) { Lib& a = libs[0]; Lib& b = libs[1]; if (a.kind == MS && b.kind == MS) { b.data = a.data + (a.data.empty() || a.data.back() == '\n' ? "" : "\n") + b.data; vector<Truth> t = a.all; t.insert(t.end(), b.all.begin(), b.all.end()); b.all = t; } }   // the same methods twice
  AppRun r; r.args = {"methodlib"}; bool bad_lib = false, env_lib = false, path = chance(1, 3), disk = false; vector<size_t> order; vector<string> pos;
  for (int i = 0; i < nl; ++i) { Lib& L = libs[i]; if (L.all.empty()) discard(); string dir = path ? "/sim/libs/" : "/sim/", name = L.path.substr(5); io::put(dir + name, L.data); op("file %s %zu entries", name.c_str(), L.all.size()); pos.push_back(path && chance(2, 3) ? name : dir + name); order.push_back(i); }
  if (path) { setenv(chance(1, 2) ? "METHOD_LIBRARY_PATH" : "METHLIBPATH", chance(1, 2) ? "/sim/libs" : "/sim/none:/sim/libs:/sim", 1); }
  if (chance(1, 3)) { env_lib = true; setenv("METHOD_LIBRARY", pos.back().c_str(), 1); pos.pop_back(); }
  if (chance(1, 12)) { bad_lib = true; size_t at = choose(pos.size() + 1); pos.insert(pos.begin() + at, chance(1, 2) ? "/sim/absent" : "absent"); }
  if (nl == 1 && chance(1, 10)) { io::Policy p = io::policy; p.eio_after = choose(libs[0].data.size() + 1); io::file_policy[(path ? "/sim/libs/" : "/sim/") + libs[0].path.substr(5)] = p; disk = true; }
  // the first of each notation is kept
  vector<Item> all; std::set<std::pair<int, Method>> had; for (auto& L : libs) for (auto& t : L.all) { if (t.base == "?") discard(); if (!had.insert({ t.bells, t.m }).second) continue; Item x; x.bells = t.bells; x.m = t.m; x.base = t.base; { Quiet q; x.full = to(t.m, t.bells, t.base).fullname(); } all.push_back(x); }
  Form f{ chance(1, 3), false, false, false }; int fm = choose(4); f.full = fm == 1; f.pn = fm == 2; int bells = 0; size_t length = 0; if (chance(1, 4)) { bells = chance(3, 4) ? all[choose(all.size())].bells : range(2, 16); val(r, "b", "bells", fmt("%d", bells)); } if (chance(1, 5)) { length = chance(3, 4) ? all[choose(all.size())].m.size() : 1 + choose(30); val(r, "l", "length", fmt("%zu", length)); }
  if (f.bells) flag(r, "B", "print-bells"); if (f.full) flag(r, "f", "full-title"); if (f.pn) flag(r, "P", "pn-only");
  auto passes = [&](Item const& x) { return (!bells || x.bells == bells) && (!length || x.m.size() == length); };
  vector<Line> want; bool okay = true, ordered = false; string starts, data; int how = choose(4); vector<string> missing; std::map<string, vector<Line>> by_text; bool pay = false;
  auto text_of = [&](Item const& x) { return f.pn ? "" : f.full ? x.full : x.base; };
  if (how <= 1) {
    if (how) { string t = all[choose(all.size())].full; starts = chance(1, 6) ? "Qqq" : t.substr(0, 1 + choose(t.size())); val(r, "", "starts-with", starts); }
    okay = false; for (auto& x : all) if (x.full.compare(0, starts.size(), starts) == 0 && passes(x)) { want.push_back({ x.bells, x.m, text_of(x) }); okay = true; }
  } else {
    std::map<string, int> n; for (auto& x : all) if (++n[x.full] > 1) discard();
    ordered = true; bool stdin_titles = how == 3; f.payload = stdin_titles && !f.full && !f.pn && chance(1, 2); if (f.payload) flag(r, "a", "copy-payload");
    vector<string> suf = { "" }; string sufs; if (chance(1, 2)) { suf.clear(); int k = 1 + choose(3); for (int i = 0; i < k; ++i) { Item& x = all[choose(all.size())]; string s = x.full.size() > x.base.size() + 1 && x.full.compare(0, x.base.size() + 1, x.base + " ") == 0 ? x.full.substr(x.base.size() + 1) : "Bob Minor"; suf.push_back(chance(1, 4) ? "" : s); } for (size_t i = 0; i < suf.size(); ++i) sufs += (i ? ":" : "") + suf[i]; if (!sufs.empty()) val(r, "S", "method-suffixes", sufs); else suf = { "" }; }
    pay = f.payload || !sufs.empty(); if (stdin_titles) flag(r, "T", "read-titles"); int k = stdin_titles ? choose(6) : 1 + choose(4);
    for (int i = 0; i < k; ++i) {
      Item& x = all[choose(all.size())]; string t = chance(1, 10) ? "No Such Thing" : !sufs.empty() && chance(1, 2) ? x.base : x.full, payload = f.payload ? "" : t; if (t[0] == '-' || t.find('#') != string::npos || t.find('\t') != string::npos || isspace((unsigned char)t.back())) continue;
      if (stdin_titles) { if (chance(1, 8)) data += chance(1, 2) ? "\n" : "  # remark\n"; data += t; if (f.payload && chance(2, 3)) { payload = gen_name(2); if (chance(1, 4)) payload += "\tmore"; data += "\t" + payload; } if (chance(1, 8)) data += chance(1, 2) ? " # note" : "  "; data += chance(1, 8) ? "\r\n" : "\n"; } else val(r, "t", "title", t);
      Item* got = 0; for (auto& s : suf) { string w = s.empty() ? t : t + " " + s; for (auto& y : all) if (y.full == w) { got = &y; break; } if (got) break; }
      if (!got) { okay = false; missing.push_back(t); } else if (!passes(*got)) okay = false; else want.push_back({ got->bells, got->m, f.pn ? "" : f.full ? got->full : pay ? payload : got->base }); }
    if (!stdin_titles && want.empty() && missing.empty() && okay) discard();
    if (!data.empty() && chance(1, 5)) data.pop_back();
  }
  for (auto& l : want) by_text[l.text].push_back(l); if (!f.bells) { Quiet q; for (auto& l : want) { l.text += "\t" + to(l.m, l.bells, "").format(ringing::method::M_SYMMETRY | ringing::method::M_DASH); l.m.clear(); l.bells = 0; } }
  for (auto& p : pos) r.args.push_back(p); if (pos.empty() && !env_lib) discard();
  size_t est = 0; for (auto& l : want) est += l.m.size() + l.text.size() + 2; r.in.data = data; r.in.mode = choose(4); unsigned ft = choose(8); if (ft == 1) r.in.fail_at = choose(data.size() + 1); if (ft == 2) r.out_fail_at = choose(est + 1); if (ft == 3) r.out_fail_sync = 1; if (ft == 4) r.alloc_fail = 1 + choose(chance(1, 2) ? 200 : 4000);
  io::policy.read_mode = choose(4); if (chance(1, 4)) io::policy.eintr_pct = 20;
  if (want.size() > 1) nontrivial(); state(mix(hash(fmt("%d %d%d%d%d %d %d", how, f.bells, f.full, f.pn, pay, bad_lib, disk)), want.size()));
  ran(r); unsetenv("METHOD_LIBRARY"); unsetenv("METHOD_LIBRARY_PATH"); unsetenv("METHLIBPATH"); if (!r.threw.empty() || r.aborted) return;
  Quiet q; if (r.code == 0) { SIM_CHECK(!r.out_failed, "lib.output", "%s: exit status 0 though the output could not be written", show_args(r).c_str()); SIM_CHECK(!r.in_failed, "lib.input", "%s: exit status 0 though the titles could not be read", show_args(r).c_str()); SIM_CHECK(!bad_lib, "lib.absent", "%s: exit status 0 though a library is absent", show_args(r).c_str()); }
  if (r.alloc_fired) return; if (bad_lib) { SIM_CHECK(r.out.empty() && !r.err.empty(), "lib.absent", "%s: printed %s", show_args(r).c_str(), quote(r.out).c_str()); probe("library absent"); return; }
  vector<Line> got = read_back(r, f, by_text, 0); bool whole = !r.in_failed && !r.out_failed && !disk; vector<Line> a = got, b = want; if (!ordered) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
  if (whole) {
    SIM_CHECK(a == b, "lib.answer", "%s < %s: printed %zu methods %s, should be %zu", show_args(r).c_str(), quote(data).c_str(), a.size(), quote(r.out).c_str(), b.size());
    SIM_CHECK(r.code == (okay ? 0 : 1), "lib.status", "%s < %s: exit status %d, should be %d", show_args(r).c_str(), quote(data).c_str(), r.code, okay ? 0 : 1);
    string err = r.err; for (auto& t : missing) { size_t at = err.find("Method not found: " + t + "\n"); SIM_CHECK(at != string::npos, "lib.mute", "%s: %s is not said to be missing: %s", show_args(r).c_str(), quote(t).c_str(), quote(r.err).c_str()); err.erase(at, 19 + t.size()); } SIM_CHECK(err.empty(), "lib.said", "%s: said %s", show_args(r).c_str(), quote(err).c_str());
    probe(how == 0 ? "library listed" : how == 1 ? "library by start" : how == 2 ? "titles given" : "titles read"); if (pay) probe("payload copied");
  } else { if (ordered && !disk) SIM_CHECK(a.size() <= b.size() && std::equal(a.begin(), a.end() - (r.in_failed && !a.empty() ? 1 : 0), b.begin()), "lib.prefix", "%s < %s: printed %s", show_args(r).c_str(), quote(data).c_str(), quote(r.out).c_str()); SIM_CHECK(std::includes(b.begin(), b.end(), a.begin(), a.end()) || ordered, "lib.invented", "%s: printed %s", show_args(r).c_str(), quote(r.out).c_str()); if (r.in_failed || r.out_failed) SIM_CHECK(!r.err.empty(), "lib.silent", "%s: failed without a word", show_args(r).c_str()); probe("library cut short"); }
}
SCENARIO(library_bad, "P16", 1) {
  static const vector<vector<string>> bad = { {}, {"-b1", "@"}, {"-b34", "@"}, {"-b-4", "@"}, {"--bells=-1", "@"}, {"-tX", "-T", "@"}, {"-T", "--starts-with=X", "@"}, {"-a", "-f", "@"}, {"-f", "-P", "@"}, {"-bx", "@"}, {"--no-such", "@"}, {"/sim/absent"}, {"@", "/sim/absent"}, {"/sim/empty"}, {"/sim/junk"}, {"/sim/dir"} };
  Lib L = gen_ms(0); io::put("/sim/good", L.data); io::put("/sim/empty", ""); io::put("/sim/junk", "what is this\nnot a library\n"); io::put("/sim/dir", ""); io::file("/sim/dir")->is_dir = true;
  AppRun r; r.args = {"methodlib"}; for (auto& a : bad[choose(bad.size())]) r.args.push_back(a == "@" ? "/sim/good" : a); nontrivial(); ran(r);
  SIM_CHECK(r.code == 1 && r.out.empty() && !r.err.empty(), "lib.bad", "%s: exit status %d, %s, %s", show_args(r).c_str(), r.code, quote(r.out).c_str(), quote(r.err).c_str());
}
SCENARIO(library_odd, "P16", 1) {   // title options that say little still may not crash
  Lib L = gen_ms(0); if (L.all.empty()) discard(); io::put("/sim/good", L.data); Truth& t = L.all[choose(L.all.size())]; string full; { Quiet q; full = to(t.m, t.bells, t.base).fullname(); }
  AppRun r; r.args = {"methodlib", "-a"}; if (chance(1, 3)) r.args.push_back("-SBob Minor:"); int k = 1 + choose(3); if (chance(3, 4)) for (int i = 0; i < k; ++i) r.args.push_back("-t" + (chance(3, 4) ? full : "Nothing")); r.args.push_back("/sim/good"); nontrivial(); ran(r); SIM_CHECK(r.code == 0 || r.code == 1, "lib.odd", "%s: exit status %d", show_args(r).c_str(), r.code);
}
