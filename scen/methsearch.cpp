// P10: the method search program finds every method that fits its options, each once, and nothing else.
// P11: the same when a search is cut short, resumed, run out of order, or its input, output or clock misbehaves.
#include "methask.h"

SCENARIO(meth_search, "P10", 4) {
  Ask a = gen_ask(); vector<Method> found, open;
  { Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); if (found.size() > 3000) discard(); }
  if (chance(1, 2)) { gen_positions(a, found); Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); }
  vector<string> want = texts(found, a.n), free = texts(open, a.n);
  vector<string> args = a.args; bool count = chance(1, 3), raw = chance(1, 6), quiet = chance(1, 10); int fmt = choose(3);
  if (count) args.push_back(chance(1, 2) ? "-C" : "--count"); if (raw) args.push_back("--raw-count"); if (quiet) { args.push_back("-q"); if (!count && !raw) { args.push_back("-C"); count = true; } }
  else if (fmt == 1) args.push_back("-R$p\\t$l"); 
  if (chance(1, 8)) { args.push_back("--random"); if (chance(1, 2)) args.push_back("--seed=" + std::to_string(choose(1000))); }
  state(mix(mix(hash(string(a.s ? "s" : "") + (a.k ? "k" : "") + (a.d ? "d" : "") + a.F + a.cls), a.n * 100 + a.hunts * 10 + a.dodges), found.size()));
  AppRun r = session(args);
  SIM_CHECK(r.threw.empty(), "search.threw", "ended by an exception: %s (%s)", r.threw.c_str(), show_args(r).c_str());
  if (found.empty() && open.empty() && r.code == 1) { SIM_CHECK(!r.err.empty() && r.out.empty(), "search.silent", "failed without a word (%s)", show_args(r).c_str()); return; }
  SIM_CHECK(r.code == 0, "search.refused", "exit status %d though %zu methods fit (%s; stderr \"%s\")", r.code, found.size(), show_args(r).c_str(), quote(r.err).c_str());
  if (found.size() > 0) nontrivial(); if (found.size() > 20) probe("many");
  vector<string> got = lines_of(r.out);
  string last; if (count || raw) { SIM_CHECK(!got.empty(), "search.count", "no count (%s)", show_args(r).c_str()); last = got.back(); got.pop_back(); if (!quiet && !got.empty()) { SIM_CHECK(got.back().empty(), "search.count", "no blank line before the count (%s)", show_args(r).c_str()); got.pop_back(); } }
  if (quiet) SIM_CHECK(got.empty(), "search.quiet", "told to be quiet, but printed \"%s\"", quote(r.out).c_str());
  else check_same(got, want, free, r, "search");
  if (count || raw) {
    bool ok = false; for (size_t k = found.size(); k <= found.size() + open.size(); ++k) if (last == (raw ? std::to_string(k) : "Found " + std::to_string(k) + " methods") && (quiet || k == got.size())) ok = true;
    SIM_CHECK(ok, "search.count", "%zu methods fit, the count says \"%s\" after %zu lines (%s)", found.size(), last.c_str(), got.size(), show_args(r).c_str());
  }
}

// Filter mode: of the methods on standard input exactly those that fit (or exactly the others) are passed on, in order, with their payloads.
SCENARIO(meth_filter, "P10", 3) {
  Ask a = gen_ask(); vector<Method> found, open;
  { Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); if (found.size() > 3000) discard(); }
  if (chance(1, 4)) { gen_positions(a, found); Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); }
  vector<string> args = a.args; bool invert = chance(1, 3); args.push_back(chance(1, 2) ? "-I" : "--filter"); if (invert) args.push_back("--invert-filter");
  bool count = chance(1, 3), lib = false; if (count) args.push_back("-C");
  bool simple = a.front == 0 && a.back == a.n - 1 && a.hunts == 1 && !a.use_changes && !a.has_mask && a.prefix.empty(); bool nob = simple && !found.empty() && chance(1, 4);
  if (nob) for (size_t i = 0; i < args.size(); ++i) { if (args[i].compare(0, 2, "-b") == 0) { args.erase(args.begin() + i, args.begin() + i + (args[i] == "-b" ? 2 : 1)); break; } if (args[i].compare(0, 7, "--bells") == 0) { args.erase(args.begin() + i); break; } }
  AppRun r; vector<Line> ls; int k = choose(12); for (int i = 0; i < k; ++i) ls.push_back(gen_line(a, found, open, true, nob)); if (nob && chance(1, 3)) { Line l; l.text = "1.2.3 nobells"; ls.push_back(l); }
  if (nob) for (auto& l : ls) if (l.text.find(" other") != string::npos && l.text.find(':') == 1) l.text = "";   // it would be judged by the same options
  string text; if (chance(1, 8)) text = "\xEF\xBB\xBF"; bool any_free = false; for (size_t i = 0; i < ls.size(); ++i) { text += ls[i].text; if (i + 1 < ls.size() || chance(3, 4)) text += '\n'; }
  r.in.data = text; r.in.mode = choose(4); r.args = args; r.args.insert(r.args.begin(), "methsearch"); op("%s", show_args(r).c_str()); op("stdin %s", quote(text, 600).c_str()); run_app(r, app_main);
  SIM_CHECK(r.threw.empty(), "filter.threw", "ended by an exception: %s (%s)", r.threw.c_str(), show_args(r).c_str());
  if (found.empty() && r.code == 1) { SIM_CHECK(!r.err.empty() && r.out.empty(), "filter.silent", "failed without a word (%s)", show_args(r).c_str()); return; }
  SIM_CHECK(r.code == 0, "filter.refused", "exit status %d (%s; stderr \"%s\")", r.code, show_args(r).c_str(), quote(r.err).c_str());
  vector<string> got = lines_of(r.out); string cl; if (count) { SIM_CHECK(!got.empty(), "filter.count", "no count"); cl = got.back(); got.pop_back(); if (!got.empty()) { SIM_CHECK(got.back().empty(), "filter.count", "no blank line before the count"); got.pop_back(); } }
  size_t g = 0, n = 0; bool bad = false;
  for (auto& l : ls) {
    if (!l.is_meth) { if (l.free) bad = true; continue; }
    bool must = l.want != invert && !l.free; bool here = g < got.size() && got[g] == l.shown;
    if (must) { SIM_CHECK(here, invert ? "filter.invert.lost" : "filter.lost", "\"%s\" belongs in the output, where there is \"%s\" (%s; stdin %s)", quote(l.shown).c_str(), g < got.size() ? quote(got[g]).c_str() : "(its end)", show_args(r).c_str(), quote(text, 300).c_str()); ++g; ++n; }
    else if (l.free && here) { ++g; ++n; }
  }
  SIM_CHECK(g == got.size(), invert ? "filter.invert.extra" : "filter.extra", "\"%s\" should not be in the output (%s; stdin %s)", g < got.size() ? quote(got[g]).c_str() : "", show_args(r).c_str(), quote(text, 300).c_str());
  if (count) SIM_CHECK(cl == "Found " + std::to_string(n) + " methods", "filter.count", "%zu passed on, the count says \"%s\"", n, cl.c_str());
  if (bad) SIM_CHECK(!r.err.empty(), "filter.badline", "a line that is no method was passed over without a word (%s)", quote(text, 300).c_str());
  if (n) nontrivial(); if (n > 3) probe("several");
}

// A search that was stopped is taken up again from the last method found: together they find what one search does.
SCENARIO(meth_resume, "P10", 3) {
  Ask a = gen_ask(); vector<Method> found, open;
  { Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); if (found.size() > 3000) discard(); }
  if (chance(1, 4)) { gen_positions(a, found); Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); }
  if (found.size() < 2) discard(); if (chance(3, 4) && found.size() > 60) discard();
  vector<string> want = texts(found, a.n), free = texts(open, a.n); size_t k = range(1, std::min<size_t>(found.size(), 12));
  vector<string> args = a.args; args.push_back("--limit=" + std::to_string(k)); AppRun r = session(args);
  SIM_CHECK(r.code == 0, "resume.first", "exit status %d, threw %s (%s; stderr \"%s\")", r.code, r.threw.c_str(), show_args(r).c_str(), quote(r.err).c_str());
  vector<string> got = lines_of(r.out); SIM_CHECK(got.size() == k, "limit", "%zu methods listed with --limit=%zu, though %zu fit (%s)", got.size(), k, found.size(), show_args(r).c_str());
  string last = got.back().substr(0, got.back().find('\t')); args = a.args; args.push_back("--start-at=" + last); AppRun r2 = session(args);
  SIM_CHECK(r2.code == 0, "resume.second", "exit status %d, threw %s (%s; stderr \"%s\")", r2.code, r2.threw.c_str(), show_args(r2).c_str(), quote(r2.err).c_str());
  vector<string> rest = lines_of(r2.out); SIM_CHECK(!rest.empty() && rest[0] == got.back(), "resume.start", "taken up again at %s it starts with %s (%s)", got.back().c_str(), rest.empty() ? "nothing" : rest[0].c_str(), show_args(r2).c_str());
  got.insert(got.end(), rest.begin() + 1, rest.end()); nontrivial(); check_same(got, want, free, r2, "resume");
}

// Random order, limits and loops: everything listed fits, nothing twice but in a loop, and as many as asked for.
SCENARIO(meth_random, "P10", 2) {
  Ask a = gen_ask(); vector<Method> found, open;
  { Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); if (found.size() > 3000 || found.empty()) discard(); }
  vector<string> want = texts(found, a.n), free = texts(open, a.n); vector<string> args = a.args; args.push_back("--random"); if (chance(1, 2)) args.push_back("--seed=" + std::to_string(choose(1000)));
  int kind = choose(3); size_t k = range(1, 8), expect; if (kind == 0) { args.push_back("--limit=" + std::to_string(k)); expect = std::min(k, found.size()); } else if (kind == 1) { args.push_back("--loop=" + std::to_string(k)); expect = k; } else { args.push_back("--loop"); args.push_back("--limit=" + std::to_string(k)); expect = k; }
  bool count = chance(1, 3); if (count) args.push_back("--raw-count"); AppRun r = session(args);
  SIM_CHECK(r.threw.empty() && r.code == 0, "random.refused", "exit status %d, threw %s (%s; stderr \"%s\")", r.code, r.threw.c_str(), show_args(r).c_str(), quote(r.err).c_str());
  vector<string> got = lines_of(r.out); if (count) { SIM_CHECK(got.size() >= 2 && got.back() == std::to_string(got.size() - 2), "random.count", "%zu lines, the last is \"%s\" (%s)", got.size(), got.empty() ? "" : got.back().c_str(), show_args(r).c_str()); got.pop_back(); got.pop_back(); }
  SIM_CHECK(kind == 0 ? got.size() >= expect && got.size() <= k : got.size() == expect, "random.number", "%zu methods listed, %zu asked for, %zu fit (%s)", got.size(), k, found.size(), show_args(r).c_str());
  std::set<string> in(want.begin(), want.end()), fr(free.begin(), free.end()), seen; for (auto& g : got) { SIM_CHECK(in.count(g) || fr.count(g), "random.extra", "%s was listed but does not fit (%s)", g.c_str(), show_args(r).c_str()); if (kind == 0) SIM_CHECK(seen.insert(g).second, "random.twice", "%s was listed twice (%s)", g.c_str(), show_args(r).c_str()); }
  nontrivial();
}

// A clock the run decides: it creeps, leaps, stands still, and now and then is put back.
namespace {
vector<long> ticks; int clock_style; bool clock_frozen;
int tick_clock() {
  if (!clock_frozen) switch (clock_style) { case 0: sim::clock_us += 1000 * choose(50); break; case 1: sim::clock_us += 1000000ull * choose(3); break; case 2: if (chance(1, 12)) { sim::clock_us += 1000000ull * range(5, 4000); fault(F_CLOCK_JUMP, "forward"); } break; default: if (chance(1, 6)) { uint64_t back = 1000000ull * range(1, 300); sim::clock_us -= std::min<uint64_t>(back, sim::clock_us / 2); fault(F_CLOCK_JUMP, "back"); } else sim::clock_us += 1000000ull * choose(4); }
  ticks.push_back(sim::clock_us / 1000000); return 0;
}
}
SCENARIO(meth_clock, "P11", 3) {
  Ask a = gen_ask(); vector<Method> found, open;
  { Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); if (found.size() > 2000 || found.empty()) discard(); }
  vector<string> want = texts(found, a.n), free = texts(open, a.n);
  int N = pick(vector<int>{ 1, 2, 5, 30 }), F = pick(vector<int>{ 1, 2, 3, 7, 20, 50 }); bool loop = chance(1, 4); clock_style = choose(4); clock_frozen = false;
  vector<string> args = a.args; args.push_back("--timeout=" + std::to_string(N)); args.push_back("--status-freq=" + std::to_string(F)); args.push_back("--seed=" + std::to_string(range(1, 99))); if (chance(1, 4)) args.push_back(chance(1, 2) ? "-u" : "--status"); args.push_back("-C"); args.push_back("--node-count");
  if (!loop) {
    vector<string> full; { vector<string> w = a.args; AppRun r = session(w); SIM_CHECK(r.code == 0, "clock.full", "exit status %d (%s)", r.code, quote(r.err).c_str()); full = lines_of(r.out); check_same(full, want, free, r, "clock.full"); }
    ticks.clear(); clk::hook = tick_clock; AppRun r = session(args); clk::hook = nullptr;
    SIM_CHECK(r.threw.empty() && r.code == 0, "clock.refused", "exit status %d, threw %s (%s; stderr \"%s\")", r.code, r.threw.c_str(), show_args(r).c_str(), quote(r.err).c_str());
    vector<string> got = lines_of(r.out); long nodes = -1, n = -1; SIM_CHECK(got.size() >= 2, "clock.counts", "no counts (%s)", quote(r.out, 300).c_str());
    if (sscanf(got.back().c_str(), "Searched %ld nodes", &nodes) != 1 && sscanf(got.back().c_str(), "%*[^0-9]%ld", &nodes) != 1) violation("clock.counts", "no node count: \"%s\"", got.back().c_str()); got.pop_back();
    SIM_CHECK(sscanf(got.back().c_str(), "Found %ld methods", &n) == 1, "clock.counts", "no method count: \"%s\"", got.back().c_str()); got.pop_back(); if (!got.empty() && got.back().empty()) got.pop_back();
    size_t over = 0; for (size_t i = 1; i < ticks.size() && !over; ++i) if (ticks[i] - ticks[0] > N) over = i;
    SIM_CHECK(n == (long)got.size(), "clock.counts", "%zu methods listed, the count says %ld (%s)", got.size(), n, show_args(r).c_str());
    if (over) { probe("timed out"); nontrivial(); SIM_CHECK(over == ticks.size() - 1, "clock.late", "%ld seconds had passed at check %zu of %zu, but the search went on (%s)", ticks[over] - ticks[0], over, ticks.size() - 1, show_args(r).c_str());
      SIM_CHECK(got.size() <= full.size() && std::equal(got.begin(), got.end(), full.begin()), "clock.prefix", "what a search that was stopped listed is not a beginning of what it lists when it is not (%s)", show_args(r).c_str()); }
    else { if (ticks.size() > 2) nontrivial(); SIM_CHECK(got == full, "clock.short", "%zu methods listed of %zu though the time never ran out (%s)", got.size(), full.size(), show_args(r).c_str()); }
    SIM_CHECK(ticks.empty() || nodes <= (long)(ticks.size() - 1) * F, "clock.checks", "%ld nodes searched with %zu looks at the clock, one is due every %d (%s)", nodes, ticks.size() - 1, F, show_args(r).c_str());
  } else {
    int k = range(1, 5); bool endless = chance(1, 2); args.push_back("--random"); args.push_back(endless ? "--loop" : "--loop=" + std::to_string(k)); if (endless) args.push_back("--limit=" + std::to_string(k));
    ticks.clear(); int budget = 400; std::function<void()> stop; clk::hook = +[]() -> int { if (ticks.size() > 400) clock_frozen = true; return tick_clock(); };
    AppRun r = session(args); clk::hook = nullptr; (void)budget;
    SIM_CHECK(r.threw.empty() && r.code == 0, "clock.refused", "exit status %d, threw %s (%s; stderr \"%s\")", r.code, r.threw.c_str(), show_args(r).c_str(), quote(r.err).c_str());
    vector<string> got = lines_of(r.out); SIM_CHECK(got.size() >= 2, "clock.counts", "no counts (%s)", quote(r.out, 300).c_str()); got.pop_back(); got.pop_back(); if (!got.empty() && got.back().empty()) got.pop_back();
    std::set<string> in(want.begin(), want.end()); in.insert(free.begin(), free.end()); for (auto& g : got) SIM_CHECK(in.count(g), "clock.loop.extra", "%s was listed but does not fit (%s)", g.c_str(), show_args(r).c_str());
    SIM_CHECK(endless ? (int)got.size() == k : (int)got.size() <= k, "clock.loop.number", "%zu methods listed, %d asked for (%s)", got.size(), k, show_args(r).c_str()); bool any = false; for (size_t i = 1; i < ticks.size(); ++i) for (size_t j = 0; j < i; ++j) if (ticks[i] - ticks[j] > N) any = true;
    if (!any && !endless) SIM_CHECK((int)got.size() == k, "clock.loop.number", "%zu methods listed, %d asked for, and the time never ran out (%s)", got.size(), k, show_args(r).c_str());
    nontrivial();
  }
}

// Faults below the program: a broken standard input in filter mode, an output that fails, no memory.
SCENARIO(meth_fault, "P11", 4) {
  Ask a = gen_ask(); vector<Method> found, open;
  { Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); if (found.size() > 400 || found.empty()) discard(); }
  bool filter = chance(1, 2); vector<string> args = a.args; string text;
  bool nob = filter && a.front == 0 && a.back == a.n - 1 && a.hunts == 1 && !a.use_changes && chance(1, 3); if (nob) for (size_t i = 0; i < args.size(); ++i) { if (args[i].compare(0, 2, "-b") == 0) { args.erase(args.begin() + i, args.begin() + i + (args[i] == "-b" ? 2 : 1)); break; } if (args[i].compare(0, 7, "--bells") == 0) { args.erase(args.begin() + i); break; } }
  if (filter) { args.push_back("-I"); vector<Line> ls; int k = range(1, 8); for (int i = 0; i < k; ++i) ls.push_back(gen_line(a, found, open, true, nob)); for (auto& l : ls) text += l.text + "\n"; }
  if (chance(1, 4)) args.push_back("-C");
  auto go = [&](std::function<void(AppRun&)> f) { AppRun r; r.args = args; r.args.insert(r.args.begin(), "methsearch"); r.in.data = text; r.in.mode = choose(4); f(r); op("%s", show_args(r).c_str()); if (filter) op("stdin %s", quote(text, 500).c_str()); run_app(r, app_main); return r; };
  AppRun ok = go([](AppRun&) {}); SIM_CHECK(ok.threw.empty() && ok.code == 0, "fault.plain", "exit status %d, threw %s (%s; stderr \"%s\")", ok.code, ok.threw.c_str(), show_args(ok).c_str(), quote(ok.err).c_str());
  int kind = choose(4); if (kind == 0 && !filter) kind = 3; auto starts = [](string const& whole, string const& part) { return whole.compare(0, part.size(), part) == 0; };
  if (kind == 0) { // a read error
    AppRun r = go([&](AppRun& r) { r.in.fail_at = choose(text.size() + 1); });
    if (!r.in_failed) return; nontrivial(); probe("read error"); SIM_CHECK(r.threw.empty() && r.code != 0 && !r.err.empty(), "fault.read.silent", "the methods to filter could not be read, and the exit status was %d, stderr \"%s\"%s%s (%s)", r.code, quote(r.err).c_str(), r.threw.empty() ? "" : ", threw ", r.threw.c_str(), show_args(r).c_str());
    string o = r.out; if (args.back() == "-C") return; SIM_CHECK(starts(ok.out, o), "fault.read.prefix", "after a read error \"%s\" was passed on, without it \"%s\" is", quote(o).c_str(), quote(ok.out).c_str());
  } else if (kind == 1) { // a file to write to
    string f = "/sim/out.txt"; args.push_back(chance(1, 2) ? "-o" + f : "--out-file=" + f); int w = choose(6); string body = ok.out, counts; if (std::find(args.begin(), args.end(), "-C") != args.end()) { size_t p = ok.out.rfind("Found "); counts = ok.out.substr(p); body = p ? ok.out.substr(0, p - 1) : ""; if (!body.empty()) counts = "\n" + counts; }
    if (w == 0) io::put(f, "older text that is longer than nothing at all\n");
    if (w == 1) { io::put(f, "x"); io::file(f)->unwritable = true; fault(F_OPEN_FAIL, "no permission"); } else if (w == 2) { io::file_policy[f].disk_free = choose(body.size() + 2); } else if (w == 3) { io::file_policy[f].weio_after = choose(body.size() + 2); } else if (w == 4) { io::file_policy[f].close_errno = pick(vector<int>{ EIO, ENOSPC, EDQUOT }); } else if (w == 5) io::file_policy[f].write_mode = range(1, 3);
    AppRun r = go([](AppRun&) {}); string got = io::exists(f) ? io::get(f) : ""; if (w == 1) got = "";
    if (r.code == 0 && r.threw.empty()) { SIM_CHECK(got == body, "fault.file.silent", "exit status 0, but the file holds \"%s\" instead of \"%s\" (%s)", quote(got, 200).c_str(), quote(body, 200).c_str(), show_args(r).c_str()); SIM_CHECK(w != 1 , "fault.file.silent", "exit status 0, but the file could not be opened"); SIM_CHECK(w != 4 || body.empty(), "fault.file.close", "exit status 0, though closing the file failed (%s)", show_args(r).c_str()); SIM_CHECK(r.out == counts, "fault.file.stdout", "standard output is \"%s\", not \"%s\"", quote(r.out).c_str(), quote(counts).c_str()); }
    else { SIM_CHECK(r.threw.empty(), "fault.file.threw", "ended by an exception: %s", r.threw.c_str()); SIM_CHECK(w != 0 && w != 5, "fault.file.refused", "exit status %d though nothing failed (%s)", r.code, quote(r.err).c_str()); SIM_CHECK(!r.err.empty(), "fault.file.wordless", "exit status %d without a word", r.code); SIM_CHECK(starts(body, got), "fault.file.prefix", "the file holds \"%s\", which is no beginning of \"%s\"", quote(got).c_str(), quote(body).c_str()); }
    if (!body.empty()) nontrivial();
  } else if (kind == 2) { // standard output
    AppRun r = go([&](AppRun& r) { r.out_fail_at = choose(ok.out.size() + 1); r.out_fail_sync = choose(2); }); if (!r.out_failed) { SIM_CHECK(r.code == 0 && r.out == ok.out, "fault.out.changed", "nothing failed, but the output differs"); return; }
    nontrivial(); probe("output error"); SIM_CHECK(starts(ok.out, r.out), "fault.out.prefix", "\"%s\" was written, which is no beginning of \"%s\"", quote(r.out).c_str(), quote(ok.out).c_str());
    SIM_CHECK(r.code != 0, "fault.out.silent", "standard output failed after %zu of %zu bytes, but the exit status is 0 (%s)", r.out.size(), ok.out.size(), show_args(r).c_str());
  } else { // no memory
    AppRun r = go([&](AppRun& r) { r.alloc_fail = range(1, chance(1, 2) ? 300 : 3000); r.alloc_k = chance(1, 4) ? 1000000 : 1; });
    if (!r.alloc_fired) return; nontrivial(); probe("no memory");
    if (r.code == 0 && r.threw.empty() && !r.aborted) SIM_CHECK(r.out == ok.out, "fault.memory.silent", "memory ran out, the exit status is 0, but \"%s\" came out instead of \"%s\" (%s; stderr \"%s\")", quote(r.out, 300).c_str(), quote(ok.out, 300).c_str(), show_args(r).c_str(), quote(r.err).c_str());
    else SIM_CHECK(starts(ok.out, r.out), "fault.memory.wrong", "memory ran out, and \"%s\" came out, which is no beginning of \"%s\" (%s)", quote(r.out, 300).c_str(), quote(ok.out, 300).c_str(), show_args(r).c_str());
  }
}
