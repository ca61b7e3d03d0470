// P08: touch searches against exhaustive proof of every row, interleaved, cancelled, failing.
#include "touchmodel.h"
#include "fiber.h"
#include <ringing/basic_search.h>
#include <ringing/touch.h>
#include <ringing/extent.h>
#include <memory>
using namespace ref; using namespace sim;
using ringing::search_base; using ringing::table_search; using ringing::touch;

namespace {
struct Stop {};
std::unique_ptr<search_base> make(Spec const& s) {
  Method m = s.lead; m.push_back(s.le); ringing::method M = to(m, s.n, "M"); vector<ringing::change> cs; for (auto& c : s.calls) cs.push_back(to(c)); auto rg = std::make_pair(s.lo, s.hi);
  if (s.basic) { if (s.range) return std::make_unique<ringing::basic_search>(M, cs, rg, s.rot); return std::make_unique<ringing::basic_search>(M, cs, s.rot); }
  auto f = table_search::flags(s.flags); if (s.flags & table_search::length_in_changes) rg = std::make_pair(s.clo, s.chi);
  if (s.parts.size() == 1 && !(s.flags & ~table_search::ignore_rotations) && choose(3) == 0) { probe("older constructor"); if (s.range) return std::make_unique<table_search>(M, cs, rg, s.rot); return std::make_unique<table_search>(M, cs, s.rot); }
  ringing::group g = s.parts.size() > 1 ? ringing::group(to(s.parts[1])) : ringing::group::trivial(s.n);
  if (s.range) return std::make_unique<table_search>(M, cs, g, rg, f); return std::make_unique<table_search>(M, cs, g, f);
}
struct Rec : search_base::outputer {
  Spec const& s; vector<vector<Change>> got; vector<touch> kept; size_t stop = size_t(-1), fail = size_t(-1); Fibers* fb = 0; std::function<void()> inside;
  Rec(Spec const& s) : s(s) {}
  bool operator()(touch const& t) override {
    { Quiet q; vector<Change> v; for (auto i = t.begin(), e = t.end(); i != e; ++i) { v.push_back(of(*i)); if (v.size() > 2000) violation("touch.endless", "a touch never ends"); } got.push_back(v); if (kept.size() < 40) kept.push_back(t); }
    if (fb && choose(2)) fb->yield();
    if (inside && got.size() == 1) inside();
    if (got.size() == fail) throw Stop();
    return got.size() >= stop;
  }
};
void check(Spec const& s, vector<vector<Change>> const& got, std::set<Calls> const& want, const char* w, bool partial) {
  Quiet q; std::map<vector<Change>, Calls> idx; for (auto& c : want) idx[s.changes(c)] = c; std::set<Calls> seen, cls;
  for (auto& g : got) { auto i = idx.find(g); if (i == idx.end()) violation("search.wrong", "%s: found a touch of %zu changes that is no true touch of the plan", w, g.size()); SIM_CHECK(seen.insert(i->second).second, "search.twice", "%s: touch %s found twice", w, [&] { static string z; z.clear(); for (int k : i->second) z += char('0' + k); return z.c_str(); }()); if (s.rot && s.parts.size() == 1) SIM_CHECK(cls.insert(least(i->second)).second, "search.rotation", "%s: two rotations of one touch found", w); }
  if (partial) return;
  for (auto& c : want) { bool have = s.rot && s.parts.size() == 1 ? cls.count(least(c)) : seen.count(c); string z; for (int k : c) z += char('0' + k); SIM_CHECK(have, "search.missed", "%s: true touch %s not found (%zu found)", w, z.c_str(), got.size()); }
}
}

SCENARIO(touch_search, "P08", 1) {
  size_t k = 1 + choose(3); vector<Spec> ss; vector<std::set<Calls>> want;
  for (size_t i = 0; i < k; ++i) { if (i && choose(2)) { ss.push_back(ss[0]); want.push_back(want[0]); continue; } Spec s = gen(); string cs; for (auto& c : s.calls) cs += c.pn() + " "; op("plan %s le %s calls %s%s parts=%zu range %zu-%zd rot=%d flags=%d", text(s.lead).c_str(), s.le.pn().c_str(), cs.c_str(), s.basic ? "basic" : "table", s.parts.size(), s.lo, s.hi, s.rot, s.flags); Brute b(s); b.go(rounds(s.n)); ss.push_back(s); want.push_back(b.out); if (b.out.size() > 1) nontrivial(); state(mix(b.out.size(), mix(s.parts.size(), s.flags))); }
  std::unique_ptr<search_base> shared; bool share = choose(2); if (share) shared = make(ss[0]);
  Fibers fb; struct Task { std::unique_ptr<search_base> own; search_base* s; std::unique_ptr<Rec> r; bool stopped = false, failed = false; size_t spec; }; vector<Task> ts(k);
  for (size_t i = 0; i < k; ++i) {
    Task& t = ts[i]; t.spec = share ? 0 : i; t.r = std::make_unique<Rec>(ss[t.spec]); if (share) t.s = shared.get(); else { t.own = make(ss[i]); t.s = t.own.get(); }
    t.r->fb = &fb; size_t n = want[t.spec].size(); int w = choose(6); if (w == 1) t.r->stop = 1 + choose(n + 1); if (w == 2) t.r->fail = 1 + choose(n + 1);
    if (w == 3) t.r->inside = [&t] { op("the same search inside"); Rec in(t.r->s); t.s->run(in); check(t.r->s, in.got, [&] { Brute b(t.r->s); b.go(rounds(t.r->s.n)); return b.out; }(), "search inside a search", false); probe("nested search"); };
    fb.spawn([&t, i] { long arm = 0; Quiet* q = 0; (void)q; (void)arm; try { t.s->run(*t.r); } catch (Stop&) { t.failed = true; } });
  }
  op("run %zu searches%s", k, share ? " on one plan" : ""); fb.run(); if (fb.switches > k) probe("searches interleaved");
  for (size_t i = 0; i < k; ++i) {
    Task& t = ts[i]; Rec& r = *t.r; bool part = r.got.size() >= r.stop || t.failed; if (r.got.size() >= r.stop) { fault(F_CANCEL, "after %zu", r.stop); SIM_CHECK(r.got.size() == r.stop, "search.halt", "a search asked to halt after %zu touches gave %zu", r.stop, r.got.size()); } if (t.failed) fault(F_SINK_FAIL, "after %zu", r.fail);
    SIM_CHECK(t.failed == (r.got.size() == r.fail), "search.exception", "an exception of the caller was lost"); check(ss[t.spec], r.got, want[t.spec], "search", part);
    for (size_t j = 0; j < r.kept.size(); ++j) { Quiet q; vector<Change> v; for (auto a = r.kept[j].begin(), e = r.kept[j].end(); a != e && v.size() < 3000; ++a) v.push_back(of(*a)); SIM_CHECK(v == r.got[j], "touch.kept", "touch %zu of %zu became another one after it was found", j, r.kept.size()); }
    if (part || choose(4) == 0) {   // afterwards the plan can be searched again, in full, after any failure
      if (choose(3) == 0) { Rec again(r.s); long a = 1 + choose(200); op("again, allocation %ld fails", a); long f0 = alloc::fired; bool bad = false; try { alloc::Armed z(a); t.s->run(again); } catch (std::bad_alloc&) { bad = true; } if (alloc::fired > f0) { fault(F_ALLOC_FAIL, "search"); SIM_CHECK(bad, "nomem.swallowed", "a search ran out of memory and did not say so"); check(r.s, again.got, want[t.spec], "cut off search", true); } }
      Rec again(r.s); op("again"); t.s->run(again); check(r.s, again.got, want[t.spec], "again", false);
      if (part && !t.failed) SIM_CHECK(again.got.size() >= r.got.size() && std::equal(r.got.begin(), r.got.end(), again.got.begin()), "search.order", "a halted search is not the start of the full one"); }
  }
}
