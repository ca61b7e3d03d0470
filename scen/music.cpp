// P17: music analysers: scores over interleaved histories of several analysers.
#include "libmodel.h"
#include "pattern.h"
#include <ringing/music.h>
#include <memory>
using namespace ref; using namespace sim;
using ringing::music; using ringing::music_details; using ringing::EStroke; using ringing::eHandstroke; using ringing::eBackstroke; using ringing::eBoth;

namespace {
struct Item { Pat p; int sh = 1, sb = 1; unsigned ch = 0, cb = 0; vector<vector<int>> last; bool matched = false; };
struct Model { int bells; vector<Item> it; };
struct A { std::shared_ptr<music> m; Model mo; };
void check(A& a, const char* w) {
  Quiet q; SIM_CHECK(a.m->size() == a.mo.it.size(), "music.size", "%s: %zu patterns, should be %zu", w, (size_t)a.m->size(), a.mo.it.size());
  SIM_CHECK(a.m->bells() == (unsigned)a.mo.bells, "music.bells", "%s: on %u bells, should be %d", w, a.m->bells(), a.mo.bells);
  long th = 0, tb = 0; unsigned ch = 0, cb = 0; size_t i = 0;
  for (music::const_iterator k = a.m->begin(); k != a.m->end(); ++k, ++i) { Item& t = a.mo.it[i];
    SIM_CHECK(k->get() == t.p.s, "music.get", "%s: pattern %s, should be %s", w, k->get().c_str(), t.p.s.c_str());
    SIM_CHECK(k->count(eHandstroke) == t.ch && k->count(eBackstroke) == t.cb && k->count() == t.ch + t.cb, "music.count", "%s: %s counted %u at hand and %u at back, should be %u and %u", w, t.p.s.c_str(), k->count(eHandstroke), k->count(eBackstroke), t.ch, t.cb);
    SIM_CHECK(k->total(eHandstroke) == int(t.ch) * t.sh && k->total(eBackstroke) == int(t.cb) * t.sb && k->total() == int(t.ch) * t.sh + int(t.cb) * t.sb, "music.total", "%s: %s totals %d", w, t.p.s.c_str(), k->total());
    vector<int> lw; for (auto b : k->last_wildcard_matches()) lw.push_back(int(b));
    if (!t.matched) SIM_CHECK(lw.empty(), "music.wild", "%s: %s keeps %zu wildcard bells of a row it did not match", w, t.p.s.c_str(), lw.size());
    else SIM_CHECK(std::find(t.last.begin(), t.last.end(), lw) != t.last.end(), "music.wild", "%s: %s wildcard bells %s are no way of matching (e.g. %s)", w, t.p.s.c_str(), str(lw).c_str(), str(t.last[0]).c_str());
    th += long(t.ch) * t.sh; tb += long(t.cb) * t.sb; ch += t.ch; cb += t.cb; }
  SIM_CHECK(a.m->get_score() == th + tb && a.m->get_score(eHandstroke) == th && a.m->get_score(eBackstroke) == tb, "music.score", "%s: score %d (%d, %d), should be %ld (%ld, %ld)", w, a.m->get_score(), a.m->get_score(eHandstroke), a.m->get_score(eBackstroke), th + tb, th, tb);
  SIM_CHECK(a.m->get_count() == ch + cb && a.m->get_count(eHandstroke) == ch && a.m->get_count(eBackstroke) == cb, "music.counts", "%s: count %u, should be %u", w, a.m->get_count(), ch + cb);
}
bool feed(Model& m, Row const& r, bool back) { bool any = false; for (auto& t : m.it) { t.last = matches(t.p, r); t.matched = !t.last.empty(); if (t.matched) { any = true; (back ? t.cb : t.ch)++; } } return any; }
}

SCENARIO(music_history, "P17", 1) {
  vector<A> as; bool multi = choose(3) == 0; bool hit = false;
  auto make = [&] { A a; a.mo.bells = choose(4) ? 3 + choose(5) : 0; op("new on %d", a.mo.bells); if (a.mo.bells && choose(3) == 0) { Item t; t.p = gen_pat(a.mo.bells, multi); t.sh = t.sb = int(choose(9)) - 3; music_details md(t.p.s, t.sh); a.m = std::make_shared<music>(a.mo.bells, md); a.mo.it.push_back(t); } else a.m = std::make_shared<music>(a.mo.bells); as.push_back(a); };
  make(); size_t steps = 5 + choose(50);
  for (size_t s = 0; s < steps; ++s) {
    if (as.empty()) { make(); continue; }
    size_t id = choose(as.size()); A* a = &as[id]; int w = choose(24);
    if (w < 5 && a->mo.it.size() < 12) {
      Item t; t.p = gen_pat(a->mo.bells ? a->mo.bells : 3 + choose(5), multi); t.sh = int(choose(9)) - 3; t.sb = choose(2) ? t.sh : int(choose(9)) - 3; int how = choose(4);
      if (a->mo.bells && minlen(t.p) > a->mo.bells) continue;
      op("push %s %d,%d how=%d to %zu", t.p.s.c_str(), t.sh, t.sb, how, id);
      if (how == 0) { string sc = t.sh == t.sb ? (t.sh == 1 && choose(2) ? string() : sim::fmt("%d:", t.sh)) : sim::fmt("%d,%d:", t.sh, t.sb); if (sc.empty()) { t.sh = t.sb = 1; if (isdigit(t.p.s[0]) && t.p.s.size() > 2) sc = "1:"; } a->m->add_scored_music_string(sc + t.p.s); }
      else if (how == 1) { music_details md(t.p.s, t.sh, t.sb); a->m->push_back(md); } else if (how == 2) { music_details md("*", 5); md.set(t.p.s, t.sh, t.sb); a->m->append(md); }
      else { music other(a->mo.bells); other.push_back(music_details(t.p.s, t.sh, t.sb)); a->m->append(other); }
      a->mo.it.push_back(t);
    } else if (w == 5 && a->mo.bells >= 3) {   // named music
      static const char* nm[] = { "rounds", "queens", "kings", "tittums", "reverse-rounds", "CRUs", "3-runs", "front-3-runs", "back-4-runs" }; int k = choose(9); int n = a->mo.bells; if (k == 8 && n < 4) continue; vector<string> ps; int sc = choose(4);
      op("named %s to %zu", nm[k], id);
      auto rowpat = [&](vector<int> v) { string s; for (int b : v) s += bell_char(b); return s; };
      vector<int> odd, even; for (int i = 0; i < n; ++i) (i % 2 ? even : odd).push_back(i); vector<int> v;
      if (k == 0) { for (int i = 0; i < n; ++i) v.push_back(i); ps.push_back(rowpat(v)); } else if (k == 1) { v = odd; v.insert(v.end(), even.begin(), even.end()); ps.push_back(rowpat(v)); }
      else if (k == 2) { v.assign(odd.rbegin(), odd.rend()); v.insert(v.end(), even.begin(), even.end()); ps.push_back(rowpat(v)); } else if (k == 3) { for (int i = 0; i < (n + 1) / 2; ++i) { v.push_back(i); if ((int)v.size() < n) v.push_back((n + 1) / 2 + i); } ps.push_back(rowpat(v)); }
      else if (k == 4) { for (int i = n - 1; i >= 0; --i) v.push_back(i); ps.push_back(rowpat(v)); }
      else if (k == 5) { if (n >= 6) for (int i = 3; i < 6; ++i) for (int j = 3; j < 6; ++j) if (i != j) { string s = "*"; s += bell_char(i); s += bell_char(j); for (int x = 6; x < n; ++x) s += bell_char(x); ps.push_back(s); } }
      else { int len = k == 8 ? 4 : 3; for (int dir = 0; dir < 2; ++dir) for (int i = 0; i + len <= n; ++i) { string s; for (int j = 0; j < len; ++j) s += bell_char(dir ? i + len - 1 - j : i + j); ps.push_back((k != 7 ? "*" : "") + s + (k != 8 ? "*" : "")); } }
      if (a->mo.it.size() + ps.size() > 40) continue;
      if (choose(2)) a->m->add_named_music(nm[k], sc); else a->m->add_scored_music_string(sim::fmt("%d:<%s>", sc, nm[k]));
      for (auto& p : ps) { Item t; t.p.s = p; for (char c : p) { if (c == '*') t.p.t.push_back({'*', {}}); else for (int b = 0; b < 16; ++b) if (bell_char(b) == c) t.p.t.push_back({'b', {b}}); } t.sh = t.sb = sc; a->mo.it.push_back(t); }
    } else if (w == 6) {   // an unusable pattern is refused and nothing changes
      static const char* bad[] = { "[12", "1]2", "[*]", "12+", "[[1]2]" }; const char* b = bad[choose(5)]; op("bad %s", b); bool thrown = false; try { if (choose(2)) a->m->add_scored_music_string(b); else a->m->push_back(music_details(b)); } catch (music_details::invalid_regex&) { thrown = true; } SIM_CHECK(thrown, "music.accepts", "pattern %s was accepted", b);
      if (a->mo.bells && a->mo.bells < 8 && choose(2)) { thrown = false; try { a->m->push_back(music_details("*8")); } catch (music_details::invalid_regex&) { thrown = true; } SIM_CHECK(thrown, "music.accepts", "bell 8 accepted on %d", a->mo.bells); }
    } else if (w < 16 && a->mo.bells) {
      Row r = rounds(a->mo.bells); for (int i = a->mo.bells - 1; i > 0; --i) std::swap(r[i], r[choose(i + 1)]);
      if (!a->mo.it.empty() && choose(2)) { Item const& t = pick(a->mo.it); for (int tries = 0; tries < 40 && matches(t.p, r).empty(); ++tries) std::swap(r[choose(r.size())], r[choose(r.size())]); }
      bool back = choose(2); op("row %s %s to %zu", str(r).c_str(), back ? "back" : "hand", id); bool res = a->m->process_row(to(r), back), want = feed(a->mo, r, back); hit |= want;
      SIM_CHECK(res == want, "music.match", "row %s %s, should %smatch", str(r).c_str(), res ? "matched" : "did not match", want ? "" : "not ");
    } else if (w == 16 && a->mo.bells) {
      vector<Row> rs; Row r = rounds(a->mo.bells); size_t k = choose(12); for (size_t i = 0; i < k; ++i) { r = ref::apply(r, gen_change(a->mo.bells)); rs.push_back(r); } bool back = choose(2); op("block of %zu to %zu", k, id); vector<ringing::row> rr; for (auto& x : rs) rr.push_back(to(x));
      a->m->process_rows(rr.begin(), rr.end(), back); for (auto& t : a->mo.it) { t.ch = t.cb = 0; } for (auto& x : rs) { hit |= feed(a->mo, x, back); back = !back; } if (!k) {}
    } else if (w == 17) { op("reset %zu", id); a->m->reset_music(); for (auto& t : a->mo.it) t.ch = t.cb = 0; }
    else if (w == 18) { int nb = choose(2) ? 3 + choose(5) : 0; op("clear %zu bells=%d", id, nb); a->m->clear(nb); a->mo.it.clear(); if (nb) a->mo.bells = nb; }
    else if (w == 19) { int nb = 3 + choose(6); int need = 0; for (auto& t : a->mo.it) { need = std::max(need, minlen(t.p)); for (auto& k : t.p.t) for (int b : k.b) need = std::max(need, b + 1); } if (nb < need) { op("set_bells %d on %zu, too few", nb, id); bool worst = false; for (auto& t : a->mo.it) for (auto& k : t.p.t) for (int b : k.b) worst |= b >= nb; if (!worst) continue; bool thrown = false; try { a->m->set_bells(nb); } catch (music_details::invalid_regex&) { thrown = true; } SIM_CHECK(thrown, "music.accepts", "%d bells are accepted with patterns that need more", nb); check(*a, "after refusing"); continue; } op("set_bells %d on %zu", nb, id); probe("bells changed with patterns", !a->mo.it.empty()); a->m->set_bells(nb); a->mo.bells = nb; }
    else if (w < 22 && as.size() < 4) { op("copy %zu", id); A b; b.mo = a->mo; if (choose(2)) b.m = std::make_shared<music>(*a->m); else { b.m = std::make_shared<music>(5); b.m->push_back(music_details("*1*")); *b.m = *a->m; } as.push_back(b); id = as.size() - 1; }
    else if (w == 22) { op("drop %zu", id); as.erase(as.begin() + id); continue; }
    else if (as.size() < 4) { make(); id = as.size() - 1; }
    check(as[id], "analyser"); size_t o = choose(as.size()); check(as[o], "other analyser");
    state(mix(as[id].mo.it.size(), as[id].mo.bells));
  }
  if (hit) nontrivial();
}
