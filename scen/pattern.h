// Row patterns: bells, ?, [choices] and *; every way one matches a row.
#ifndef VERIF_PATTERN_H
#define VERIF_PATTERN_H
#include "common.h"
namespace ref {
struct Tok { char k; vector<int> b; };   // 'b' bell, '?' any, '[' choice, '*' any number
struct Pat { vector<Tok> t; string s; };
inline int minlen(Pat const& p) { int n = 0; for (auto& t : p.t) n += t.k != '*'; return n; }
// Every way the pattern matches a row: which bells matched a wildcard.  A star stands for any number of places; a
// pattern whose last token is not a star, but which has one, must reach the end of the row; without a star it is a prefix.
inline void match(Pat const& p, bool full, size_t i, Row const& r, size_t pos, vector<int>& w, vector<vector<int>>& out) {
  size_t n = w.size();
  if (i == p.t.size()) { if (full && pos != r.size()) return; w.insert(w.end(), r.begin() + pos, r.end()); out.push_back(w); w.resize(n); return; }
  Tok const& t = p.t[i];
  if (t.k == '*') { for (size_t e = pos; e <= r.size(); ++e) { w.insert(w.end(), r.begin() + pos, r.begin() + e); match(p, full, i + 1, r, e, w, out); w.resize(n); } return; }
  if (pos == r.size()) return;
  if (t.k == '?') { w.push_back(r[pos]); match(p, full, i + 1, r, pos + 1, w, out); w.resize(n); }
  else if (std::find(t.b.begin(), t.b.end(), r[pos]) != t.b.end()) match(p, full, i + 1, r, pos + 1, w, out);
}
inline vector<vector<int>> matches(Pat const& p, Row const& r) {
  bool star = false; for (auto& t : p.t) star |= t.k == '*';
  vector<int> w; vector<vector<int>> out; match(p, star, 0, r, 0, w, out); return out;
}
inline Pat gen_pat(int bells, bool multi) {
  Pat p; int n = 1 + sim::choose(std::min(bells, 5)); int stars = 0; bool prev_star = false; vector<int> left; for (int i = 0; i < bells; ++i) left.push_back(i);
  auto star = [&] { if (prev_star || (stars >= 1 && !multi) || stars >= 3) return; p.t.push_back({'*', {}}); ++stars; prev_star = true; };
  if (sim::choose(2)) star();
  for (int i = 0; i < n; ++i) { int k = sim::choose(8); prev_star = false;
    if (k < 5) { int x = sim::choose(left.size()); p.t.push_back({'b', {left[x]}}); left.erase(left.begin() + x); if (left.empty()) { break; } }
    else if (k == 5) p.t.push_back({'?', {}}); else { Tok t{'[', {}}; int m = 1 + sim::choose(3); for (int j = 0; j < m; ++j) { int b = sim::choose(bells); if (std::find(t.b.begin(), t.b.end(), b) == t.b.end()) t.b.push_back(b); } p.t.push_back(t); }
    if (sim::choose(5) == 0) star(); }
  if (!prev_star && sim::choose(2)) star();
  for (auto& t : p.t) { if (t.k == 'b') p.s += bell_char(t.b[0]); else if (t.k == '[') { p.s += '['; for (int b : t.b) p.s += bell_char(b); p.s += ']'; } else p.s += t.k; }
  return p;
}
// The patterns of music known by a name.
static const char* const NAMED_MUSIC[] = { "rounds", "queens", "kings", "tittums", "reverse-rounds", "CRUs", "3-runs", "front-3-runs", "back-4-runs" };
inline vector<Pat> named_music(int k, int n) {
  vector<string> ps; auto rowpat = [&](vector<int> v) { string s; for (int b : v) s += bell_char(b); return s; };
  vector<int> odd, even; for (int i = 0; i < n; ++i) (i % 2 ? even : odd).push_back(i); vector<int> v;
  if (k == 0) { for (int i = 0; i < n; ++i) v.push_back(i); ps.push_back(rowpat(v)); } else if (k == 1) { v = odd; v.insert(v.end(), even.begin(), even.end()); ps.push_back(rowpat(v)); }
  else if (k == 2) { v.assign(odd.rbegin(), odd.rend()); v.insert(v.end(), even.begin(), even.end()); ps.push_back(rowpat(v)); } else if (k == 3) { for (int i = 0; i < (n + 1) / 2; ++i) { v.push_back(i); if ((int)v.size() < n) v.push_back((n + 1) / 2 + i); } ps.push_back(rowpat(v)); }
  else if (k == 4) { for (int i = n - 1; i >= 0; --i) v.push_back(i); ps.push_back(rowpat(v)); }
  else if (k == 5) { if (n >= 6) for (int i = 3; i < 6; ++i) for (int j = 3; j < 6; ++j) if (i != j) { string s = "*"; s += bell_char(i); s += bell_char(j); for (int x = 6; x < n; ++x) s += bell_char(x); ps.push_back(s); } }
  else { int len = k == 8 ? 4 : 3; for (int dir = 0; dir < 2; ++dir) for (int i = 0; i + len <= n; ++i) { string s; for (int j = 0; j < len; ++j) s += bell_char(dir ? i + len - 1 - j : i + j); ps.push_back((k != 7 ? "*" : "") + s + (k != 8 ? "*" : "")); } }
  vector<Pat> out; for (auto& p : ps) { Pat q; q.s = p; for (char c : p) { if (c == '*') q.t.push_back({'*', {}}); else for (int b = 0; b < 16; ++b) if (bell_char(b) == c) q.t.push_back({'b', {b}}); } out.push_back(q); } return out;
}
}
#endif
