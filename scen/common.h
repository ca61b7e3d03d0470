// Independent reference model of ringing objects, and generators.
// Nothing here calls the code under test.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "sim.h"
#include "simio.h"
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>

namespace ref {
using std::string; using std::vector;

inline char bell_char(int b) { static const char* s = "1234567890ETABCDFGHJKLMNPQRSUVWYZ"; return s[b]; }

// A change: sorted list of swap positions (i means i<->i+1).
struct Change {
  int n = 0; vector<int> sw;
  bool operator==(Change const& o) const { return n == o.n && sw == o.sw; }
  bool operator!=(Change const& o) const { return !(*this == o); }
  bool operator<(Change const& o) const { return n != o.n ? n < o.n : sw < o.sw; }
  vector<int> places() const { vector<int> p; for (int i = 0; i < n; ++i) { if (std::find(sw.begin(), sw.end(), i) != sw.end()) { ++i; continue; } p.push_back(i); } return p; }
  string pn(char cross = 'X') const { vector<int> p = places(); if (p.empty()) return string(1, cross); string s; for (int b : p) s += bell_char(b); return s; }
};
typedef vector<int> Row;
inline Row rounds(int n) { Row r(n); for (int i = 0; i < n; ++i) r[i] = i; return r; }
inline Row apply(Row r, Change const& c) { for (int i : c.sw) std::swap(r[i], r[i + 1]); return r; }
inline string str(Row const& r) { string s; for (int b : r) s += bell_char(b); return s; }
inline Row compose(Row const& a, Row const& b) { Row r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[i] = a[b[i]]; return r; }   // a then positions b
inline int sign(Row r) { int s = 1; for (size_t i = 0; i < r.size(); ++i) while (r[i] != (int)i) { std::swap(r[i], r[r[i]]); s = -s; } return s; }

typedef vector<Change> Method;

inline Change gen_change(int n, bool allow_null = false) {
  for (;;) {
    Change c; c.n = n;
    for (int i = 0; i + 1 < n;) { if (sim::choose(4) != 3) { c.sw.push_back(i); i += 2; } else ++i; }
    if (!c.sw.empty() || allow_null || n < 2) return c;
    c.sw.push_back(0); return c;
  }
}
inline Change cross(int n) { Change c; c.n = n; for (int i = n & 1; i + 1 < n; i += 2) c.sw.push_back(i); if (n & 1) { c.sw.clear(); for (int i = 1; i + 1 < n; i += 2) c.sw.push_back(i); } return c; }

// Text for one change: full external places, X/x/- for cross.
inline string pn_text(Change const& c) {
  if (c.places().empty()) { static const char k[] = { 'X', '-', 'x' }; return string(1, k[sim::choose(3)]); }
  return c.pn();
}
inline string join_pn(vector<Change> const& v) {
  string s; bool prev_cross = true;
  for (auto const& c : v) { string t = pn_text(c); bool cr = c.places().empty(); if (!s.empty() && !cr && !prev_cross) s += '.'; s += t; prev_cross = cr; }
  return s;
}
struct GenMethod { Method m; string pn; bool sym; };
// A method with random but valid notation.
inline GenMethod gen_method(int n, int maxlen = 12) {
  GenMethod g; g.sym = sim::choose(3) != 2;
  if (g.sym) {
    int half = 1 + sim::choose(maxlen / 2); vector<Change> h; for (int i = 0; i < half; ++i) h.push_back(gen_change(n));
    Change le = gen_change(n);
    g.m = h; for (int i = half - 2; i >= 0; --i) g.m.push_back(h[i]); g.m.push_back(le);
    g.pn = "&" + join_pn(h) + "," + pn_text(le);
  } else {
    int len = 1 + sim::choose(maxlen); for (int i = 0; i < len; ++i) g.m.push_back(gen_change(n));
    g.pn = join_pn(g.m);
  }
  return g;
}

inline const char* stage_name(int n) { static const char* s[] = { "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus", "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty", "Decuples", "Twenty-two" }; return s[n - 3]; }

inline string gen_word() {
  static const char* w[] = { "Cambridge", "York", "Oxford", "Kent", "A", "St Clement's", "Zz", "London", "Judith's Hat", "Xylophone", "New", "Bristol", "Old Man", "Ely", "N", "Superlative No.2" };
  return w[sim::choose(16)];
}
inline string gen_name(int maxw = 2) { string s = gen_word(); int k = sim::choose(maxw); for (int i = 0; i < k; ++i) s += " " + gen_word(); return s; }
}
#endif
