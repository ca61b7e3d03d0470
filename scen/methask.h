// What methsearch is asked for, and the answer by brute force.
#ifndef VERIF_METHASK_H
#define VERIF_METHASK_H
#include "common.h"
#include "pattern.h"
#include "simapp.h"
#include "libmodel.h"
#include "rowexpr.h"
using namespace ref; using namespace sim;
int app_main(int argc, char** argv);
namespace sim { namespace clk { extern int (*hook)(); extern uint64_t calls; } }

namespace {
// What is asked for.
struct Ask {
  int n = 5, hunts = 1, dodges = 0, len = 10, front = 0, back = 4; bool s = false, k = false, d = false, mirror = false, floating = false; int p = 0, l = 0, j = 0; bool w = false, r = false, c = false, all = false, e = false; char F = 0; char cls = 0;
  bool use_changes = false, incl = true; vector<Change> changes; Method prefix; bool has_mask = false; vector<vector<Change>> mask; string mask_text; vector<std::pair<int, Pat>> rows; int start = 0; bool nopoints = false, haspoints = false, anyreg = false, longle = false, no78 = false, sects = false, parity = false, prefer = false; int hl = 0;   // hl: 1 regular half leads, 2 and 3 cyclic half-lead end and head, 4 and 5 in reverse
  vector<Method> avoid; bool explicit_len = false;
  bool notriv = false; int N = 1; Row start_row; vector<Row> parts; std::set<Row> never;   // -Fx with another level; extents; the starting row, the part ends (a group), rows to keep out (by their cosets)
  bool trivial() const { return F == 'x' || notriv; }
  vector<string> args;
};
#ifndef ANY_REGULAR
#define ANY_REGULAR (chance(1, 4) ? "--any-regular-hl" : "--any-regular-lh")
#endif
int mod(int a, int m) { a %= m; return a < 0 ? a + m : a; }
// Where a bell that hunts between two places, dodging in each pair, is at each row of its lead.
vector<int> hunt_path(Ask const& a) {
  vector<int> up; int w = a.back - a.front + 1;
  if (a.dodges) for (int q = 0; q < w; q += 2) for (int k = 0; k <= a.dodges; ++k) { up.push_back(a.front + q); up.push_back(a.front + q + 1); } else for (int q = 0; q < w; ++q) up.push_back(a.front + q);
  vector<int> p = up; p.insert(p.end(), up.rbegin(), up.rend()); return p;
}
Change rev(Change const& c) { Change r; r.n = c.n; for (int i : c.sw) r.sw.push_back(c.n - 2 - i); std::sort(r.sw.begin(), r.sw.end()); return r; }
vector<Change> all_changes(int n) { vector<Change> v; std::function<void(int, Change)> f = [&](int i, Change c) { if (i >= n - 1) { v.push_back(c); return; } Change d = c; f(i + 1, c); d.sw.push_back(i); f(i + 2, d); }; Change c; c.n = n; f(0, c); return v; }
bool has_place(Change const& c, int i) { for (int x : c.places()) if (x == i) return true; return false; }
bool internal_place(Change const& c) { for (int x : c.places()) if (x != 0 && x != c.n - 1) return true; return false; }
// May this change stand at this position, looking only at the change?
bool fits(Ask const& a, vector<int> const& path, int i, Change const& c) {
  if (a.hunts) for (int h = 0; h < a.hunts; ++h) {
    int sh = h ? 2 : 0; int at = path[mod(i - sh, a.len)], to = path[mod(i + 1 - sh, a.len)]; int go = at; for (int x : c.sw) { if (x == at) go = at + 1; else if (x + 1 == at) go = at - 1; }
    if (go != to) return false;
  }
  if (!a.trivial() && c.sw.empty()) return false;
  vector<int> pl = c.places();
  if (a.l && (int)pl.size() > a.l) return false;
  if (a.j) { int run = 0; for (int x = 0; x < a.n; ++x) { run = has_place(c, x) ? run + 1 : 0; if (run > a.j) return false; } }
  if (a.w && i % 2 == 0 && !pl.empty()) return false;
  if (a.mirror && c != rev(c)) return false;
  if (a.no78 && i != a.len / 2 - 1 && has_place(c, a.n - 2)) return false;
  if (a.use_changes && a.incl != (std::find(a.changes.begin(), a.changes.end(), c) != a.changes.end())) return false;
  if (a.has_mask && !a.mask[i].empty() && std::find(a.mask[i].begin(), a.mask[i].end(), c) == a.mask[i].end()) return false;
  if (i < (int)a.prefix.size() && a.prefix[i] != c) return false;
  if (a.e && i == a.len - 1 && pl != (a.n % 2 ? vector<int>{0, 1, a.n - 1} : vector<int>{0, 1}) && pl != (a.n % 2 ? vector<int>{0} : vector<int>{0, a.n - 1})) return false;
  return true;
}
// The position each symmetry ties to position i (and whether the change is turned upside down there).
vector<std::pair<int, bool>> ties(Ask const& a, int i) {
  vector<std::pair<int, bool>> v; int L = a.len; int off = a.hunts && a.hunts % 2 == 0 ? 1 + a.dodges : 0;
  if (a.s) v.push_back({ mod(L - 2 + 2 * off - i, L), false });
  if (a.d) v.push_back({ mod(i + L / 2, L), true });
  if (a.k) { int q = L / 4 - 1 + off; v.push_back({ mod(2 * q + (L % 4 ? 1 : 0) - i, L), true }); }
  return v;
}
bool too_long_blows(Ask const& a, Method const& m, bool whole) {
  if (!a.p) return false; int L = m.size();
  for (int x = 0; x < a.n; ++x) { int run = 0; for (int t = 0; t < (whole && !a.longle ? 2 * L : L); ++t) { run = has_place(m[t % L], x) ? run + 1 : 0; if (a.longle && t == L - 1) run = 0; if (run >= a.p) return true; } }
  return false;
}
Row lead_head(Method const& m, int n) { Row r = rounds(n); for (auto& c : m) r = apply(r, c); return r; }
bool pb_lead_head(Row const& r, int h) {
  int n = r.size(), w = n - h; Row g = rounds(n); if (w < 2) return false;
  for (int k = 0; k < w; ++k) g[h + k] = h + (k == 0 ? 1 : k % 2 == 0 ? k - 2 : k + 2 < w ? k + 2 : k + 1 < w ? k + 1 : k - 1);   // one lead of plain bob: 13526478...
  Row x = g; for (int i = 1; i < w; ++i) { if (x == r) return true; x = compose(x, g); } return false;
}
Row from_start(Ask const& a, Row const& r) { return a.start_row.empty() ? r : compose(a.start_row, r); }
Row coset(Ask const& a, Row const& r) { Row best = r; for (auto& p : a.parts) { Row x = compose(p, r); if (x < best) best = x; } return best; }
// Is every row of what is proved there once (or as often as is allowed), in all the parts together, and none of those to be avoided?  2 where the manual leaves it open.
int true_in_parts(Ask const& a, Method const& m) {
  char lvl = a.F ? a.F : 'l'; if (lvl == 'n' || lvl == 'x') return 1;
  int L = m.size(), end = lvl == 'h' ? L / 2 : L; bool open = false, plain = a.parts.size() <= 1 && a.N == 1; Row s = from_start(a, rounds(a.n)), r = s, last = s; std::map<Row, int> cnt;
  do for (int i = 0; i < end; ++i) { Row lab = coset(a, r); if (a.never.count(lab)) return 0; if (++cnt[lab] > a.N) { if (plain && r == s) open = true; else return 0; } last = r; r = apply(r, m[i]); } while (lvl == 'c' && r != s);
  if (lvl == 'h') { Row hl = coset(a, r); if (hl != coset(a, last) && cnt[hl]) { if (plain) return 0; open = true; } if (a.never.count(hl)) open = true; for (int i = end; i < L; ++i) r = apply(r, m[i]); if (a.never.count(coset(a, r)) || coset(a, r) == hl) open = true; }   // how far the lead head counts is not said
  if (lvl != 'c') { Row lab = coset(a, r); if (lab != coset(a, s) && cnt[lab] >= a.N) { if (plain && lvl == 'l') return 0; open = true; } }
  return open ? 2 : 1;
}
// Whether a lead that passes through the row it starts with is a true one is left open: the repository's own tests say that it is, with some options.
// 0: it does not belong; 1: it does; 2: it may.
bool points(Method const& m) {   // two bells that swap again and again, an even number of times
  int L = m.size(), n = m[0].n; for (int x = 0; x + 1 < n; ++x) { auto swaps = [&](int t) { auto& s = m[t % L].sw; return std::find(s.begin(), s.end(), x) != s.end(); }; int j = 0; while (j < L && swaps(j)) ++j; if (j == L) continue; for (int t = j, run = 0; t <= j + L; ++t) { if (t < j + L && swaps(t)) { ++run; continue; } if (run && run % 2 == 0) return true; run = 0; } }
  return false; }
bool reg_row(Row r, bool end) { int n = r.size(); std::reverse(r.begin(), r.end()); if (end) { Change c; c.n = n; for (int i = 1; i + 1 < n; i += 2) c.sw.push_back(i); r = ref::apply(r, c); } return r == rounds(n) || pb_lead_head(r, 1); }
int wanted(Ask const& a, Method const& m, bool proof = true) {
  bool open = false; int L = m.size(); vector<int> path = hunt_path(a); if (L != a.len) return false;
  for (int i = 0; i < L; ++i) { if (!fits(a, path, i, m[i])) return false; if (!a.floating) for (auto& t : ties(a, i)) if (m[t.first] != (t.second ? rev(m[i]) : m[i])) return false; }
  if (!a.trivial()) for (int i = 0; i < L; ++i) if (L > 1 && m[i] == m[(i + 1) % L]) return false;
  if (too_long_blows(a, m, true)) return false;
  Row lh = lead_head(m, a.n);
  if (!a.all) { // the working bells ring one another's work
    int h0 = a.front; int st = -1; for (int b = 0; b < a.n; ++b) if (b < h0 || b >= h0 + a.hunts) { st = b; break; }
    int k = 0, b = st; do { b = lh[b]; ++k; } while (b != st); if (k != a.n - a.hunts) return false; for (int b2 = h0; b2 < h0 + a.hunts; ++b2) if (lh[b2] != b2) return false;
  }
  if (a.nopoints && points(m)) return false; if (a.haspoints && !points(m)) return false;
  if (a.anyreg && !a.r && !a.c) { int h = 0; while (h < a.n && lh[h] == h) ++h; if (!pb_lead_head(lh, h)) return false; }
  if (a.sects) { int d = 2 * (1 + a.dodges); for (int i = 0; i < L; ++i) { int j = i % d; if (j < d - 1 && m[i] != m[i - j + d - 2 - j]) return false; } }
  if (a.parity) { Row r = rounds(a.n); int d = 2 * (1 + a.dodges); for (int i = 0; i < L / 2; i += d) { std::map<int, int> bal; for (int j = 0; j < d; ++j) { bal[path[i + j]] += sign(r); r = apply(r, m[i + j]); } for (auto& b : bal) if (b.second) return false; } }
  if (a.hl) { Row e = rounds(a.n), h; for (int i = 0; i < L / 2 - 1; ++i) e = apply(e, m[i]); h = apply(e, m[L / 2 - 1]); int n = a.n; auto cyc = [&](Row const& r, int step) { if (r[n - 1] != 0) return false; for (int i = 1; i + 1 < n; ++i) if (mod(r[i - 1] - 1 + step, n - 1) + 1 != r[i]) return false; return true; };
    if (a.hl == 1) { bool e0 = reg_row(e, false), e1 = reg_row(e, true), h0 = reg_row(h, false), h1 = reg_row(h, true); if (!((e0 || e1) && (h0 || h1))) return false; if (!((e0 && h1) || (e1 && h0))) open = true; }
    else if (!cyc(a.hl % 2 ? h : e, a.hl < 4 ? 1 : -1)) return false; }
  if (a.prefer && proof) { vector<int> pl = m[L - 1].places(); 
    bool limited = pl == (a.n % 2 ? vector<int>{ 0, 1, a.n - 1 } : vector<int>{ 0, 1 }) || pl == (a.n % 2 ? vector<int>{ 0 } : vector<int>{ 0, a.n - 1 });
    if (!limited) for (int w = 0; w < 2; ++w) { Method v = m; Change c; c.n = a.n; for (int i = w ? 2 : 1; i + 1 < a.n; i += 2) c.sw.push_back(i); v[L - 1] = c; Ask b = a; bool rept = L > 1 && (v[0] == c || v[L - 2] == c); if (rept) b.notriv = true; int x = wanted(b, v, false); if (x == 1 && !(rept && !a.trivial())) return false; if (x) open = true;
      b.l = b.j = b.hl = 0; b.w = b.use_changes = b.has_mask = b.no78 = b.sects = b.parity = b.nopoints = b.haspoints = false; b.prefix.clear(); b.rows.clear(); b.cls = 0; if (!x && wanted(b, v, false)) open = true; } }   // which options count is "subject to change"
  if (a.r && !pb_lead_head(lh, a.hunts)) return false;
  else if (a.c && !a.r) { int h = a.hunts, w = a.n - h; if (lh[h] == h) return false; for (int x = 0; x < h; ++x) if (lh[x] != x) return false; for (int x = h + 1; x < a.n; ++x) if (mod(lh[x] - h, w) != mod(lh[x - 1] + 1 - h, w)) return false; }
  if (!proof) ; else if (a.parts.size() > 1 || a.N > 1 || !a.never.empty()) { int t = true_in_parts(a, m); if (!t) return 0; if (t == 2) open = true; }
  else if (a.F == 0 || a.F == 'l' || a.F == 'c') {
    Row r = rounds(a.n); std::set<Row> seen; do { for (auto& c : m) { if (!seen.insert(r).second) { if (r != rounds(a.n)) return false; open = true; } r = apply(r, c); } } while (a.F == 'c' && r != rounds(a.n));
    if (a.F != 'c' && r != rounds(a.n) && seen.count(r)) return false;
  }
  else if (a.F == 'h') for (int h = 0; h < 2; ++h) { Row r = rounds(a.n); std::set<Row> seen; for (int i = h * L / 2; i < (h + 1) * L / 2; ++i) { if (!seen.insert(r).second) { if (r != rounds(a.n)) return false; open = true; } r = apply(r, m[i]); } if (!a.hunts && seen.count(r)) open = true; if (a.hunts && !h && !m[L / 2 - 1].sw.empty() && seen.count(r)) return false; }
  if (proof && a.F == 'h' && !a.hunts) { Row r = rounds(a.n), hl = r; std::set<Row> rows; for (int i = 0; i < L; ++i) { if (i == L / 2) hl = r; else rows.insert(r); r = apply(r, m[i]); } if (rows.count(lh) || rows.count(hl) || lh == hl) open = true; } // how far the two halves' ends count is not said
  if (a.cls == '3' || a.cls == '4') { for (int i = 0; i < L; ++i) { int lo = std::min(path[i], path[(i + 1) % L]); if ((i + 1) % (2 * (1 + a.dodges)) || path[i] == path[(i + 1) % L]) continue; if (lo == 1 || lo == 3) if (internal_place(m[i]) != ((lo == 3) == (a.cls == '3'))) return false; } }
  else if (a.cls) { int in = 0, tot = 0; for (int i = 0; i < L; ++i) { if (i == L / 2 - 1 || i == L - 1) continue; if ((i + 1) % (2 * (1 + a.dodges)) == 0) { ++tot; in += internal_place(m[i]); } }
    if (a.cls == 'S' && in != tot) return false; if (a.cls == 'T' && in) return false; if (a.cls != 'S' && a.cls != 'T' && (in == 0 || in == tot)) return false; int out = (tot - in) / 2;   // a palindromic lead has each twice
    if (a.cls == 's' && out != 1) return false; if (a.cls == 'E' && out < 2) return false; if (a.cls == 'e' && out != 2) return false; if (a.cls == 't' && out != 3) return false; if (a.cls == 'q' && out != 4) return false; }
  if (!a.rows.empty()) { Row r = from_start(a, rounds(a.n)); for (int i = 0; i <= L; ++i) { for (auto& q : a.rows) if (q.first == i) { bool any = a.parts.size() <= 1 ? !matches(q.second, r).empty() : false; for (auto& p : a.parts) if (!matches(q.second, compose(p, r)).empty()) any = true; if (!any) return false; } if (i < L) r = apply(r, m[i]); } }
  return open ? 2 : 1;
}
// Every method that is wanted, by trying everything the symmetries leave free.
bool enumerate(Ask const& a, vector<Method>& out, vector<Method>& open, long budget) {
  out.clear(); open.clear();
  vector<int> path = hunt_path(a); vector<Change> all = all_changes(a.n); int L = a.len;
  vector<vector<Change>> may(L); for (int i = 0; i < L; ++i) for (auto& c : all) if (fits(a, path, i, c)) may[i].push_back(c);
  Method m(L); vector<char> set(L, 0); long nodes = 0;
  std::function<bool(int)> go = [&](int i) -> bool {
    if (++nodes > budget) return false;
    if (i == L) { int w = wanted(a, m); if (w) (w == 1 ? out : open).push_back(m); return true; }
    auto ok_here = [&](Change const& c) { if (!a.trivial() && i && m[i - 1] == c) return false; if (a.p && !(a.longle && i == L - 1)) for (int x : c.places()) { int run = 1; for (int t = i - 1; t >= 0 && has_place(m[t], x); --t) ++run; if (run >= a.p) return false; } return true; };
    vector<Change> forced; bool have = false; if (!a.floating) for (auto& t : ties(a, i)) if (t.first < i) { Change c = t.second ? rev(m[t.first]) : m[t.first]; if (have && forced[0] != c) return true; if (!have) forced.push_back(c); have = true; }
    vector<Change> const& opts = have ? forced : may[i];
    for (auto& c : opts) { if (have && std::find(may[i].begin(), may[i].end(), c) == may[i].end()) continue; if (!ok_here(c)) continue; m[i] = c; if (!go(i + 1)) return false; }
    return true;
  };
  return go(0);
}
string full_pn(Method const& m) { string s; for (size_t i = 0; i < m.size(); ++i) { if (i) s += '.'; s += m[i].pn('X'); } return s; }

void flag(Ask& a, string const& sh, string const& lo) { a.args.push_back(chance(1, 4) ? "--" + lo : "-" + sh); }
void onum(Ask& a, string const& sh, string const& lo, int v) { if (chance(1, 4)) a.args.push_back("--" + lo + "=" + std::to_string(v)); else a.args.push_back("-" + sh + std::to_string(v)); }   // its value may be left out
void num(Ask& a, string const& sh, string const& lo, int v) { if (chance(1, 4)) a.args.push_back("--" + lo + "=" + std::to_string(v)); else if (chance(1, 2)) { a.args.push_back("-" + sh); a.args.push_back(std::to_string(v)); } else a.args.push_back("-" + sh + std::to_string(v)); }

// Options that leave a number of methods one can check by trying everything.
Ask gen_ask(bool filter = false) {
  Ask a; a.n = pick(vector<int>{ 5, 4, 6, 3, 7, 8 }); int kind = choose(8);
  if (kind == 0) { a.hunts = 0; a.len = range(2, a.n <= 4 ? 8 : a.n == 5 ? 5 : 4) ; if (a.n > 5) a.len = range(2, 3); a.explicit_len = true; }
  else if (kind == 1 && a.n >= 5) a.hunts = 2;
  a.back = a.n - 1;
  if (a.hunts == 1 && chance(1, 6)) { a.front = choose(2); a.back = range(a.front + 1, a.n - 1); }
  int w = a.back - a.front + 1;
  if (a.hunts == 1 && w % 2 == 0 && chance(1, 3)) a.dodges = a.n <= 4 ? range(1, 2) : 1;
  if (a.hunts) a.len = 2 * w * (1 + a.dodges);
  bool mid = a.front == a.n - 1 - a.back; bool even = a.len % 2 == 0;
  // symmetry: needed for anything long
  bool need = a.len > 8 || a.n > 5;
  if (even && (need || chance(1, 2))) { if (mid && a.hunts != 2) { switch (choose(6)) { case 0: case 1: case 2: a.s = true; break; case 3: a.d = true; break; case 4: a.k = true; break; default: a.s = a.k = a.d = true; } } else a.s = true; }
  if (a.n >= 6 || chance(2, 3)) { a.p = range(a.n > 6 ? 2 : 1, 4); }
  if (a.p > a.len) a.p = a.len;   // a bell that never moves makes no run of places that could be counted
  if (a.n >= 6 || chance(1, 3)) a.l = range(1, a.n >= 7 ? 2 : 4);
  if (a.n >= 7 || chance(1, 3)) a.j = range(1, 2);
  if (a.n % 2 == 0 && chance(1, a.n >= 6 ? 2 : 5)) a.w = true;
  if (a.hunts && a.front == 0 && chance(1, 3)) { if (chance(2, 3)) a.r = true; else a.c = true; }
  a.all = chance(1, 3); if (a.hunts == 1 && a.front == 0 && chance(1, 6)) a.e = true;
  if (mid && a.hunts != 2 && chance(1, 12)) a.mirror = true;
  switch (choose(8)) { case 0: a.F = 'l'; break; case 1: a.F = 'c'; break; case 2: a.F = 'h'; break; case 3: a.F = 'n'; break; case 4: if (chance(1, 3)) a.F = 'x'; break; default:; }
  if (a.F && a.F != 'n' && a.F != 'x' && a.n <= 5 && chance(1, 5)) a.notriv = true; if (a.F != 'n' && a.F != 'x' && a.F != 'h' && chance(1, a.notriv ? 2 : 8)) a.N = range(2, 3);
  if (a.dodges && w > 2 && chance(1, 2)) a.cls = pick(vector<char>{ 'S', 'T', 'D' });
  if (a.dodges && w > 2 && a.s && chance(1, 4)) { a.cls = pick(vector<char>{ 's', 'E', 'e', 't', 'q' }); if (w == 6 && a.front == 0 && chance(1, 2)) a.cls = pick(vector<char>{ '3', '4' }); }
  bool one = a.hunts == 1, full = one && a.front == 0 && a.back == a.n - 1;
  if (full && a.n > 3 && chance(1, 8)) a.no78 = true; if (one && a.dodges && !a.k && chance(1, 8)) a.sects = true; if (one && a.dodges == 1 && a.s && chance(1, 6)) a.parity = true; if (one && a.front == 0 && a.p && chance(1, 8)) a.longle = true;
  if (a.hunts && a.front == 0 && !a.r && !a.c && chance(1, 8)) a.anyreg = true; if (chance(1, 12)) (chance(1, 2) ? a.nopoints : a.haspoints) = true; if (full && a.n > 3 && chance(1, 8)) { a.hl = range(1, 5); if (a.hl == 1 && !a.r) a.hl = 0; }
  if (a.e && !a.k && !a.d && chance(1, 3)) { a.e = false; a.prefer = true; }
  vector<Change> all = all_changes(a.n);
  if (chance(1, 6)) { a.use_changes = true; a.incl = chance(1, 2); int k = range(1, all.size() / 2 + 1); for (int i = 0; i < k; ++i) { Change c = pick(all); if (std::find(a.changes.begin(), a.changes.end(), c) == a.changes.end()) a.changes.push_back(c); } }
  // the words
  auto put = [&](std::function<void()> f) { f(); };
  vector<std::function<void()>> w_;
  if (!filter || !chance(1, 4)) w_.push_back([&] { num(a, "b", "bells", a.n); }); else w_.push_back([&] { num(a, "b", "bells", a.n); });
  if (a.hunts != 1) w_.push_back([&] { onum(a, "U", "hunts", a.hunts); }); if (a.explicit_len) w_.push_back([&] { num(a, "n", "changes-per-lead", a.len); });
  if (a.dodges) w_.push_back([&] { num(a, "G", "treble-dodges", a.dodges); });
  if (a.front || a.back != a.n - 1) w_.push_back([&] { string z; if (a.front || chance(1, 2)) z += bell_char(a.front); z += '-'; if (a.back != a.n - 1 || chance(1, 2)) z += bell_char(a.back); a.args.push_back("-Z" + z); });
  if (a.s && a.k && a.d) { int drop = choose(4); if (drop != 1) w_.push_back([&] { flag(a, "s", "symmetric"); }); if (drop != 2) w_.push_back([&] { flag(a, "k", "rotational"); }); if (drop != 3) w_.push_back([&] { flag(a, "d", "double"); }); }
  else { if (a.s) w_.push_back([&] { flag(a, "s", "symmetric"); }); if (a.k) w_.push_back([&] { flag(a, "k", "rotational"); }); if (a.d) w_.push_back([&] { flag(a, "d", "double"); }); }
  if (a.mirror) w_.push_back([&] { a.args.push_back("--mirror"); });
  if (a.p) w_.push_back([&] { if (a.p == 2 && chance(1, 2)) flag(a, "p", "blows-per-place"); else onum(a, "p", "blows-per-place", a.p); });
  if (a.l) w_.push_back([&] { if (a.l == 2 && chance(1, 2)) flag(a, "l", "places-per-change"); else onum(a, "l", "places-per-change", a.l); });
  if (a.j) w_.push_back([&] { if (a.j == 1 && chance(1, 2)) flag(a, "j", "max-adj-places"); else onum(a, "j", "max-adj-places", a.j); });
  if (a.w) w_.push_back([&] { flag(a, "w", "right-place"); }); if (a.r) w_.push_back([&] { flag(a, "r", "regular"); }); if (a.c) w_.push_back([&] { flag(a, "c", "cyclic"); });
  if (a.all) w_.push_back([&] { flag(a, "A", "all-methods"); }); if (a.e) w_.push_back([&] { flag(a, "e", "restricted-le"); });
  if (a.F) w_.push_back([&] { string v = a.F == 'l' ? (chance(1, 2) ? "l" : "lead") : a.F == 'c' ? (chance(1, 2) ? "c" : "course") : a.F == 'h' ? "h" : a.F == 'n' ? "n" : "x"; if (chance(1, 2)) a.args.push_back("-F" + v); else a.args.push_back("--falseness=" + v); });
  if (a.notriv) w_.push_back([&] { string v = chance(1, 2) ? "x" : "really-none"; if (chance(1, 2)) a.args.push_back("-F" + v); else a.args.push_back("--falseness=" + v); });
  if (a.N > 1) w_.push_back([&] { a.args.push_back("-FN=" + std::to_string(a.N)); });
  if (a.cls == 'S') w_.push_back([&] { flag(a, "S", "surprise"); }); if (a.cls == 'T') w_.push_back([&] { flag(a, "T", "treble-bob"); }); if (a.cls == 'D') w_.push_back([&] { a.args.push_back("--delight"); });
  if (char c = a.cls) if (!strchr("STD", c)) w_.push_back([&a, c] { a.args.push_back(c == 's' ? "--strict-delight" : c == 'E' ? "--exercise" : c == 'e' ? "--strict-exercise" : c == 't' ? "--pas-alla-tria" : c == 'q' ? "--pas-alla-tessera" : c == '3' ? "--3rds-place-delight" : "--4ths-place-delight"); });
  auto word = [&](bool on, const char* t) { if (on) w_.push_back([&a, t] { a.args.push_back(t); }); };
  if (a.no78) w_.push_back([&] { flag(a, "f", "no-78s"); }); if (a.sects) w_.push_back([&] { flag(a, "y", "symmetric-sections"); }); if (a.parity) w_.push_back([&] { flag(a, "P", "parity-hack"); }); if (a.prefer) w_.push_back([&] { flag(a, "E", "prefer-restricted-le"); });
  word(a.longle, "--long-le-place"); word(a.anyreg, ANY_REGULAR); word(a.nopoints, "--no-points"); word(a.haspoints, "--has-points"); static const char* hls[] = { "", "--regular-hls", "--cyclic-hle", "--cyclic-hlh", "--rev-cyclic-hle", "--rev-cyclic-hlh" }; word(a.hl, hls[a.hl]);
  if (a.hl || a.prefer || a.parity || a.sects || a.no78 || a.longle || a.anyreg || a.nopoints || a.haspoints) probe("rarer options");
  if (a.use_changes) w_.push_back([&] { string v; for (auto& c : a.changes) { if (!v.empty()) v += ','; v += c.pn('x'); } a.args.push_back("--changes=" + string(a.incl ? "" : "!") + v); });
  while (!w_.empty()) { size_t i = choose(w_.size()); put(w_[i]); w_.erase(w_.begin() + i); }
  return a;
}
const long BUDGET = 60000;
vector<string> lines_of(string const& s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) { v.push_back(s.substr(i)); break; } v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
AppRun session(vector<string> const& args) { AppRun r; r.args = args; r.args.insert(r.args.begin(), "methsearch"); op("%s", show_args(r).c_str()); run_app(r, app_main); return r; }
// Adds conditions that look at particular positions: a mask, a prefix, rows.
vector<string> texts(vector<Method> const& v, int n) { Quiet q; vector<string> t; for (auto& m : v) t.push_back(full_pn(m) + "\t" + str(lead_head(m, n))); return t; }
Row any_row(int n) { Row r = rounds(n); for (int i = n - 1; i > 0; --i) std::swap(r[i], r[choose(i + 1)]); return r; }
// How a set of rows is written: one by one, as a set, as a product, in a file or as what a command writes.
int row_srcs = 0;
vector<string> row_exprs(int n, vector<Row> const& rs, Row const& start, bool& cmds) {
  vector<string> out; auto lit = [&](Row r) { string t = str(r); if (chance(1, 3)) { size_t k = rowx::norm(r).size(); if (k < 2) k = 2; t = t.substr(0, std::max<size_t>(k, 2)); } if (r[0] == 0 && t.size() > 1 && chance(1, 3)) t.erase(0, 1); return t; };
  auto term = [&](Row const& r) { switch (choose(6)) { case 0: { Row x = any_row(n), y = compose(rowx::inv(x), r); return lit(x) + (chance(1, 3) ? " * " : "*") + lit(y); } case 1: { Row x = any_row(n), y = compose(x, r); return lit(x) + "\\" + lit(y); } case 2: { Row x = any_row(n); return lit(compose(r, x)) + "/" + lit(x); } case 3: return "(" + lit(r) + ")"; default: return lit(r); } };
  size_t i = 0; while (i < rs.size()) { size_t k = range(1, rs.size() - i); vector<Row> part(rs.begin() + i, rs.begin() + i + k); i += k; string t;
    int how = choose(5); if (k == 1 && how) { out.push_back(term(part[0])); continue; }
    if (how == 1) { string s; for (auto& r : part) s += str(r) + pick(vector<string>{ "\n", " ", ",", "\r\n" }); string f = sim::fmt("/sim/avoid%d.txt", row_srcs++); io::put(f, s); t = "<(" + f + ")"; }
    else if (how == 2) { string s; for (auto& r : part) s += str(r) + "\n"; string c = sim::fmt("rows %d", row_srcs++); if (!cmds) proc::reset(); cmds = true; auto old = proc::handler; proc::handler = [old, c, s](vector<string> const& av) -> proc::Child { proc::Child k; if (av.size() == 3 && av[2] == c) { k.out = s; return k; } if (old) return old(av); k.exit = 127; return k; }; t = "$(" + c + ")"; }
    else { for (auto& r : part) t += (t.empty() ? "" : chance(1, 3) ? " , " : ",") + term(r); t = "{" + t + "}"; }
    out.push_back(t); }
  return out;
}
// Adds conditions on rows: where to start from, rows to keep out, parts, extents, rows that must match.
bool uses_commands = false;
void gen_truth(Ask& a, vector<Method> const& found) {
  uses_commands = false; row_srcs = 0; if (found.empty()) return; Method const& m = pick(found); int L = a.len; vector<vector<string>> words;
  auto fopt = [&](string const& v) { int w = choose(6); if (w == 0) words.push_back({ "--falseness=" + v }); else if (w == 1) words.push_back({ "-F", v }); else words.push_back({ "-F" + v }); };
  bool level = a.F != 'n' && a.F != 'x' && !(a.F == 'h' && (!a.s || a.hunts != 1));
  if (chance(1, 3)) { a.start_row = any_row(a.n); string t = str(a.start_row); if (chance(1, 4)) t = t.substr(0, std::max<size_t>(2, rowx::norm(a.start_row).size())); fopt("s=" + t); }
  if (level && chance(1, 2)) {
    for (int tries = 0; tries < 6; ++tries) { vector<Row> g; int k = range(1, 2); for (int i = 0; i < k; ++i) { Row r = rounds(a.n); if (chance(1, 3)) { std::swap(r[choose(a.n)], r[choose(a.n)]); std::swap(r[choose(a.n)], r[choose(a.n)]); } else if (chance(1, 2)) { int lo = a.hunts && chance(3, 4) ? a.hunts : 0, w = range(2, a.n - lo); vector<int> c; for (int x = lo; x < a.n; ++x) c.push_back(x); while ((int)c.size() > w) c.erase(c.begin() + choose(c.size())); for (size_t x = 0; x < c.size(); ++x) r[c[x]] = c[(x + 1) % c.size()]; } else { r = any_row(a.n); } g.push_back(r); }
      vector<Row> P; for (auto& r : rowx::closure(g)) P.push_back(rowx::pad(r, a.n)); if (P.empty() || P.size() > 60 || (tries < 5 && (P.size() < 2 || P.size() > 12))) continue; a.parts = P; bool c = uses_commands; for (auto& t : row_exprs(a.n, g, a.start_row, c)) fopt("P=" + t); uses_commands = c; break; }
  }
  if (level && chance(1, 2) && a.N == 1) {
    vector<Row> A; int k = range(1, 3); for (int i = 0; i < k; ++i) { Method const& x = chance(1, 2) ? m : pick(found); Row r = rounds(a.n); int lead = a.F == 'c' && chance(1, 2) ? choose(3) : 0; int upto = chance(1, 4) ? L : choose(L); for (int l = 0; l < lead; ++l) for (auto& c : x) r = apply(r, c); for (int t = 0; t < upto; ++t) r = apply(r, x[t]); r = from_start(a, r); if (!a.parts.empty() && chance(1, 2)) r = compose(pick(a.parts), r); if (chance(1, 8)) r = any_row(a.n); A.push_back(r); }
    for (auto& r : A) a.never.insert(coset(a, r)); bool c = uses_commands; for (auto& t : row_exprs(a.n, A, a.start_row, c)) fopt("r=" + t); uses_commands = c;
  }
  if (chance(1, 3)) {
    std::set<int> used; int k = range(1, 2);
    for (int i = 0; i < k; ++i) { int at = chance(1, 8) ? 0 : range(0, L); if (!used.insert(at).second) continue; Row r = rounds(a.n); for (int t = 0; t < at; ++t) r = apply(r, m[t]); r = from_start(a, r); if (!a.parts.empty()) r = compose(pick(a.parts), r);
      Pat p; string name; if (chance(1, 6)) { for (int t = 0; t < 20 && name.empty(); ++t) { int w = choose(9); auto v = named_music(w, a.n); if (v.size() == 1) { p = v[0]; name = NAMED_MUSIC[w]; } } }
      else if (chance(1, 6)) p = gen_pat(a.n, false);
      else { bool star = false; for (int x = 0; x < a.n; ++x) { int w = choose(5); if (w == 0 && !star) { star = true; p.t.push_back({ '*', {} }); while (x + 1 < a.n && chance(1, 2)) ++x; } else if (w == 1) p.t.push_back({ '?', {} }); else if (w == 2) { Tok t{ '[', { r[x] } }; int b = choose(a.n); if (b != r[x]) t.b.insert(t.b.begin() + choose(2), b); p.t.push_back(t); } else p.t.push_back({ 'b', { r[x] } }); if (!star && x > 1 && chance(1, 10)) break; }
        for (auto& t : p.t) { if (t.k == 'b') p.s += bell_char(t.b[0]); else if (t.k == '[') { p.s += '['; for (int b : t.b) p.s += bell_char(b); p.s += ']'; } else p.s += t.k; } }
      a.rows.push_back({ at, p }); words.push_back({ "--row-match=" + std::to_string(at) + "=" + (name.empty() ? p.s : "<" + name + ">") }); }
  }
  if (a.parts.size() > 1) probe("part_ends"); if (!a.never.empty()) probe("avoided_rows"); if (!a.rows.empty()) probe("row_match");
  while (!words.empty()) { size_t i = choose(words.size()); for (auto& w : words[i]) a.args.push_back(w); words.erase(words.begin() + i); }
}
void gen_positions(Ask& a, vector<Method> const& found) {
  if (found.empty()) return; if (chance(1, 2)) { gen_truth(a, found); if (chance(2, 3)) return; } Method const& m = pick(found);
  if (chance(1, 3)) { int k = range(1, a.len); if (chance(2, 3)) k = std::min(k, 3); a.prefix.assign(m.begin(), m.begin() + k); string s; for (int i = 0; i < k; ++i) { if (i) s += '.'; s += m[i].pn('X'); } a.args.push_back("--prefix=" + s); }
  if (!(a.hunts == 0 && (a.l || a.j || a.w || a.use_changes || a.mirror)) && chance(1, 3)) {
    a.has_mask = true; a.mask.assign(a.len, {}); int w = choose(4); string s; vector<Change> all = all_changes(a.n); vector<int> path = hunt_path(a);
    auto alt = [&](int i) { vector<Change> v = { m[i] }; string t = m[i].pn('X'); Ask b = a; b.has_mask = false; b.prefix.clear(); if (!a.s && !a.k && !a.d && chance(1, 3)) { Change c = pick(all); if (c != m[i] && fits(b, path, i, c)) { v.push_back(c); t = "(" + t + "|" + c.pn('X') + ")"; } } a.mask[i] = v; return t; };
    vector<string> tok(a.len, "?"); int star_from = -1, star_to = -1;
    if (w == 0) { int i = choose(a.len); tok[i] = alt(i); }
    else if (w == 1) { tok[a.len - 1] = alt(a.len - 1); star_from = 0; star_to = a.len - 1; }
    else if (w == 2) { int k = range(1, std::min(a.len, 3)); for (int i = 0; i < k; ++i) if (chance(2, 3)) tok[i] = alt(i); star_from = k; star_to = a.len; }
    else for (int i = 0; i < a.len; ++i) if (chance(1, 3)) tok[i] = alt(i);
    for (int i = 0; i < a.len; ++i) { if (i == star_from) { if (!s.empty()) s += '.'; s += '*'; i = star_to - 1; continue; } if (!s.empty()) s += '.'; s += tok[i]; }
    a.mask_text = s; a.args.push_back(chance(1, 2) ? "-m" + s : "--mask=" + s);
  }
}
string listing(vector<string> const& v) { string s; for (size_t i = 0; i < v.size() && i < 4; ++i) s += (i ? " " : "") + v[i]; if (v.size() > 4) s += " ..."; return s; }
// Everything wanted is there, once; what is there besides is among those left open, once each.
void check_same(vector<string> got, vector<string> want, vector<string> const& open, AppRun const& r, const char* sig) {
  std::sort(got.begin(), got.end()); for (auto& o : open) if (std::binary_search(got.begin(), got.end(), o)) want.push_back(o);
  std::sort(want.begin(), want.end()); if (got == want) return;
  vector<string> extra, missing; std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra)); std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(missing));
  if (!extra.empty()) violation(sim::fmt("%s.extra", sig).c_str(), "%zu found, %zu fit: listed but should not be: %s (%s; stderr \"%s\")", got.size(), want.size(), listing(extra).c_str(), show_args(r).c_str(), quote(r.err, 200).c_str());
  violation(sim::fmt("%s.missing", sig).c_str(), "%zu found, %zu fit: not listed: %s (%s; stderr \"%s\")", got.size(), want.size(), listing(missing).c_str(), show_args(r).c_str(), quote(r.err, 200).c_str());
}
}

namespace {
// The order in which the search tries changes: the cross first, then by the places from the front.
bool before(Change const& a, Change const& b) { vector<int> p = a.places(), q = b.places(); if (p.empty() || q.empty()) return p.empty() && !q.empty(); return p < q; }
bool before(Method const& a, Method const& b) { for (size_t i = 0; i < a.size() && i < b.size(); ++i) { if (before(a[i], b[i])) return true; if (before(b[i], a[i])) return false; } return a.size() < b.size(); }
string loose_pn(Method const& m) { string s; bool prev = true; int style = choose(3); for (auto& c : m) { string t = c.pn("X-x"[style]); bool cr = c.places().empty(); if (!s.empty() && (chance(1, 4) || (!cr && !prev))) s += '.'; s += t; prev = cr; } return s; }
struct Line { string text; bool is_meth = false, want = false, free = false; string shown; };
string payload() { string s; int k = choose(4); for (int i = 0; i < k; ++i) { if (i) s += pick(vector<string>{ " ", "  ", "\t" }); s += pick(vector<string>{ "Plain", "Bob", "x", "12", "é", "5:1.2", "#", "Old Oxford", "$p" }); } return s; }
Line gen_line(Ask const& a, vector<Method> const& found, vector<Method> const& open, bool with_bells, bool need_bells) {
  Line l; int kind = choose(16); int n = a.n; Method m;
  if (kind == 0) { l.text = pick(vector<string>{ "", "   ", "\t" }); return l; }
  if (kind == 1 && with_bells) { int k; do k = range(3, 8); while (k == n); GenMethod g = gen_method(k); l.text = std::to_string(k) + ":" + g.pn + " other"; return l; }   // another number of bells: passed over
  if (kind == 2) { l.text = (need_bells ? std::to_string(n) + ":" : string()) + pick(vector<string>{ "3.q.1", "1.?", "3.(1)", "3=1", "x:3.1" }) + " bad"; l.is_meth = false; l.free = true; return l; }
  if (kind == 3 && need_bells && chance(1, 2)) { l.text = pick(vector<string>{ "-3:3.1", "0:3.1.3", "999999999:1.2", "99999999999999999999:1", ":1.2", "1:1" }) + " odd"; return l; }
  if (kind < 9 && !found.empty()) m = pick(found);
  else if (kind < 12 && !found.empty()) { m = pick(found); int k = range(1, 2); for (int i = 0; i < k; ++i) m[choose(m.size())] = gen_change(n, false); }
  else { m.clear(); int L = a.len; if (chance(1, 4)) L = range(1, 12); for (int i = 0; i < L; ++i) m.push_back(gen_change(n, false)); }
  l.is_meth = true; { Quiet q; int w = wanted(a, m); l.want = w == 1; l.free = w == 2; if (a.len != (int)m.size()) l.want = l.free = false; }
  string pay = payload(); string pn = loose_pn(m);
  l.text = (chance(1, 8) ? " " : "") + string(with_bells && (need_bells || chance(1, 3)) ? std::to_string(n) + ":" : "") + pn; if (!pay.empty()) l.text += pick(vector<string>{ " ", "\t", "  " }) + pay; if (chance(1, 8)) l.text += chance(1, 2) ? " " : "\r";
  while (!pay.empty() && (pay.back() == ' ' || pay.back() == '\t')) pay.pop_back();
  l.shown = full_pn(m) + "\t" + pay; return l;
}
}

#endif
