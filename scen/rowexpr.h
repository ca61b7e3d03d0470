// Reference model of row expressions (methsearch manual, "Row expressions", "Multiple rows"): generated as trees, written
// out as text with the precedences the manual gives, evaluated here as sets of rows.
#ifndef VERIF_ROWEXPR_H
#define VERIF_ROWEXPR_H
#include "common.h"
#include "simproc.h"
#include <memory>
namespace rowx {
using namespace sim; using std::string; using std::vector; using ref::Row;
typedef vector<Row> Rows;
inline Row pad(Row r, size_t n) { while (r.size() < n) r.push_back(r.size()); return r; }
inline Row norm(Row r) { while (r.size() > 1 && r.back() == (int)r.size() - 1) r.pop_back(); return r; }
inline Row mul(Row a, Row b) { size_t n = std::max(a.size(), b.size()); return ref::compose(pad(a, n), pad(b, n)); }
inline Row inv(Row const& a) { Row r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[a[i]] = i; return r; }
inline Row power(Row a, long n) { if (n < 0) { a = inv(a); n = -n; } Row r = ref::rounds(a.size()); for (long i = 0; i < n; ++i) r = mul(r, a); return r; }
inline Rows closure(Rows const& g) { size_t n = 1; for (auto& x : g) n = std::max(n, x.size()); std::set<Row> s; Rows st{ref::rounds(n)}; s.insert(st[0]); while (!st.empty()) { Row a = st.back(); st.pop_back(); for (auto& x : g) { Row c = mul(a, x); if (s.insert(c).second) { st.push_back(c); if (s.size() > 400) return {}; } } } return Rows(s.begin(), s.end()); }

enum K { ROW, SET, GROUP, FILE_, STDIN, EXEC, MUL, DIV, LDIV, CONJ, POW, DIFF };
struct Node { K k; vector<std::shared_ptr<Node>> kids; string text; long n = 0; Rows rows; bool plural = false, stdin_ = false; };
typedef std::shared_ptr<Node> P;
inline bool has_stdin(P p) { if (p->k == STDIN) return true; for (auto& c : p->kids) if (has_stdin(c)) return true; return false; }

struct Gen {
  int n;                       // bells
  int budget = 160;            // rows an expression may have
  bool changes = false;        // -C: changes allowed, rows are full
  bool uniform = true;         // every literal on n bells
  bool allow_stdin = true, allow_files = true, allow_exec = true, single_stream = false, streams = false;
  string in; bool in_used = false; int nfile = 0;
  std::map<string, string> cmds;  // what each command writes
  vector<string> stream_paths; string sure_exec; // a place whose every row is needed
  int active_bells() { return n; }
  Row gen_row() { int m = uniform ? n : range(2, n); Row r = ref::rounds(m); int lo = chance(1, 2), hi = m; if (chance(1, 3) && m > 4) hi = 4 + choose(m - 3); int k = choose(5); if (k == 4) { for (int i = hi - 1; i > lo; --i) std::swap(r[i], r[lo + choose(i - lo + 1)]); } else for (int i = 0; i < k; ++i) { int a = lo + choose(hi - lo), b = lo + choose(hi - lo); std::swap(r[a], r[b]); } return r; }
  string lit(Row const& r0, bool at_power, bool bare) {
    if (changes) return ref::str(r0);
    Row r = r0; if (!bare) { Row m = norm(r); size_t k = m.size() + choose(r.size() - m.size() + 1); if (!chance(1, 2)) k = r.size(); r.resize(k); }
    string s = ref::str(r); if (!bare && r[0] == 0 && r.size() > 1 && chance(1, 3)) s.erase(0, 1);
    if (at_power && s.size() == 1) s = ref::str(pad(r, 2)).substr(0, std::max<size_t>(2, r.size()));
    return s;
  }
  string stream(Rows const& v) {
    static const char* seps[] = { "\n", " ", ",", ";", ":", "\t", "\r\n", "\n\n", ", ", "\n " }; int mode = choose(3); string s; if (chance(1, 6)) s = "\xef\xbb\xbf";
    if (mode == 2 && chance(1, 3)) s += seps[choose(10)];
    for (size_t i = 0; i < v.size(); ++i) { s += ref::str(v[i]); if (i + 1 < v.size()) s += mode == 0 ? "\n" : mode == 1 ? seps[choose(10)] : seps[v.size() % 10]; }
    if (v.empty() || !chance(1, 4)) s += "\n"; return s;
  }
  Rows some_rows(int mx) { Rows v; std::set<Row> seen; int k = choose(mx + 1); for (int i = 0; i < k; ++i) { Row r = gen_row(); if (seen.insert(norm(r)).second) v.push_back(r); } return v; }
  P leaf_row() { P p(new Node); p->k = ROW; if (changes && chance(1, 2)) { ref::Change c = ref::gen_change(n, true); p->rows = { ref::apply(ref::rounds(n), c) }; p->text = c.places().empty() ? (chance(1, 2) ? "x" : "X") : c.pn(); } else { Row r = gen_row(); p->rows = { r }; } return p; }
  P gen(int depth, int& left) {
    P p(new Node); unsigned c = choose(depth <= 0 ? 6 : 18);
    if (c >= 8) {
      static const K ops[] = { MUL, DIV, LDIV, CONJ, POW, DIFF, MUL, DIV, LDIV, DIFF }; p->k = ops[c - 8];
      if (p->k == POW) { p->kids = { gen(depth - 1, left) }; p->n = (int)choose(14) - 5; if (chance(1, 8)) p->n = 44 - (int)choose(2) * 34; }
      else p->kids = { gen(depth - 1, left), gen(depth - 1, left) };
      eval(p); return p;
    }
    if (c == 6 || (c == 4 && depth > 0)) { p->k = SET; int k = range(1, 4); for (int i = 0; i < k; ++i) p->kids.push_back(gen(depth - 1, left)); }
    else if (c == 7 || c == 5) { p->k = GROUP; int k = range(1, 2); for (int i = 0; i < k; ++i) p->kids.push_back(depth > 1 ? gen(depth - 2, left) : leaf_row()); }
    else if (c == 3 && streams) {
      p->rows = some_rows(range(1, 12)); int w = choose(3); if (w == 2 && (in_used || !allow_stdin)) w = 0;
      if (w == 2) { p->k = STDIN; in_used = true; in = stream(p->rows); p->text = chance(1, 4) ? "<( - )" : "<(-)"; }
      else if (w == 1 && allow_exec) { p->k = EXEC; string cmd = fmt("rows %d", (int)cmds.size()); string s; for (auto& r : p->rows) { s += ref::str(r); static const char* sp[] = { "\n", " ", "\n", ", ", "\r\n" }; s += sp[choose(5)]; } if (chance(1, 3)) while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); cmds[cmd] = s; p->text = "$(" + cmd + ")"; }
      else { p->k = FILE_; string f = fmt("/sim/rows%d.txt", nfile++); io::put(f, stream(p->rows)); stream_paths.push_back(f); p->text = "<(" + string(chance(1, 4) ? " " : "") + f + ")"; }
      p->plural = true;
    } else return leaf_row();
    eval(p); return p;
  }
  static bool contains(Rows const& v, Row const& r) { Row m = norm(r); for (auto& x : v) if (norm(x) == m) return true; return false; }
  bool too_big = false, empty_gen = false;
  void eval(P p) {
    Rows r; auto L = [&]() -> Rows& { return p->kids[0]->rows; }; auto Rr = [&]() -> Rows& { return p->kids[1]->rows; };
    switch (p->k) {
      case SET: for (auto& k : p->kids) for (auto& x : k->rows) r.push_back(x); break;
      case GROUP: { Rows g; for (auto& k : p->kids) for (auto& x : k->rows) g.push_back(x); if (g.empty()) empty_gen = true; r = closure(g); if (r.empty()) too_big = true; break; }
      case MUL: for (auto& a : L()) for (auto& b : Rr()) r.push_back(mul(a, b)); break;
      case DIV: for (auto& a : L()) for (auto& b : Rr()) r.push_back(mul(a, inv(b))); break;
      case LDIV: for (auto& a : L()) for (auto& b : Rr()) r.push_back(mul(inv(a), b)); break;
      case CONJ: for (auto& a : L()) for (auto& b : Rr()) r.push_back(mul(mul(inv(b), a), b)); break;
      case POW: for (auto& a : L()) r.push_back(power(a, p->n)); break;
      case DIFF: for (auto& a : L()) if (!contains(Rr(), a)) r.push_back(a); break;
      default: return;
    }
    if ((int)r.size() > budget * 4) too_big = true;
    p->rows = r;
  }
  string sp() { return chance(1, 8) ? " " : ""; }
  static int level(P p) { switch (p->k) { case DIFF: return 0; case MUL: case DIV: case LDIV: return 1; case CONJ: case POW: return 2; default: return 3; } }
  string paren(P p, bool need, bool at_power = false) { if (need || (level(p) == 3 ? chance(1, 30) : chance(1, 8))) return "(" + sp() + text(p) + sp() + ")"; return text(p, at_power); }
  // a group whose first generator starts with a parenthesis needs a space, and so does a set difference before a literal number
  string text(P p, bool at_power = false) {
    switch (p->k) {
      case ROW: return p->text.empty() ? lit(p->rows[0], at_power, false) : at_power && p->text.size() == 1 && isdigit((unsigned char)p->text[0]) ? "(" + p->text + ")" : p->text;
      case FILE_: case STDIN: case EXEC: return p->text;
      case SET: case GROUP: { string s; for (auto& k : p->kids) { if (!s.empty()) s += sp() + "," + sp(); s += text(k); } if (p->k == SET) return "{" + sp() + s + sp() + "}"; return "<" + (s[0] == '(' ? string(" ") : sp()) + s + sp() + ">"; }
      case DIFF: return paren(p->kids[0], false) + sp() + "-" + sp() + paren(p->kids[1], level(p->kids[1]) <= 0);
      case MUL: case DIV: case LDIV: return paren(p->kids[0], level(p->kids[0]) < 1) + sp() + (p->k == MUL ? "*" : p->k == DIV ? "/" : "\\") + sp() + paren(p->kids[1], level(p->kids[1]) <= 1);
      case CONJ: return paren(p->kids[0], level(p->kids[0]) <= 2) + sp() + "^" + sp() + paren(p->kids[1], level(p->kids[1]) < 2, true);
      case POW: { string e; if (p->n < 0) e = fmt("-%s%ld", sp().c_str(), -p->n); else if (p->n > 9 ? p->n != 10 && p->n != 44 || changes : chance(1, 4)) e = fmt("+%ld", p->n); else e = fmt("%ld", p->n); return paren(p->kids[0], level(p->kids[0]) <= 2) + sp() + "^" + sp() + e; }
    }
    return "";
  }
};
// leaves that are sets
inline int plurals(P p) { if (p->k == GROUP) return 2; if (p->k == FILE_ || p->k == STDIN || p->k == EXEC) return 1; if (p->k == DIFF) return 2; int t = p->k == SET ? (int)p->kids.size() > 1 ? 2 : 0 : 0; for (auto& c : p->kids) t += plurals(c); return t; }
}
#endif
