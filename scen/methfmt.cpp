// P14: methsearch prints for each method exactly what its format, expression and statistics options say.
// A reference evaluator over a generated syntax tree; the tree is written in one of the permitted spellings.
#include "methask.h"
#include <memory>
#include <limits>

namespace {
// ---- facts about a method, from its changes alone
Row row_after(Method const& m, int n, int k) { Row r = rounds(n); for (int i = 0; i < k; ++i) r = apply(r, m[i]); return r; }
vector<vector<int>> cycles(Row const& r) { vector<vector<int>> v; vector<char> seen(r.size()); for (size_t i = 0; i < r.size(); ++i) if (!seen[i]) { vector<int> c; int b = i; do { c.push_back(b); seen[b] = 1; b = r[b]; } while (b != (int)i); v.push_back(c); } return v; }
int order(Row const& r) { int o = 1; for (auto& c : cycles(r)) { int a = o, b = c.size(); while (b) { int t = a % b; a = b; b = t; } o = o / a * (int)c.size(); } return o; }
int max_blows(Method const& m, int n) { int best = 0, L = m.size(); for (int x = 0; x < n; ++x) { int run = 0; for (int t = 0; t < 2 * L; ++t) { run = has_place(m[t % L], x) ? run + 1 : 0; best = std::max(best, run); } } return best >= L ? -1 : best + 1; }
long staticity(Method const& m, int n) { long s = 0; int L = m.size(); for (int x = 0; x + 1 < n; ++x) { vector<char> in(L); bool all = true; for (int i = 0; i < L; ++i) { bool sw = std::find(m[i].sw.begin(), m[i].sw.end(), x) != m[i].sw.end(); in[i] = sw || (has_place(m[i], x) && has_place(m[i], x + 1)); if (!in[i]) all = false; } if (all) return -1; for (int i = 0; i < L; ++i) if (in[i] && in[(i + 1) % L]) ++s; } return s; }
string symmetries(Method const& m) {
  int L = m.size(); string s; bool any = false;
  for (int a = 0; a < L && !any; ++a) { bool ok = true; for (int i = 0; i < L && ok; ++i) ok = m[i] == m[mod(a - i, L)]; any = ok; } if (any) s += 'P';
  any = true; for (auto& c : m) any = any && c == rev(c); if (any) s += 'M';
  if (L % 2 == 0) { any = true; for (int i = 0; i < L && any; ++i) any = m[i] == rev(m[(i + L / 2) % L]); if (any) s += 'G'; }
  any = false; for (int a = 0; a < L && !any; ++a) { bool ok = true; for (int i = 0; i < L && ok; ++i) ok = m[i] == rev(m[mod(a - i, L)]); any = ok; } if (any) s += 'R';
  return s;
}
string old_code(Method const& m, int n) {
  string lh = str(lead_head(m, n)); Change const& c = m.back(); vector<int> pl = c.places(); string p; for (int x : pl) p += bell_char(x);
  static const char* t5[][3] = { { "13254", "13524", "A" }, { "14523", "14253", "B" }, { "12354", "12534", "G" }, { "13245", "13425", "H" }, { "14325", "14235", "J" }, { "12543", "12453", "K" },
    { "15342", "13524", "C" }, { "12435", "14253", "D" }, { "12543", "15234", "E" }, { "14325", "13452", "F" }, { "15432", "15423", "Q" }, { "14523", "14532", "R" }, { "12435", "12453", "S" }, { "12543", "12534", "T" },
    { "14325", "14352", "U" }, { "15342", "15324", "V" }, { "14523", "15423", "M" }, { "15432", "14532", "N" }, { "12435", "14235", "W" }, { "14325", "13425", "X" }, { "12543", "15243", "Y" }, { "15342", "13542", "Z" } };
  static const char* t6[][3] = { { "12", "135264", "G" }, { "16", "135264", "L" }, { "12", "156342", "H" }, { "16", "156342", "M" }, { "12", "164523", "J" }, { "16", "164523", "N" }, { "12", "142635", "K" }, { "16", "142635", "O" },
    { "12", "142563", "P" }, { "12", "154632", "S" }, { "12", "165324", "R" }, { "12", "136245", "Q" }, { "16", "152364", "T" }, { "16", "165243", "V" }, { "16", "146532", "U" }, { "16", "134625", "W" }, { "14", "145362", "X" }, { "14", "162534", "Y" } };
  if (n == 5) { string le = str(row_after(m, n, m.size() - 1)); for (auto& t : t5) if (le == t[0] && lh == t[1]) return t[2]; return "?"; }
  if (n == 6) { for (auto& t : t6) if (p == t[0] && lh == t[1]) return t[2]; return "?"; }
  return "?";
}
// For methods with the treble alone as a hunt bell.
string new_code(Method const& m, int n) {
  Row lh = lead_head(m, n), g = rounds(n); int w = n - 1; for (int k = 0; k < w; ++k) g[1 + k] = 1 + (k == 0 ? 1 : k % 2 == 0 ? k - 2 : k + 2 < w ? k + 2 : k + 1 < w ? k + 1 : k - 1);
  vector<int> pl = m.back().places(); bool two = pl == (n % 2 ? vector<int>{0, 1, n - 1} : vector<int>{0, 1}), nth = pl == (n % 2 ? vector<int>{0} : vector<int>{0, n - 1}); if (!two && !nth) return "z";
  vector<int> pow; Row x = g; int k = 0; for (int i = 1; i < 2 * w; ++i) { if (x == lh) { k = i; break; } x = compose(x, g); } if (!k) return "z";
  string code; if (n % 2 == 0) { static const char* e4[] = { "af" }; static const char* e6[] = { "abef" }; static const char* e8[] = { "abcdef" }; const char* t = n == 4 ? e4[0] : n == 6 ? e6[0] : e8[0]; if (k > (int)strlen(t)) return "z"; code = string(1, t[k - 1]); if (nth) { static const char* from = "abcdef", *to = "ghjklm"; code = string(1, to[strchr(from, code[0]) - from]); } }
  else { if (k == 1) code = two ? "p" : "r"; else if (k == w - 1) code = two ? "q" : "s"; else return "z"; probe("odd_code"); }
  return code;
}
struct Score { Pat p; long h, b; int named = -1; };
// Part of a course that is looked at, and what for.
struct Batch { string type = "course"; bool rounds_ = true; Row row; vector<Score> what; };
struct World { Ask const* a; vector<Batch> music; std::map<Method, string> names; string untitled = "Untitled"; bool filter = false; bool commands = false; mutable int status = 0; mutable vector<string> ran; };
// What a command writes and how it ends, from its text alone.
proc::Child outcome(string const& cmd) {
  uint64_t h = hash("cmd" + cmd); h ^= h >> 29; proc::Child c; static const char* outs[] = { "5", "abc\n", "1\n", "", "0\n", "two\nlines\n", "-3", "\n", "x y\n", "$p\n", "\xc3\xa9\n", "%\\n", "12345\n", "7\n\n" }; c.out = outs[h % 14]; if (h / 14 % 40 == 0) c.out = string(9000, 'q') + "\n"; c.exit = h / 560 % 3 ? 0 : (int)(h / 1680 % 256); if (h / 430080 % 12 == 0) { c.exit = 0; c.sig = 9 + (int)(h / 5160960 % 3) * 3; } return c;
}
struct Meth { Method m; string payload; long number = 0; };
long music(World const& w, Method const& m) {
  int n = w.a->n, L = m.size(); long total = 0; vector<Batch> bs = w.music; if (bs.empty()) { Batch b; b.what.push_back({ Pat(), 1, 1, 5 }); bs.push_back(b); }
  for (auto& b : bs) {
    Row r = b.rounds_ ? rounds(n) : b.row, first = r; vector<Row> rows; string const& t = b.type; bool swapped = t != "course" && t != "lead";
    if (t == "course") do for (auto& c : m) { r = apply(r, c); rows.push_back(r); } while (r != first);
    else if (t == "lead") for (int i = 0; i < L; ++i) { rows.push_back(r); r = apply(r, m[i]); }
    else { if (L % 2) discard(); if (t == "halflead") for (int i = 0; i < L / 2; ++i) { rows.push_back(r); r = apply(r, m[i]); } else if (t == "2halflead") for (int i = L / 2; i < L; ++i) { rows.push_back(r); r = apply(r, m[i]); }
      else { int end = t == "rhalflead" ? L / 2 - 1 : L - 1; rows.push_back(r); for (int i = end - 1; i > end - L / 2; --i) { r = apply(r, m[i]); rows.push_back(r); } } }
    for (auto& q : b.what) { if (t != "course" && q.h != q.b) discard(); (void)swapped; vector<Pat> ps; if (q.named < 0) ps.push_back(q.p); else ps = named_music(q.named, n); for (auto& p : ps) { long k = 0; for (auto& x : rows) { ++k; if (!matches(p, x).empty()) total += k % 2 ? q.h : q.b; } } }
  }
  return total;
}
string padl(string s, int w) { while ((int)s.size() < w) s = " " + s; return s; }

// ---- syntax trees
struct ExprError {}; struct Suppress {}; struct Abort {};
struct Ex; typedef std::shared_ptr<Ex> E;
struct Ex { char k; string s; int n1 = -1, n2 = -1; vector<E> c; };   // k: '`' command (of 't' text s, 'v' direct variable and '[' expression parts), 'i' integer, '"' string, '$' variable s, 'o' operator s, '?' ternary, 'S' suppress, 'A' abort
string prop(World const& w, Meth const& x, string const& v, int n1, int n2, bool width) {
  Ask const& a = *w.a; int n = a.n; Method const& m = x.m; auto num = [&](long k) { return width ? padl(std::to_string(k), n1) : std::to_string(k); };
  switch (v[0]) {
    case 'p': { if (n1 <= 0) return full_pn(m); int e = n2 <= 0 ? n1 : n2; return full_pn(Method(m.begin() + n1 - 1, m.begin() + e)); }
    case 'h': if (n1 < 1 || n1 > (int)m.size()) throw ExprError(); return m[n1 - 1].pn('X');
    case 'r': if (n1 < 0 || n1 > (int)m.size()) throw ExprError(); return str(row_after(m, n, n1));
    case 'l': return str(lead_head(m, n));
    case 'L': return num(m.size()); case 'b': { int b = max_blows(m, n); if (b < 0) discard(); return num(b); } case 'o': return num(order(lead_head(m, n)));
    case 'u': { int k = 0; Row r = lead_head(m, n); for (int i = 0; i < n; ++i) k += r[i] == i; return num(k); } case 'G': return num(cycles(lead_head(m, n)).size()); case 'B': return num(n);
    case 's': { long s = staticity(m, n); if (s < 0) discard(); return num(s); } case 'M': return num(music(w, m)); case '#': return num(x.number);
    case 'y': { for (size_t i = 0; i < m.size(); ++i) if (m[i] == m[(i + 1) % m.size()]) discard(); return symmetries(m); } case 'S': return stage_name(n); case 'D': return old_code(m, n); case 'd': return new_code(m, n);
    case 'a': return x.payload; case 'n': { auto i = w.names.find(m); return i == w.names.end() ? w.untitled : i->second; }
    case 'P': { string s; int p = n1 - 1; s += bell_char(p); for (auto& c : m) { for (int y : c.sw) { if (y == p) { ++p; break; } if (y + 1 == p) { --p; break; } } s += bell_char(p); } return s; }
  }
  if (v == "?") return num(w.status);
  harness_error("unknown variable %s", v.c_str());
}
long to_int(string const& s) { size_t i = 0; if (s.size() && (isspace((unsigned char)s[0]) || isspace((unsigned char)s.back()))) discard(); if (s.size() > 1 && (s[0] == '+' || s[0] == '-')) i = 1; if (i == s.size()) throw ExprError(); for (size_t j = i; j < s.size(); ++j) if (!isdigit((unsigned char)s[j])) throw ExprError(); errno = 0; long v = strtol(s.c_str(), nullptr, 10); if (errno) throw ExprError(); return v; }
string ev(World const& w, Meth const& x, Ex const& e);
long evi(World const& w, Meth const& x, Ex const& e) { return to_int(ev(w, x, e)); }
bool parse_row(string const& s, Row& r) { r.clear(); for (char c : s) { int b = -1; for (int i = 0; i < 33; ++i) if (bell_char(i) == c) b = i; if (b < 0) return false; r.push_back(b); } vector<char> seen(r.size()); for (int b : r) { if (b >= (int)r.size() || seen[b]) return false; seen[b] = 1; } return true; }
string ev(World const& w, Meth const& x, Ex const& e) {
  switch (e.k) {
    case '`': { string cmd; for (auto& p : e.c) { if (p->k == 't') cmd += p->s; else try { cmd += p->k == 'v' ? prop(w, x, p->c[0]->s, p->c[0]->n1, p->c[0]->n2, true) : ev(w, x, *p->c[0]); } catch (ExprError&) { cmd += "<ERROR>"; } } w.ran.push_back(cmd); proc::Child c = outcome(cmd); w.status = c.sig ? 128 + c.sig : c.exit; if (!c.out.empty() && c.out.back() == '\n') c.out.pop_back(); return c.out; }
    case 'i': return std::to_string(to_int(e.s)); case '"': return e.s; case '$': return prop(w, x, e.s, e.n1, e.n2, false); case 'S': throw Suppress(); case 'A': throw Abort();
    case '?': return evi(w, x, *e.c[0]) ? ev(w, x, *e.c[1]) : ev(w, x, *e.c[2]); default:;
  }
  string const& o = e.s; Ex const &l = *e.c[0], &r = *e.c[1];
  if (o == ",") { ev(w, x, l); return ev(w, x, r); }
  if (o == "&&") return evi(w, x, l) && evi(w, x, r) ? "1" : "0"; if (o == "||") return evi(w, x, l) || evi(w, x, r) ? "1" : "0";
  bool ints = !isalpha((unsigned char)o[0]) && o != "." && o != "~~"; string a = ev(w, x, l); if (ints) to_int(a); string b = ev(w, x, r);
  if (o == ".") return a + b;
  if (o == "~~") { Row row; if (a.empty()) discard(); if (!parse_row(a, row) || row.empty()) throw ExprError(); if ((int)row.size() != w.a->n) discard(); Pat p; p.s = b; vector<int> left; for (size_t i = 0; i < b.size(); ++i) { if (b[i] == '*' || b[i] == '?') p.t.push_back({ b[i], {} }); else { Row q; int bl = -1; for (int k = 0; k < w.a->n; ++k) if (bell_char(k) == b[i]) bl = k; if (bl < 0) throw ExprError(); p.t.push_back({ 'b', { bl } }); } } if (minlen(p) > w.a->n) throw ExprError(); return matches(p, row).empty() ? "0" : "1"; }
  if (o == "lt") return a < b ? "1" : "0"; if (o == "gt") return a > b ? "1" : "0"; if (o == "le") return a <= b ? "1" : "0"; if (o == "ge") return a >= b ? "1" : "0"; if (o == "eq") return a == b ? "1" : "0"; if (o == "ne") return a != b ? "1" : "0";
  long p = to_int(a), q = to_int(b), z = 0; bool over = false;
  if (o == "+") over = __builtin_add_overflow(p, q, &z); else if (o == "-") over = __builtin_sub_overflow(p, q, &z); else if (o == "*") over = __builtin_mul_overflow(p, q, &z);
  else if (o == "/" || o == "%") { if (q == 0) throw ExprError(); if (q == -1 && p == std::numeric_limits<long>::min()) over = true; else z = o == "/" ? p / q : p % q; }
  else z = o == "<" ? p < q : o == ">" ? p > q : o == "<=" ? p <= q : o == ">=" ? p >= q : o == "==" ? p == q : p != q;
  if (over) discard(); return std::to_string(z);
}

// ---- generating them
struct Gen { World& w; char kind; char keyword; bool direct_c = false; bool has_number = false; };   // kind: 'R' format, 'H' statistics, 'Q' condition
E mk(char k, string s, vector<E> c = {}) { E e = std::make_shared<Ex>(); e->k = k; e->s = s; e->c = c; return e; }
E var(Gen& g, char want, bool direct) {
  Ask const& a = *g.w.a; E e = mk('$', ""); string ints = "LobuGBsMyyyL", strs = "plrhPSyD"; if (g.kind == 'R') { ints += "##"; } if (direct && g.kind == 'H') strs = "lrhPSyD"; if (a.n > 6) for (auto& c : strs) if (c == 'D') c = 'l';
  if (g.w.commands && g.kind != 'Q') ints += "???"; for (auto& c : ints) if (c == 'y') c = 'o'; if (!g.w.music.empty()) ints += "MM"; if (a.hunts == 1 && !a.all && a.front == 0 && a.back == a.n - 1) strs += "d"; else for (auto& c : strs) if (c == 'D') c = 'l'; if (g.w.filter) strs += "aa"; if (!g.w.names.empty() && !(direct && g.kind == 'H')) strs += "nn"; if (a.F == 'x') for (auto& c : strs) if (c == 'y') c = 'l';
  char c = pick(want == 'i' ? ints : want == 's' ? strs : ints + strs); e->s = string(1, c);
  if (c == 'p' && chance(1, 2)) { e->n1 = range(1, a.len); if (chance(1, 2)) e->n2 = range(e->n1, a.len); }
  if (c == 'h') e->n1 = range(1, a.len); if (c == 'r') e->n1 = range(0, a.len); if (c == 'P') e->n1 = range(1, a.n);
  if (direct && ints.find(c) != string::npos && chance(1, 3)) e->n1 = range(1, 12);
  return e;
}
string word(Gen& g) { string s; int k = choose(4); for (int i = 0; i < k; ++i) s += pick(vector<string>{ "a", "12", " ", "*", "x.y", "é", "#", "-", "Bob", "7", "\t", "1", "%", "'", "\x01", "$", "$p" }); return s; }
E expr(Gen& g, char want, int depth, bool control);
E command(Gen& g, int depth) {
  E e = mk('`', ""); auto t = [&](string const& s) { e->c.push_back(mk('t', s)); }; t("do "); int k = range(0, 4);
  for (int i = 0; i < k; ++i) switch (choose(depth > 0 ? 6 : 5)) { case 0: case 1: { E v = var(g, 'x', g.kind == 'R'); e->c.push_back(mk('v', "", { v })); if (v->s == "p" && chance(1, 2)) t("'"); break; } case 5: e->c.push_back(mk('[', "", { expr(g, chance(1, 2) ? 'i' : 's', depth - 1, false) })); break; default: t(pick(vector<string>{ " ", "-b8 ", "\"", "| musgrep", "(", ")", "$", "2>&1", "\\", "; ", "a", "%", "[", "]", "\t", "x'y'", "12", ",", "?" })); }
  return e;
}
E expr(Gen& g, char want, int depth, bool control) {
  if (g.w.commands && chance(1, 8)) { E c = command(g, depth - 1); return chance(1, 3) ? mk('o', ",", { c, mk('$', "?") }) : c; }
  if (g.keyword && control && chance(1, 12)) return mk(g.keyword, "");
  if (chance(1, 30)) want = want == 'i' ? 's' : 'i';
  if (depth <= 0 || chance(1, 5)) {
    if (chance(1, 2)) return var(g, want, false);
    if (want == 'i') return chance(1, 6) ? mk('"', pick(vector<string>{ "5", "-3", "+7", "007", "", "12x", "1x", "99999999999999999999", "-0" })) : mk('i', chance(1, 12) ? "010" : chance(1, 20) ? "4000000000" : std::to_string(choose(choose(3) ? 13 : 60)));
    return mk('"', word(g));
  }
  auto sub = [&](char w, bool ctl) { return expr(g, w, depth - 1, ctl); };
  switch (choose(want == 'i' ? 10 : 5)) {
    case 0: return mk('?', "", { sub('i', control), sub(want, control), sub(want, control) });
    case 1: return mk('o', ",", { sub(chance(1, 2) ? 'i' : 's', control), sub(want, control) });
    case 2: case 3: case 4: if (want == 's') return mk('o', ".", { sub(chance(1, 3) ? 'i' : 's', false), sub(chance(1, 3) ? 'i' : 's', false) }); return mk('o', pick(vector<string>{ "+", "-", "*", "/", "%" }), { sub('i', false), sub('i', false) });
    case 5: return mk('o', pick(vector<string>{ "<", ">", "<=", ">=", "==", "!=" }), { sub('i', false), sub('i', false) });
    case 6: return mk('o', pick(vector<string>{ "lt", "gt", "le", "ge", "eq", "ne" }), { sub('s', false), sub('s', false) });
    case 7: return mk('o', "&&", { sub('i', control), sub('i', control) });
    case 8: return mk('o', "||", { sub('i', control), sub('i', control) });
    default: { E l = var(g, 's', false); if (l->s != "r") { l->s = "l"; l->n1 = l->n2 = -1; } if (chance(1, 12)) l = mk('"', pick(vector<string>{ "1123", "x", "Q" })); Pat p = gen_pat(g.w.a->n, false); for (auto& t : p.t) if (t.k == '[') return mk('o', "~~", { l, mk('"', "1*") }); if (chance(1, 12)) return mk('o', "~~", { l, mk('"', pick(vector<string>{ "!", "1 2", "Z*" })) }); return mk('o', "~~", { l, mk('"', p.s) }); }
  }
}
int prec(Ex const& e) { if (e.k == '?') return 1; if (e.k != 'o') return 9; string const& o = e.s; if (o == ",") return 0; if (o == "||") return 2; if (o == "&&") return 3; if (o == "~~") return 4; if (o == "==" || o == "!=" || o == "eq" || o == "ne") return 5; if (o == "+" || o == "-" || o == ".") return 7; if (o == "*" || o == "/" || o == "%") return 8; return 6; }
string gap() { return chance(1, 3) ? (chance(1, 6) ? "\t" : chance(1, 6) ? "  " : " ") : ""; }
string vtext(Ex const& e, char sigil) { string s(1, sigil); if (e.n1 >= 0) s += std::to_string(e.n1); if (e.n2 >= 0) s += "," + std::to_string(e.n2); return s + e.s; }
string esc(string const& s, bool in_expr, char q) {   // as it must be written in a format
  string o; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; char b[8];
    if (c == '\\') o += "\\\\"; else if (c == '$') o += chance(1, 4) ? "\\x24" : chance(1, 2) ? "\\$" : chance(1, 2) || in_expr ? "$$" : "%$"; else if (c == '%') o += in_expr ? (chance(1, 2) ? "\\%" : "%") : chance(1, 2) ? "\\%" : chance(1, 2) ? "%%" : "$%"; else if (c == ')' && !in_expr && chance(1, 4)) o += "$)";
    else if (c == '\a') o += "\\a"; else if (c == '\b') o += "\\b"; else if (c == '\f') o += "\\f"; else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t' && chance(1, 2)) o += "\\t"; else if (c == '\v') o += "\\v";
    else if (c < 32 || (chance(1, 12) && (!in_expr || (c != '"' && c != '\'')))) { snprintf(b, sizeof b, chance(1, 2) ? "\\x%02x" : "\\x%02X", c); o += b; } else o += c; }
  (void)q; return o;
}
string text(Ex const& e, int min);
string bare(Ex const& e) { string s = "$("; for (auto& q : e.c) { if (q->k == 'v') s += vtext(*q->c[0], '$'); else if (q->k == '[') s += "$[" + text(*q->c[0], 0) + "]"; else for (char c : q->s) s += c == ')' ? "$)" : c == '$' ? (chance(1, 2) ? "$$" : "\\$") : c == '\\' ? "\\\\" : c == '%' ? "\\%" : string(1, c); } return s + ")"; }
string text(Ex const& e, int min) {
  string s; int p = prec(e);
  switch (e.k) {
    case '`': s = bare(e); break;
    case 'i': s = e.s; break; case '$': s = vtext(e, '$'); break; case 'S': s = "suppress"; break; case 'A': s = "abort"; break;
    case '"': { char q = e.s.find('\'') != string::npos ? '"' : chance(1, 2) ? '"' : '\''; s = string(1, q) + esc(e.s, true, q) + q; break; }
    case '?': s = text(*e.c[0], 2) + gap() + "?" + gap() + text(*e.c[1], 2) + gap() + ":" + gap() + text(*e.c[2], 1); break;
    default: { bool w = isalpha((unsigned char)e.s[0]); s = text(*e.c[0], p) + (w ? " " : gap()) + e.s + (w ? " " : gap()) + text(*e.c[1], p + 1); }
  }
  if (p < min || chance(1, 15)) s = "(" + gap() + s + gap() + ")"; return gap() + s + gap();
}
struct Item { char k; string s; E e; int w = 0; };   // 't' text, '$' variable, '[' expression, 'c' count
typedef vector<Item> Fmt;
string lit() { string s; int k = range(1, 3); for (int i = 0; i < k; ++i) s += pick(vector<string>{ "a", " ", ":", "[", "]", "(", ")", "12", "\t", "\\", "$", "%", "é", "\"", "'", "#", "\x1b", "\a", "\b", "\f", "\r", "\v", "p", ",", "*", "c", "\n" }); return s; }
Fmt gen_fmt(Gen& g) {
  Fmt f; int k = range(g.kind == 'H' ? 2 : 1, 5); bool nl = chance(1, 6);
  for (int i = 0; i < k; ++i) { Item t; switch (choose(g.kind == 'H' ? 7 : 6)) { case 0: case 1: t.k = 't'; t.s = lit(); if (!nl) for (auto& c : t.s) if (c == '\n' || c == '\r') c = '_'; break; case 2: case 3: t.k = '$'; t.e = var(g, 'x', true); break; case 4: case 5: t.k = '['; t.e = expr(g, chance(1, 2) ? 'i' : 's', range(0, 3), true); break; default: t.k = 'c'; t.w = chance(1, 2) ? range(1, 6) : 0; } if (g.w.commands && chance(1, 4)) { t.k = '`'; t.e = command(g, 2); } f.push_back(t); }
  return f;
}
string fmt_text(Fmt const& f) { string s; for (auto& t : f) { if (t.k == 't') s += esc(t.s, false, 0); else if (t.k == '`') s += bare(*t.e); else if (t.k == '$') s += vtext(*t.e, chance(1, 8) ? '%' : '$'); else if (t.k == 'c') s += "$" + (t.w ? std::to_string(t.w) : string()) + "c"; else s += "$[" + text(*t.e, 0) + "]"; } return s; }
// Its text, in pieces split where the count goes.
vector<string> expand(World const& w, Meth const& x, Fmt const& f) { w.status = 0; vector<string> v(1); for (auto& t : f) { if (t.k == 't') v.back() += t.s; else if (t.k == 'c') v.push_back(""); else if (t.k == '$') { try { v.back() += prop(w, x, t.e->s, t.e->n1, t.e->n2, true); } catch (ExprError&) { v.back() += "<ERROR>"; } } else { try { v.back() += ev(w, x, *t.e); } catch (ExprError&) { v.back() += "<ERROR>"; } } } return v; }

// Reads place notation written in any of the ways it can be printed.
bool read_pn(string const& s, int n, Method& m) {
  m.clear(); size_t i = 0; bool first = true;
  while (i <= s.size()) {
    size_t j = s.find(',', i); if (j == string::npos) j = s.size(); string b = s.substr(i, j - i); bool sym = false; if (!b.empty() && (b[0] == '&' || b[0] == '+')) { sym = b[0] == '&'; b = b.substr(1); }
    Method h; string tok; auto flush = [&] { if (tok.empty()) return true; vector<int> pl; for (char c : tok) { int x = -1; for (int k = 0; k < n; ++k) if (bell_char(k) == c) x = k; if (x < 0) return false; pl.push_back(x); } tok.clear(); Change ch; ch.n = n; int at = 0; std::sort(pl.begin(), pl.end()); if (pl[0] % 2) pl.insert(pl.begin(), 0); if ((n - 1 - pl.back()) % 2) pl.push_back(n - 1); for (int p : pl) { if ((p - at) % 2) return false; for (; at < p; at += 2) ch.sw.push_back(at); at = p + 1; } for (; at + 1 < n; at += 2) ch.sw.push_back(at); h.push_back(ch); return true; };
    for (char c : b) { if (c == '.') { if (!flush()) return false; } else if (c == '-' || c == 'x' || c == 'X') { if (!flush()) return false; if (n % 2) return false; h.push_back(cross(n)); } else tok += c; } if (!flush() || h.empty()) return false;
    for (auto& c : h) m.push_back(c); if (sym) for (int k = (int)h.size() - 2; k >= 0; --k) m.push_back(h[k]); i = j + 1; (void)first;
  }
  return true;
}
Row gen_row(int n) { Row r = rounds(n); for (int i = n - 1; i > 0; --i) std::swap(r[i], r[choose(i + 1)]); return r; }
vector<Batch> gen_music(int n, int len, vector<string>& args, bool anywhere) {
  vector<Batch> all; auto put = [&](string const& t) { if (t[0] != '-' && chance(1, 3)) { args.push_back("-M"); args.push_back(t); } else args.push_back(chance(1, 2) ? "-M" + t : "--music=" + t); };
  int nb = chance(1, 2) ? 1 : range(1, 3); Row last; bool have_last = false, many = false;   // many: the last row was one of several
  for (int k = 0; k < nb; ++k) {
    vector<Batch> bs; if (k || (chance(1, 3))) { int nt = range(1, 2); for (int i = 0; i < nt; ++i) { Batch b; b.type = pick(vector<string>{ "course", "lead", "halflead", "2halflead", "2rhalflead", "rhalflead" }); if (len % 2 && b.type != "course") b.type = "lead"; if (i == 0 && k) have_last = have_last; string t = b.type;
        if (!anywhere && (many || chance(2, 3))) { many = chance(1, 4); vector<Row> rs; int nr = many ? range(1, 4) : 1; b.rounds_ = false; if (many && chance(1, 20)) { Row r = gen_row(n); t += "=" + str(r) + "-" + str(r); nr = 0; } for (int j = 0; j < nr; ++j) { b.row = gen_row(n); if (std::find(rs.begin(), rs.end(), b.row) != rs.end()) continue; rs.push_back(b.row); bs.push_back(b); } if (many && nr) { vector<string> ex; bool c = uses_commands; do ex = row_exprs(n, rs, Row(), c); while (ex.size() != 1); uses_commands = c; t += "=" + ex[0]; probe("music_rows"); } else if (nr) { last = b.row; have_last = true; t += "=" + str(b.row); } put(t); continue; } else if (have_last) { b.row = last; b.rounds_ = false; } put(t); bs.push_back(b); } }
    else bs.push_back(Batch());
    int np = range(k == nb - 1 && !(k == 0 && args.empty()) && chance(1, 5) ? 0 : 1, 3); if (chance(1, 4) && k == nb - 1 && (k || bs.empty() || bs[0].type != "course" || bs.size() > 1 || !bs[0].rounds_)) np = 0; vector<Score> v;
    for (int i = 0; i < np; ++i) { Score s; s.h = s.b = 1; string t; if (anywhere || chance(1, 4)) { s.named = choose(n < 4 ? 8 : 9); t = "<" + string(NAMED_MUSIC[s.named]) + ">"; } else { s.p = gen_pat(n, false); t = s.p.s; if (t == "lead" || t == "course") t += "*"; } switch (choose(3)) { case 0: break; case 1: s.h = s.b = (long)range(0, 8) - 2; t = std::to_string(s.h) + ":" + t; break; default: s.h = (long)range(0, 8) - 2; s.b = (long)range(0, 20) - 8; for (auto& b : bs) if (b.type != "course") s.b = s.h; t = std::to_string(s.h) + "," + std::to_string(s.b) + ":" + t; } v.push_back(s); put(t); }
    if (v.empty()) { v.push_back({ Pat(), 1, 1, 5 }); }
    for (auto& b : bs) { b.what = v; all.push_back(b); }
  }
  return all;
}
}

SCENARIO(meth_format, "P14", 6) {
  Ask a = gen_ask(); vector<Method> found, open;
  { Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); if (found.size() > 400 || found.empty()) discard(); }
  World w; w.a = &a; vector<string> extra; AppRun base_in; string stdin_text; w.filter = chance(1, 4); vector<Meth> ms;
  if (chance(1, 3)) w.music = gen_music(a.n, a.len, extra, false);
  // the methods in the order in which they are found
  if (w.filter) { int k = range(1, 10); for (int i = 0; i < k; ++i) { Line l = gen_line(a, found, open, true, false); if (l.free) continue; stdin_text += l.text + "\n"; if (l.is_meth && l.want) { Meth x; string p = l.shown.substr(0, l.shown.find('\t')); if (!read_pn(p, a.n, x.m)) harness_error("%s", p.c_str()); x.payload = l.shown.substr(l.shown.find('\t') + 1); ms.push_back(x); } } extra.push_back("-I"); }
  else {
    vector<string> args = a.args; args.insert(args.end(), extra.begin(), extra.end()); args.push_back("-R$p"); AppRun r = session(args); SIM_CHECK(r.code == 0 && r.threw.empty(), "format.plain", "exit status %d (%s; stderr \"%s\")", r.code, show_args(r).c_str(), quote(r.err).c_str());
    vector<string> got = lines_of(r.out), want, free; for (auto& m : found) want.push_back(full_pn(m)); for (auto& m : open) free.push_back(full_pn(m)); check_same(got, want, free, r, "format.plain");
    for (auto& l : got) { Meth x; if (!read_pn(l, a.n, x.m)) violation("format.plain", "\"%s\" is no place notation", l.c_str()); ms.push_back(x); }
  }
  // a library to name some of them
  bool lib = chance(1, 4); int only = 0; if (lib) { string f = "/sim/names.mtd", t = sim::fmt("*** S%d\n", a.n); int i = 0; for (auto& x : ms) if (chance(1, 2) && i < 30 && !w.names.count(x.m)) { string nm = pick(vector<string>{ "York", "Ely", "Kent", "Aa", "Zz's" }) + std::to_string(i++); w.names[x.m] = nm; t += nm + " z +" + full_pn(x.m) + "\n"; } if (w.names.empty()) lib = false; else { io::put(f, t); extra.push_back(chance(1, 2) ? "-L" + f : "--library=" + f); io::file_policy[f].read_mode = choose(4); io::file_policy[f].eintr_pct = choose(3) * 20; if (chance(1, 3)) { w.untitled = pick(vector<string>{ "", "?", "No Name" }); extra.push_back("--unnamed-name=" + w.untitled); } only = choose(4); if (only > 2) only = 0; if (only) extra.push_back(only == 1 ? "--named" : "--unnamed"); } }
  // what to print
  w.commands = chance(1, 4); bool cmd_fault = false; if (w.commands) { if (!uses_commands) proc::reset(); auto old = proc::handler; proc::handler = [old](vector<string> const& av) { if (av.size() == 3 && av[1] == "-c" && av[2].compare(0, 3, "do ") == 0) return outcome(av[2]); if (old) return old(av); violation("format.command", "it ran \"%s\"", quote(av.back()).c_str()); }; proc::plan.read_mode = choose(4); if (chance(1, 3)) proc::plan.eintr_pct = range(5, 40); if (chance(1, 4)) proc::plan.wait_eintr = range(1, 3); proc::ran.clear(); }
  char kw = chance(1, 4) ? 'S' : chance(1, 8) ? 'A' : 0; int nq = chance(1, 2) ? range(1, 2) : 0; bool has_r = chance(5, 6), has_h = kw != 'A' && chance(1, 3), count = chance(1, 3), quiet = has_h && chance(1, 4);
  vector<string> args = a.args; vector<E> qs; Fmt R, H; bool rnl = true, hnl = true; if (!has_r) { Item i; i.k = '$'; i.e = mk('$', "p"); R.push_back(i); i.k = 't'; i.s = "\t"; R.push_back(i); i.k = '$'; i.e = mk('$', w.filter ? "a" : "l"); R.push_back(i); }
  if (!has_h && !nq) has_r = true;
  { Gen g{ w, 'Q', (char)(kw == 'A' && nq == 1 && chance(1, 2) ? 'A' : 0) }; for (int i = 0; i < nq; ++i) { qs.push_back(expr(g, 'i', range(1, 3), true)); string t = text(*qs.back(), 0); if (chance(1, 2)) extra.push_back("-Q" + t); else { extra.push_back("-Q"); extra.push_back(t); } } if (nq && chance(1, 1)) {} }
  if (has_r) { Gen g{ w, 'R', kw }; if (R.empty()) R = gen_fmt(g); string t = fmt_text(R); if (chance(1, 5)) { rnl = false; t += "\\"; } if (t.empty()) discard(); if (chance(1, 2)) extra.push_back("-R" + t); else { extra.push_back("-R"); extra.push_back(t); } }
  if (has_h) { Gen g{ w, 'H', (char)(kw == 'S' ? 'S' : 0) }; H = gen_fmt(g); string t = fmt_text(H); if (chance(1, 6)) { hnl = false; t += "\\"; } extra.push_back(chance(1, 2) ? "-H" + t : "--frequencies=" + t); }
  if (count) extra.push_back("-C"); if (quiet) extra.push_back("-q");
  for (auto& s : extra) args.push_back(s); string meths; std::map<vector<string>, long> hist; long n = 0; bool aborted = false;
  // the reference
  { Quiet q; for (auto& x : ms) { if (aborted) break; if (only && (only == 1) != (w.names.count(x.m) > 0)) continue; bool ok = true; try { for (auto& e : qs) { bool v; try { v = evi(w, x, *e) != 0; } catch (ExprError&) { v = false; } if (!v) { ok = false; break; } } } catch (Abort&) { aborted = true; break; }
      if (!ok) continue; x.number = ++n; if (!quiet) try { meths += expand(w, x, R)[0]; if (rnl) meths += "\n"; } catch (Suppress&) {} catch (Abort&) { aborted = true; break; }
      if (has_h) try { ++hist[expand(w, x, H)]; } catch (Suppress&) {} } }
  AppRun r; r.args = args; r.args.insert(r.args.begin(), "methsearch"); r.in.data = stdin_text; r.in.mode = choose(4); op("%s", show_args(r).c_str()); if (w.filter) op("stdin %s", quote(stdin_text, 600).c_str());
  bool fail = chance(1, 8); if (fail) { r.out_fail_at = choose(meths.size() + 2); r.out_fail_sync = choose(2); } bool eio = lib && chance(1, 6); if (eio) io::file_policy["/sim/names.mtd"].eio_after = choose(io::get("/sim/names.mtd").size());
  if (w.commands && chance(1, 8)) { cmd_fault = true; switch (choose(3)) { case 0: proc::plan.fail_pipe = range(1, 6); break; case 1: proc::plan.fail_fork = range(1, 6); break; default: proc::plan.eio_after = choose(40); } }
  run_app(r, app_main); state(hash(std::to_string(R.size()) + (char)(kw ? kw : '0') + (char)('0' + nq) + (has_h ? "h" : "") + (lib ? "l" : "") + (w.filter ? "f" : "")));
  string what = show_args(r) + (w.filter ? "; stdin " + quote(stdin_text, 300) : ""); SIM_CHECK(r.threw.empty(), "format.threw", "ended by an exception: %s (%s)", r.threw.c_str(), what.c_str());
  if (fail && r.out_failed) { probe("output error"); SIM_CHECK(r.code != 0, "format.output.silent", "standard output failed, but the exit status is 0 (%s)", what.c_str()); if (!eio) SIM_CHECK(r.out.compare(0, std::min(r.out.size(), meths.size()), meths, 0, std::min(r.out.size(), meths.size())) == 0, "format.output.prefix", "\"%s\" was printed before standard output failed, not a beginning of \"%s\" (%s)", quote(r.out, 600).c_str(), quote(meths, 600).c_str(), what.c_str()); return; }
  if (cmd_fault && (sim::R->faults[F_SPAWN_FAIL] || sim::R->faults[F_PIPE_FAIL] || proc::eio)) { probe("command fault"); SIM_CHECK(r.code != 0 && !r.err.empty(), "format.command.silent", "a command could not be run, but the exit status is %d (%s; stderr \"%s\")", r.code, what.c_str(), quote(r.err, 200).c_str()); return; }
  if (eio && r.code != 0) { SIM_CHECK(!r.err.empty(), "format.library.wordless", "failed without a word (%s)", what.c_str()); probe("library error"); return; }
  if (ms.empty() && r.code == 1) { SIM_CHECK(!r.err.empty() && r.out.empty(), "format.silent", "failed without a word"); return; }
  SIM_CHECK(r.code == 0, "format.refused", "exit status %d (%s; stderr \"%s\")", r.code, what.c_str(), quote(r.err).c_str());
  if (eio && sim::R->faults[F_READ_EIO]) { probe("library cut short"); return; }   // P01: a library that fails is a beginning of itself
  string out = r.out; SIM_CHECK(out.compare(0, meths.size(), meths) == 0, "format.text", "for %ld methods it printed \"%s\", not \"%s\" (%s)", n, quote(out.substr(0, meths.size() + 40), 1500).c_str(), quote(meths, 1500).c_str(), what.c_str()); out = out.substr(meths.size());
  if (w.commands) { vector<string> mine; for (auto& c : proc::ran) if (c.compare(0, 3, "do ") == 0) mine.push_back(c); if (mine != w.ran) { size_t i = 0; while (i < mine.size() && i < w.ran.size() && mine[i] == w.ran[i]) ++i; violation("format.commands", "command %zu run is \"%s\", not \"%s\" (%s)", i, i < mine.size() ? quote(mine[i], 200).c_str() : "(none)", i < w.ran.size() ? quote(w.ran[i], 200).c_str() : "(none)", what.c_str()); } SIM_CHECK(proc::unreaped() == 0 && proc::open_fds() == 0, "format.command.left", "%d processes and %d files left behind", proc::unreaped(), proc::open_fds()); if (!mine.empty()) probe("commands"); }
  if (aborted) { probe("aborted"); nontrivial(); if (!count) SIM_CHECK(out.empty(), "format.abort", "the search was aborted, but \"%s\" was printed too (%s)", quote(out).c_str(), what.c_str()); else { long k; SIM_CHECK(sscanf(out.c_str(), n == 1 && !out.empty() && out[0] != '\n' ? "Found %ld methods\n" : "\nFound %ld methods\n", &k) == 1 || sscanf(out.c_str(), "Found %ld methods\n", &k) == 1, "format.abort", "the search was aborted, but \"%s\" was printed (%s)", quote(out).c_str(), what.c_str()); SIM_CHECK(k == n || k == n - 1, "format.abort", "%ld methods were found before the search was aborted, the count says %ld", n, k); } return; }
  if (has_h) {
    if (n && !quiet) { SIM_CHECK(!out.empty() && out[0] == '\n', "format.blank", "no blank line between methods and statistics: \"%s\" (%s)", quote(out).c_str(), what.c_str()); out = out.substr(1); }
    string tail = count ? (n ? "\nFound " : "Found ") + std::to_string(n) + " methods\n" : ""; SIM_CHECK(out.size() >= tail.size() && out.compare(out.size() - tail.size(), string::npos, tail) == 0, "format.count", "the output ends with \"%s\", not \"%s\" (%s)", quote(out.substr(out.size() > 60 ? out.size() - 60 : 0)).c_str(), quote(tail).c_str(), what.c_str()); out = out.substr(0, out.size() - tail.size());
    vector<string> left; string all; for (auto& h : hist) { string s; size_t i = 0; for (auto& t : H) { if (t.k == 'c') { } } vector<int> ws; for (auto& t : H) if (t.k == 'c') ws.push_back(t.w); for (i = 0; i < h.first.size(); ++i) { if (i) s += padl(std::to_string(h.second), ws[i - 1]); s += h.first[i]; } if (hnl) s += "\n"; left.push_back(s); all += s; }
    bool same = all.size() == out.size(); if (same) { std::map<string, int> m; for (auto& s : left) ++m[s]; size_t pos = 0; long steps = 0; std::function<bool()> go = [&]() -> bool { if (++steps > 20000) return true; if (pos == out.size()) return true; for (auto& x : m) if (x.second && !x.first.empty() && out.compare(pos, x.first.size(), x.first) == 0) { --x.second; pos += x.first.size(); if (go()) return true; pos -= x.first.size(); ++x.second; } return false; }; same = go(); }
    SIM_CHECK(same, "format.stats", "the statistics over %ld methods are \"%s\", not (in some order) \"%s\" (%s)", n, quote(out, 1200).c_str(), quote(all, 1200).c_str(), what.c_str()); if (hist.size() > 1) probe("several statistics");
  } else { string tail = count ? (n && !quiet ? "\nFound " : "Found ") + std::to_string(n) + " methods\n" : ""; SIM_CHECK(out == tail, "format.tail", "after the methods it printed \"%s\", not \"%s\" (%s)", quote(out).c_str(), quote(tail).c_str(), what.c_str()); }
  if (n) nontrivial(); if (nq && n < (long)ms.size() && n) probe("some rejected"); if (lib) probe("named"); if (w.filter && n) probe("payloads");
}

// Place notation in each of the printed styles reads back to the method it is printed for.
SCENARIO(meth_pn, "P14", 2) {
  Ask a = gen_ask(); vector<Method> found, open; { Quiet q; if (!enumerate(a, found, open, BUDGET)) discard(); if (found.size() > 400 || found.empty()) discard(); }
  vector<string> args = a.args, opts; bool dots = false, ext = false, nosym = false, plus = false; int cr = '-'; if (chance(3, 4)) { if ((dots = chance(1, 2))) opts.push_back(pick(vector<string>{ "dots", "." })); if ((ext = chance(1, 2))) opts.push_back(pick(vector<string>{ "external", "ext" })); switch (choose(3)) { case 1: cr = 'x'; opts.push_back(pick(vector<string>{ "lower-case", "lcross", "x" })); break; case 2: cr = 'X'; opts.push_back(pick(vector<string>{ "upper-case", "ucross", "X" })); break; default:; } switch (choose(4)) { case 1: opts.push_back(pick(vector<string>{ "std-symmetry", "std-sym" })); break; case 2: nosym = true; opts.push_back(pick(vector<string>{ "no-symmetry", "no-sym" })); break; default:; } if ((plus = chance(1, 3))) opts.push_back(pick(vector<string>{ "plus-prefix", "plus", "+" })); }
  if (!opts.empty()) { string s; for (auto& o : opts) s += (s.empty() ? "" : ",") + o; args.push_back("--pn-format=" + s); }
  args.push_back("-R$p\\t$q\\t$Q\\t$1q\\t$1," + std::to_string(a.len) + "q"); AppRun r = session(args); SIM_CHECK(r.code == 0 && r.threw.empty(), "pn.refused", "exit status %d (%s; stderr \"%s\")", r.code, show_args(r).c_str(), quote(r.err).c_str());
  vector<string> ps, want, free; for (auto& l : lines_of(r.out)) {
    vector<string> f; size_t i = 0; for (;;) { size_t j = l.find('\t', i); f.push_back(l.substr(i, j == string::npos ? j : j - i)); if (j == string::npos) break; i = j + 1; } SIM_CHECK(f.size() == 5, "pn.fields", "\"%s\"", quote(l).c_str()); ps.push_back(f[0]);
    Method m, q, le; SIM_CHECK(read_pn(f[0], a.n, m), "pn.full", "\"%s\"", f[0].c_str()); for (int k : { 1, 4 }) { SIM_CHECK(read_pn(f[k], a.n, q) && q == m, "pn.concise", "%s is written \"%s\", which is %s (%s)", f[0].c_str(), f[k].c_str(), full_pn(q).c_str(), show_args(r).c_str()); }
    SIM_CHECK(read_pn(f[3], a.n, q) && q.size() == 1 && q[0] == m[0], "pn.change", "the first change of %s is written \"%s\"", f[0].c_str(), f[3].c_str());
    if (nosym) SIM_CHECK(f[1].find('&') == string::npos, "pn.sym", "\"%s\" uses symmetry (%s)", f[1].c_str(), show_args(r).c_str()); if (!plus) SIM_CHECK(f[1].find('+') == string::npos, "pn.plus", "\"%s\" (%s)", f[1].c_str(), show_args(r).c_str()); else { size_t b = 0; for (;;) { SIM_CHECK(f[1][b] == '&' || f[1][b] == '+', "pn.plus", "a block of \"%s\" has no prefix (%s)", f[1].c_str(), show_args(r).c_str()); b = f[1].find(',', b); if (b == string::npos) break; ++b; } }
    for (char c : string("-xX")) if (c != cr) SIM_CHECK(f[1].find(c) == string::npos, "pn.cross", "\"%s\" writes the cross as %c (%s)", f[1].c_str(), c, show_args(r).c_str());
    if (ext) { string t; for (char c : f[1]) { if (strchr(".,&+-xX", c)) { if (!t.empty()) { bool okk = false; for (auto& ch : m) if (ch.pn() == t) okk = true; SIM_CHECK(okk, "pn.external", "\"%s\" leaves out external places (%s)", f[1].c_str(), show_args(r).c_str()); } t.clear(); } else t += c; } }
    if (dots) for (size_t k = 1; k < f[1].size(); ++k) if (f[1][k] == cr || f[1][k - 1] == cr) { SIM_CHECK(strchr(".,&+", f[1][k]) || strchr(".,&+", f[1][k - 1]), "pn.dots", "\"%s\" has no dot beside a cross (%s)", f[1].c_str(), show_args(r).c_str()); }
  }
  for (auto& m : found) want.push_back(full_pn(m)); for (auto& m : open) free.push_back(full_pn(m)); check_same(ps, want, free, r, "pn"); nontrivial();
}

// Whatever a format or an expression says, the program ends by itself, with words if it refuses.
SCENARIO(meth_mangled, "P14", 3) {
  Ask a; a.n = range(3, 6); a.args = { "-b" + std::to_string(a.n) }; a.len = a.n * 2; vector<Method> found; World w; a.l = 1; w.a = &a; a.args.push_back("-l1"); a.args.push_back("-s"); if (chance(1, 2)) { a.args.push_back("-p2"); }
  Gen g{ w, 'R', (char)(chance(1, 4) ? 'S' : 0) }; auto mangle = [&](string s) { int k = choose(4); for (int i = 0; i < k; ++i) { size_t p = choose(s.size() + 1); switch (choose(4)) { case 0: if (p < s.size()) s.erase(p, range(1, 3)); break; case 1: s.insert(p, pick(vector<string>{ "$", "%", "[", "]", "(", ")", "\\", "\\x", "\\x2", "$[", "$(", "99", ",", "5", "?", ":", "&&", "~~", "\"", "'", "$?", "$1,", "$99999999999h", "$3P", "$9P", "$99r", "$[1", "suppress", "abort", "$V", "$U", "$C", "$F", "$N", "$i", "$s", "$T", "#", "lt", "0", "/0", "%0", "9223372036854775807", "-", " ", "\t", "\n", "*", "$0*", "$7*", "x", "é" })); break; case 2: s = s.substr(0, p); break; default: if (p < s.size()) s[p] = pick(string("$[](){}\\%,?:.\"'0123456789 lpQ&|<>=!~*/+-#\n")); } } string t; for (size_t i = 0; i < s.size(); ++i) { if (s[i]) t += s[i]; } return t; };
  vector<string> args = a.args; bool any = false; for (int k = 0; k < 3; ++k) if (chance(1, 2) || (k == 2 && !any)) { any = true; if (k == 1) { g.kind = 'Q'; args.push_back("-Q"); args.push_back(mangle(text(*expr(g, 'i', 3, true), 0))); } else { g.kind = k ? 'R' : 'H'; args.push_back(k ? "-R" : "-H"); args.push_back(mangle(fmt_text(gen_fmt(g)))); } }
  proc::reset(); proc::handler = [](vector<string> const& av) { return outcome(av.back()); };
  if (chance(1, 4)) args.push_back("-C"); AppRun r = session(args); SIM_CHECK(r.threw.empty(), "mangled.threw", "ended by an exception: %s (%s)", r.threw.c_str(), show_args(r).c_str());
  SIM_CHECK(r.code == 0 || r.code == 1, "mangled.status", "exit status %d (%s)", r.code, show_args(r).c_str()); if (r.code) { SIM_CHECK(!r.err.empty(), "mangled.wordless", "failed without a word (%s)", show_args(r).c_str()); probe("refused"); } else nontrivial();
}

// A filter that is not told how many bells there are takes methods on any number of them.
SCENARIO(meth_stages, "P14", 2) {
  vector<int> stages; int ns = range(1, 4); for (int i = 0; i < ns; ++i) stages.push_back(pick(vector<int>{ 6, 5, 4, 7, 8, 10, 12, 3 })); int lo = *std::min_element(stages.begin(), stages.end());
  std::map<int, Ask> asks; for (int n : stages) { asks[n].n = n; asks[n].all = true; asks[n].F = 'x'; } vector<std::pair<int, Meth>> ms; int k = range(1, 10), shortest = 99; string in;
  for (int i = 0; i < k; ++i) { int n = pick(stages); Meth x; int L = chance(1, 2) ? range(1, 4) * 2 : range(1, 9); for (int j = 0; j < L; ++j) x.m.push_back(gen_change(n, false)); shortest = std::min(shortest, L); x.payload = payload(); in += std::to_string(n) + ":" + loose_pn(x.m); if (!x.payload.empty()) in += " " + x.payload; in += "\n"; while (!x.payload.empty() && (x.payload.back() == ' ' || x.payload.back() == '\t')) x.payload.pop_back(); x.number = i + 1; ms.push_back({ n, x }); }
  Ask lowest = asks[lo]; lowest.len = shortest; vector<string> args = { "-I", "-U0", "-A", "-Fx" }; World w; w.a = &lowest; w.filter = true; if (chance(1, 2)) w.music = gen_music(lo, 2, args, true); bool dflt = w.music.empty(); if (dflt) { Batch b; b.what.push_back({ Pat(), 1, 1, 5 }); w.music.push_back(b); }
  Gen g{ w, 'R', 0 }; Fmt f = gen_fmt(g); string t = fmt_text(f); if (t.empty() || t.back() == '\\') discard(); args.push_back("-R" + t); AppRun r; r.args = args; r.args.insert(r.args.begin(), "methsearch"); r.in.data = in; r.in.mode = choose(4); op("%s", show_args(r).c_str()); op("stdin %s", quote(in, 900).c_str());
  string want; { Quiet q; for (auto& m : ms) { World v = w; v.a = &asks[m.first]; want += expand(v, m.second, f)[0] + "\n"; } }
  run_app(r, app_main); string what = show_args(r) + "; stdin " + quote(in, 300); SIM_CHECK(r.threw.empty(), "stages.threw", "ended by an exception: %s (%s)", r.threw.c_str(), what.c_str());
  SIM_CHECK(r.code == 0, "stages.refused", "exit status %d (%s; stderr \"%s\")", r.code, what.c_str(), quote(r.err).c_str()); SIM_CHECK(r.out == want, "stages.text", "it printed \"%s\", not \"%s\" (%s)", quote(r.out, 900).c_str(), quote(want, 900).c_str(), what.c_str()); nontrivial(); std::set<int> used; for (auto& m : ms) used.insert(m.first); if (used.size() > 1) probe("several stages");
}
