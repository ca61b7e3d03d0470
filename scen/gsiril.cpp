// P12: the touch prover program: its verdict, output and exit status against a reference interpreter of its language.
// P13: the same program when its input, its storage, its memory or its work limit fails.
#include "common.h"
#include "pattern.h"
#include "simapp.h"
#include "libmodel.h"
#include <memory>
using namespace ref; using namespace sim;
int app_main(int argc, char** argv);

namespace {
struct Node; typedef std::shared_ptr<Node> E;
struct Node { char k; string s; long n = 0; vector<Change> pn; Row row; Pat pat; vector<E> kid; bool nonl = false, ab = false; int style = 0; };
E mk(char k, vector<E> kid = {}) { auto e = std::make_shared<Node>(); e->k = k; e->kid = kid; return e; }
struct Err { string what; }; struct Abort {}; struct Break {};
struct Stmt; typedef std::shared_ptr<Stmt> S;
struct Stmt { char k; string s; E e; long a = 0, b = 0; Row row; Pat pat; vector<Pat> pats; vector<E> es; vector<vector<S>> body; vector<E> conds; string text; };

// ------------------------------------------------------------------------------------------------- the interpreter
inline bool is_fn(Pat const& p) { return p.t.empty() && !p.s.empty() && p.s.back() == ')'; }
struct World {
  std::map<string, E> sym; int bells = 0, extents = 1; Row rounds_; long min = 0, max = 0; bool has_minmax = false; string mask = "*"; Pat maskp; bool has_mask = false; vector<Pat> music;
  bool failed = false, done = false, everyrow_only = false, prove_one = false, trace_all = false, determine = false, interactive = false, filter = false; int quiet = 0; vector<string> trace; string out; long steps = 0; bool ms = false; E first;
  std::map<string, vector<S>> files; bool no_import = false; long proofs = 0, aborts = 0, clones = 0;
  void define(string const& n, E e) { bool had = sym.count(n); sym[n] = e; if (!had && !first) first = e; }
  void line() { Quiet q; int len = bells; if (has_mask) { auto m = matches(maskp, rounds(bells)); if (!m.empty()) len = m[0].size(); } E e = mk('S'); e->s = string(len, '-'); sym["__line__"] = e; }
  void set_bells(int b) { if (b > (int)rounds_.size()) { for (int i = rounds_.size(); i < b; ++i) rounds_.push_back(i); } else if (b < (int)rounds_.size()) rounds_ = rounds(b); bells = b; line(); }
};
struct Ctx {
  World* w; std::map<string, E> dsym; Row r, last; std::map<Row, int> rows; long size = 0, dups = 0, falsec = 0; int max; long maxlen; bool proving = true; Ctx* parent = nullptr; bool out = true, silent; long music = 0;
  Ctx(World& w) : w(&w), max(w.extents), maxlen(w.max), silent(w.everyrow_only || w.filter || w.quiet >= 2) { r = w.rounds_; for (int i = r.size(); i < w.bells; ++i) r.push_back(i); }
};
void tick(Ctx& c) { if (++c.w->steps > 30000) discard(); }
E lookup(Ctx& c, string const& n) { auto i = c.dsym.find(n); if (i != c.dsym.end()) return i->second; auto j = c.w->sym.find(n); if (j == c.w->sym.end()) throw Err{"Unknown symbol " + n}; return j->second; }
void exec(E const& e, Ctx& c, int dir); long ieval(E const& e, Ctx& c); bool beval(E const& e, Ctx& c); string seval(E const& e, Ctx& c, bool* nonl = nullptr); E eval(E const& e, Ctx& c); vector<Change> pneval(E const& e, Ctx& c);
Ctx clone(Ctx& c) { Ctx d(c); d.max = -1; d.maxlen = 0; d.silent = true; d.out = false; d.parent = &c; c.w->clones++; if (c.size > 3000) discard(); return d; }
void put(Ctx& c, string const& s) { if (!c.silent && c.out) c.w->out += s; }
void exec_sym(Ctx& c, string const& n, int dir = 1) {
  if (c.out && c.w->trace_all && n != "everyrow") c.w->out += str(c.r) + "\t" + n + "\n";
  else if (c.out) for (auto& t : c.w->trace) if (t == n) { c.w->out += str(c.r) + (c.w->trace.size() > 1 || c.w->trace_all ? "\t" + n : "") + "\n"; break; }
  exec(lookup(c, n), c, dir);
}
bool isrounds(Ctx& c) { auto i = c.rows.find(c.r); return c.r == c.w->rounds_ && (i == c.rows.end() ? 0 : i->second) == c.w->extents; }
// How many times a row counts for one item of a music statement: a pattern, or runs(len, dir) at a place, or crus().
long scores(Pat const& p, Row const& r) {
  if (!is_fn(p)) return !matches(p, r).empty();
  int b = r.size(); if (p.s == "crus()") { if (b < 6 || r[4] < 3 || r[4] > 5 || r[5] < 3 || r[5] > 5) return 0; for (int k = 6; k < b; ++k) if (r[k] != k) return 0; return 1; }
  int len = 4, dir = 0; size_t i = p.s.find('('); if (p.s[i + 1] != ')') { len = atoi(p.s.c_str() + i + 1); size_t j = p.s.find(','); if (j != string::npos) dir = p.s.find('-') != string::npos ? -1 : atoi(p.s.c_str() + j + 1); }
  long t = 0; for (int d = 1; d >= -1; d -= 2) if (dir * d >= 0) for (int at = 0; at + len <= b; ++at) { if (p.s[0] == 'f' && at) continue; if (p.s[0] == 'b' && at + len < b) continue; bool ok = true; for (int k = 1; k < len; ++k) ok &= r[at + k] == r[at] + d * k; t += ok; }
  return t;
}
void ring(Ctx& c) {
  if (!c.proving) return; tick(c);
  int& n = c.rows[c.r]; ++n; ++c.size; if (n > 1) ++c.dups; if (c.max != -1 && n > c.max) ++c.falsec; bool ok = !c.falsec;
  for (auto& p : c.w->music) { Quiet q; c.music += scores(p, c.r); }
  { bool s = c.silent; if (c.w->everyrow_only && !c.w->filter) c.silent = false; exec_sym(c, "everyrow"); c.silent = s; }
  if (c.maxlen && c.size > c.maxlen) exec_sym(c, "toolong");
  if (isrounds(c)) exec_sym(c, "rounds");
  if (!ok) exec_sym(c, "conflict");
}
string subst(string const& s, Ctx& c, bool& ab, bool& nonl) {
  string o; for (size_t i = 0; i < s.size(); ++i) switch (s[i]) {
    case '@': { vector<vector<int>> m; { Quiet q; if (c.w->has_mask) m = matches(c.w->maskp, c.r); else m = {c.r}; } if (m.empty()) return ""; o += str(m[0]); break; }
    case '$': if (i + 1 < s.size() && s[i + 1] == '{' && !c.w->ms) { size_t j = s.find('}', i); E e = lookup(c, s.substr(i + 2, j - i - 2)); Ctx d(clone(c)); o += seval(e, d); i = j; }
              else if (i + 1 < s.size() && s[i + 1] == '$') { ++i; ab = true; } else o += std::to_string(c.dups); break;
    case '#': o += std::to_string(c.size); break;
    case '\\': if (i + 1 == s.size()) nonl = true; else { o += s[i]; o += s[++i]; } break;
    default: o += s[i]; }
  return o;
}
string unescape(string const& s) { string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] != '\\') o += s[i]; else { if (i + 1 == s.size()) throw Err{"Unexpected backslash"}; char k = s[++i];
  if (size_t n = k == 'x' ? 2 : k == 'u' ? 4 : k == 'U' ? 8 : 0) { if (i + n >= s.size()) throw Err{"Incomplete escape"}; unsigned long v = 0; for (size_t j = 0; j < n; ++j) { char h = s[++i]; if (!isxdigit((unsigned char)h)) throw Err{"bad escape"}; v = v * 16 + (isdigit((unsigned char)h) ? h - '0' : (h | 32) - 'a' + 10); }
    if (v > 0x10ffff) throw Err{"no such character"}; if (v < 0x80) o += char(v); else { int k = v < 0x800 ? 1 : v < 0x10000 ? 2 : 3; o += char((0xff00 >> (k + 1)) | (v >> 6 * k)); while (k--) o += char(0x80 | ((v >> 6 * k) & 63)); } continue; }
  o += k == 'n' ? '\n' : k == 't' ? '\t' : k == '\'' ? '"' : k; } return o; }
E eval_str(E const& e, Ctx& c) { if (e->k == 'S') return e; E r = mk('S'); r->s = subst(e->s, c, r->ab, r->nonl); r->style = e->k == 'e'; return r; }
void back(int dir, const char* w) { if (dir < 0) throw Err{string("backwards ") + w}; }
bool cond(E const& e, Ctx& c) { if (!e) return true; Ctx d(clone(c)); try { return beval(e, d); } catch (Abort) {} catch (Break) {} return false; }
bool is_int(E const& e, Ctx& c) { switch (e->k) { case 'i': case 'l': case 'B': case '@': case '^': case 'A': return true; case 'y': return is_int(lookup(c, e->s), c); } return false; }
void typed(E const& e, Ctx& c) { if (e->k == 'y') typed(lookup(c, e->s), c); else if (e->k == ',') typed(e->kid.back(), c); else if (e->k == '*' && e->style == 1) typed(e->kid[0], c); }   // the * operator asks what its operands are
struct Deep { static int n; Deep() { if (++n > 300) discard(); } ~Deep() { --n; } }; int Deep::n = 0;
void exec(E const& e, Ctx& c, int dir) {
  tick(c); Deep deep; if (e->k == 'Z') { if (c.out && c.w->trace_all && (e->s == "nope" || e->s == "at" || e->s == "swap" || e->s == "pnstr")) c.w->out += str(c.r) + "\t" + e->s + "\n"; throw Err{e->s}; } if (e->k == '*' && e->style == 1) typed(e, c);
  switch (e->k) {
    case 'p': if (dir > 0) for (size_t i = 0; i < e->pn.size(); ++i) { c.r = ref::apply(c.r, e->pn[i]); ring(c); } else for (size_t i = e->pn.size(); i-- > 0;) { c.r = ref::apply(c.r, e->pn[i]); ring(c); } break;
    case '&': { auto v = pneval(e, c); for (size_t i = 0; i < v.size(); ++i) { c.r = ref::apply(c.r, dir > 0 ? v[i] : v[v.size() - 1 - i]); ring(c); } break; }
    case 't': c.r = compose(c.r, e->row); ring(c); break;
    case 's': case 'e': case 'S': { E v = eval_str(e, c); string t = unescape(v->s) ; Ctx& to = v->style && c.parent ? *c.parent : c; put(to, t); if (!v->nonl) put(to, "\n"); if (v->ab) throw Abort(); break; }
    case 'y': exec_sym(c, e->s, dir); break;
    case ',': if (dir > 0) for (auto& k : e->kid) exec(k, c, dir); else for (size_t i = e->kid.size(); i-- > 0;) exec(e->kid[i], c, dir); break;
    case '*': case 'L': { E old; try { old = lookup(c, "loop_counter"); } catch (Err&) {} struct Undo { Ctx& c; E old; ~Undo() { if (old) c.dsym["loop_counter"] = old; else c.dsym.erase("loop_counter"); } } u{c, old};
      try { for (long i = 1; e->k == 'L' || i <= e->n; ++i) { tick(c); E n = mk('i'); n->n = i; c.dsym["loop_counter"] = n; exec(e->kid[0], c, dir); } } catch (Break) {} break; }
    case '~': exec(e->kid[0], c, -dir); break;
    case '{': back(dir, "alternatives"); for (size_t i = 0; i + 1 < e->kid.size(); i += 2) if (cond(e->kid[i], c)) { if (e->kid[i + 1]) exec(e->kid[i + 1], c, dir); return; } break;
    case 'b': back(dir, "break"); throw Break();
    case '=': back(dir, "="); c.dsym[e->s] = e->kid[0]; break;
    case ':': back(dir, ":="); c.dsym[e->s] = eval(e->kid[0], c); break;
    case '.': { back(dir, ".="); E r = mk('S'); E l = lookup(c, e->s); string a = seval(l, c); r->s = a + seval(e->kid[0], c); c.dsym[e->s] = r; break; }
    case '+': { back(dir, "++"); E r = mk('i'); r->n = ieval(lookup(c, e->s), c) + e->n; c.dsym[e->s] = r; break; }
    case 'x': if (c.proving) c.last = c.r; c.proving = false; break;
    case 'v': if (!c.parent) c.w->define(e->s, lookup(c, e->s)); break;
    case '0': break;
    case 'f': back(dir, "call"); exec(e->kid[0], c, dir); break;
    case 'U': if (c.music > 0) { put(c, "Music score: " + std::to_string(c.music)); put(c, "\n"); } break;
    case 'i': case 'l': case 'B': case '@': case '^': case 'A': back(dir, "integer"); ieval(e, c); break;
    case 'P': case 'r': case 'g': case 'T': case 'd': case 'a': case '|': case '!': case 'C': back(dir, "boolean"); beval(e, c); break;
    default: harness_error("exec %c", e->k);
  }
}
vector<Change> pneval(E const& e, Ctx& c) {
  tick(c);
  switch (e->k) {
    case 'p': return e->pn;
    case 'y': return pneval(lookup(c, e->s), c);
    case ',': { vector<Change> v; for (auto& k : e->kid) { auto x = pneval(k, c); v.insert(v.end(), x.begin(), x.end()); } return v; }
    case '*': { vector<Change> v; for (long i = 0; i < e->n; ++i) { auto x = pneval(e->kid[0], c); v.insert(v.end(), x.begin(), x.end()); } return v; }
    case '~': { auto v = pneval(e->kid[0], c); std::reverse(v.begin(), v.end()); return v; }
    case '&': { auto v = pneval(e->kid[0], c); E rep = e->kid[1]; long len = rep->pn.size();   // style 0: at the end; 1: pn << n; 2: pn >> n
      long n = e->style == 0 ? (len ? len - 1 : 0) : ieval(e->kid[2], c), m = v.size(); bool front = e->style == 2;
      if (n < 0 || (!front && n >= m) || (front && (n == 0 || n - 1 + len > m)) || (!front && len > n + 1)) throw Err{"Replacement block overruns"};
      for (long i = 0; i < len; ++i) v[(front ? n - 1 : m - n - 1) + i] = rep->pn[i]; return v; }
  }
  throw Err{"not a static block"};
}
long ieval(E const& e, Ctx& c) {
  tick(c);
  switch (e->k) {
    case 'i': return e->n; case 'l': return c.size; case 'B': return c.w->bells; case 'y': return ieval(lookup(c, e->s), c);
    case '@': { long n = ieval(e->kid[0], c); if (n < 1 || n > c.w->bells) throw Err{"at range"}; return c.r[n - 1] + 1; }
    case '^': { long n = ieval(e->kid[0], c); return std::find(c.r.begin(), c.r.end(), int(n - 1)) - c.r.begin() + 1; }
    case 'A': { long a = ieval(e->kid[0], c), b = ieval(e->kid[1], c); switch (e->s[0]) { case '+': return a + b; case '-': return a - b; case '*': return a * b; case '/': if (!b) throw Err{"division by zero"}; return a / b; default: if (!b) throw Err{"division by zero"}; return a % b; } }
    case '+': { E r = mk('i'); r->n = ieval(lookup(c, e->s), c) + e->n; c.dsym[e->s] = r; return r->n; }
  }
  throw Err{"not an integer"};
}
bool beval(E const& e, Ctx& c) {
  tick(c);
  switch (e->k) {
    case 'P': { Quiet q; return !matches(e->pat, c.r).empty(); }
    case 'r': return isrounds(c); case 'g': return c.proving; case 'T': return e->n; case 'd': return c.dsym.count(e->s) || c.w->sym.count(e->s);
    case 'a': return beval(e->kid[0], c) && beval(e->kid[1], c); case '|': return beval(e->kid[0], c) || beval(e->kid[1], c); case '!': return !beval(e->kid[0], c);
    case ',': for (size_t i = 0; i + 1 < e->kid.size(); ++i) exec(e->kid[i], c, 1); return beval(e->kid.back(), c);
    case 'y': return beval(lookup(c, e->s), c);
    case 'C': { int s; if (e->style == 2) { bool a = beval(e->kid[0], c), b = beval(e->kid[1], c); s = a != b; } else if (e->style) { string a = seval(e->kid[0], c), b = seval(e->kid[1], c); s = a < b ? -1 : a > b; } else { long a = ieval(e->kid[0], c), b = ieval(e->kid[1], c); s = a < b ? -1 : a > b; }
      return e->s == "==" ? s == 0 : e->s == "!=" ? s != 0 : e->s == "<" ? s < 0 : e->s == ">" ? s > 0 : e->s == "<=" ? s <= 0 : s >= 0; }
  }
  throw Err{"not a boolean"};
}
string seval(E const& e, Ctx& c, bool* nonl) {
  tick(c);
  switch (e->k) {
    case 's': case 'e': case 'S': { E v = eval_str(e, c); if (nonl) *nonl = v->nonl; return v->s; }
    case 'c': { string a = seval(e->kid[0], c); return a + seval(e->kid[1], c); }
    case 'y': return seval(lookup(c, e->s), c, nonl);
    case 'i': case 'l': case 'B': case '@': case '^': case 'A': return std::to_string(ieval(e, c));
  }
  throw Err{"not a string"};
}
E eval(E const& e, Ctx& c) {
  switch (e->k) {
    case 's': case 'S': return eval_str(e, c);
    case 'c': { E r = mk('S'); r->s = seval(e, c); return r; }
    case 'P': case 'r': case 'g': case 'T': case 'd': case 'a': case '|': case '!': case 'C': { E r = mk('T'); r->n = beval(e, c); return r; }
    case 'y': return eval(lookup(c, e->s), c);
    case '{': for (size_t i = 0; i + 1 < e->kid.size(); i += 2) if (cond(e->kid[i], c)) return eval(e->kid[i + 1], c); throw Err{"end of alternatives"};
    case ',': for (size_t i = 0; i + 1 < e->kid.size(); ++i) exec(e->kid[i], c, 1); return eval(e->kid.back(), c);
    case '&': { E r = mk('p'); r->pn = pneval(e, c); return r; }
  }
  E r = mk('i'); r->n = ieval(e, c); return r;
}
void final_sym(Ctx& c, string const& n) { try { exec_sym(c, n); } catch (Abort) {} catch (Break) {} }
void prove(World& w, E const& e) {
  if (w.prove_one && w.done) throw Err{"Already done proof"};
  w.done = true; w.proofs++; if (w.determine) w.out += std::to_string(w.bells) + " bells\n"; Ctx c(w);
  try { exec_sym(c, "start"); exec(e, c, 1); exec_sym(c, "finish"); }
  catch (Abort) { final_sym(c, "abort"); w.failed = true; w.aborts++; return; } catch (Break) { return; }
  if (c.falsec) { final_sym(c, "false"); w.failed = true; }
  else if ((c.proving ? c.r : c.last) != w.rounds_) { final_sym(c, "notround"); w.failed = true; }
  else if (w.min && c.size < w.min) { final_sym(c, "tooshort"); w.failed = true; }
  else { if (w.quiet) c.silent = true; final_sym(c, "true"); }
}
struct Exit { int code; };
void run(World& w, vector<S> const& ss, bool nested = false);
void run1(World& w, S const& s) {
  switch (s->k) {
    case 'd': w.define(s->s, s->e); break;
    case '?': if (!w.sym.count(s->s)) w.define(s->s, s->e); break;
    case ':': { Ctx c(w); w.define(s->s, eval(s->e, c)); break; }
    case 'b': w.set_bells(s->a); break;
    case 'x': w.extents = s->a; break;
    case 'l': w.min = s->a; w.max = s->b; { E m = mk('i'), x = mk('i'); m->n = s->a; x->n = s->b; w.sym["min_length"] = m; w.sym["max_length"] = x; } break;
    case 'r': w.rounds_ = s->row; break;
    case 'm': if (!w.everyrow_only) { w.has_mask = true; w.maskp = s->pat; w.line(); } break;
    case 'M': w.music = s->pats; break;
    case 'p': prove(w, s->e); break;
    case 'e': { Ctx c(w); if (w.quiet < 2) c.silent = false; bool nn = false; string t = seval(s->e, c, &nn); w.out += t + (nn ? "" : "\n"); break; }
    case 'w': { Ctx c(w); seval(s->e, c); break; }
    case 'E': { Ctx c(w); seval(s->e, c); if (w.interactive) { w.failed = true; break; } throw Exit{1}; }
    case 'I': for (size_t i = 0; i < s->body.size(); ++i) { bool t = true; if (i < s->conds.size()) { Ctx c(w); c.silent = true; t = beval(s->conds[i], c); } if (t) { for (auto& k : s->body[i]) run1(w, k); return; } } break;
    case 'F': for (auto& v : s->es) { w.define(s->s, v); for (auto& k : s->body[0]) run1(w, k); } break;
    case 'i': { auto f = w.files.find(s->s); if (w.no_import || f == w.files.end()) throw Err{"no such file"}; int b = w.bells; E first = w.first; bool in = w.interactive; w.interactive = false;
      struct U { World& w; int b; E f; bool in; ~U() { if (b > 0) w.set_bells(b); w.first = f; w.interactive = in; } } u{w, b, first, in}; run(w, f->second, true); break; }
    case 'V': w.out += "Version: " RINGING_VERSION "\n"; break;
    case 'X': throw Err{"parse error"};
    default: harness_error("stmt %c", s->k);
  }
}
void run(World& w, vector<S> const& ss, bool nested) {
  for (auto& s : ss) { if (s->k == 'q') return; try { run1(w, s); } catch (Err& e) { if (nested) throw; if (!w.interactive) throw Exit{2}; } catch (Abort) { throw Exit{2}; } }
}

// ---------------------------------------------------------------------------------------------------- the generator
struct Gen {
  int bells; bool ms; vector<string> blocks; vector<bool> pure; vector<string> ints, strs; int depth = 0; bool custom_rounds = false; World* w; vector<std::pair<string, vector<Change>>> lib;
  string name(const char* p, size_t i) { return string(p) + std::to_string(i); }
  string text(bool vars = true) { string s; int n = choose(5); for (int i = 0; i < n; ++i) { static const char* k[] = { "@", "#", "$ ", "abc", " ", "\\n", "\\t", "\\'", "\\@", "\\\\", "x y", "-", "$ of #", "//", "(", "$.", "\\x41", "\\xe9", "\\u20AC", "\\U0001f514z" }; 
      if (vars && !ms && choose(6) == 0 && (!ints.empty() || !strs.empty())) s += "${" + (strs.empty() || (!ints.empty() && choose(2)) ? pick(ints) : pick(strs)) + "}"; else s += k[choose(choose(3) ? 16 : 20)]; } return s; }
  E str_(bool ab = false) { E e = mk('s'); e->s = text(); if (ab) e->s += "$$"; if (choose(5) == 0) e->s += "\\"; return e; }
  E plain() { E e = mk('s'); static const char* k[] = { "one", "two", "@", "#", "", "b c" }; e->s = k[choose(6)]; return e; }
  E pn() { E e = mk('p'); bool sym = choose(3) == 0; int n = 1 + choose(sym ? 4 : 6); vector<Change> h; for (int i = 0; i < n; ++i) h.push_back(gen_change(bells)); string t;
    bool exprs = choose(5) == 0; bool cr = true; for (auto& c : h) { auto P = c.places(); size_t run = 1; while (run < P.size() && P[run] == P[0] + (int)run) ++run; if (run >= 3 && choose(3) == 0) { if (!cr || choose(6) == 0) t += t.empty() ? "" : "."; t += string(1, bell_char(P[0])) + ".." + bell_char(P[run - 1]); for (size_t k = run; k < P.size(); ++k) t += bell_char(P[k]); cr = false; continue; } string u; if (c.places().empty()) { static const char x[] = { 'X', '-', 'x' }; u = string(1, x[choose(3)]); } else { if (!cr || choose(6) == 0) t += t.empty() ? "" : "."; for (int p : c.places()) { if (exprs && choose(3) == 0) u += choose(2) ? "{" + std::to_string(p + 1) + "}" : p == bells - 1 ? string("{N}") : choose(2) ? "{N-" + std::to_string(bells - 1 - p) + "}" : "{ N - " + std::to_string(bells - 1 - p) + " }"; else { char b = bell_char(p); u += choose(4) ? b : (char)tolower(b); } } } cr = c.places().empty(); t += u; }
    e->pn = h; if (sym) for (int i = n - 2; i >= 0; --i) e->pn.push_back(h[i]); e->s = (sym ? "&" : "+") + t; return e; }
  E transp() { E e = mk('t'); Row r = rounds(bells); int k = 1 + choose(3); for (int i = 0; i < k; ++i) std::swap(r[choose(bells)], r[choose(bells)]); e->row = r; return e; }
  // A call of one of the functions that makes something to ring or to print.
  E call(bool nostr) {
    E e = mk('f'); switch (choose(lib.empty() ? 4 : 7)) {
      case 0: case 1: { Row r = rounds(bells); int i = choose(bells - 1), j = i + 1; if (choose(2)) { e->s = "swap(" + std::to_string(i + 1) + ")"; } else { j = choose(bells); if (j == i) j = bells - 1; e->s = "swap(" + std::to_string(i + 1) + ", " + std::to_string(j + 1) + ")"; } std::swap(r[i], r[j]); E t = mk('t'); t->row = r; e->kid = {t}; return e; }
      case 2: { if (nostr) return pn(); E b = pn(); Quiet q; E v = mk('S'); v->s = to(b->pn, bells, "").format(ringing::method::M_EXTERNAL); e->s = "pnstr(" + b->s + ")"; e->kid = {v}; return e; }
      case 3: { if (nostr) return pn(); static const char* st[] = { "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus" }; int n = choose(10); E v = mk('S'); v->s = st[n]; e->s = "stagename(" + std::to_string(n + 3) + ")"; e->kid = {v}; return e; }
      default: { auto& m = pick(lib); E b = mk('p'); b->pn = m.second; int k = choose(3); if (k == 1) b->pn.pop_back(); if (k == 2) b->pn = {m.second.back()}; e->s = string(k == 0 ? "load(\"" : k == 1 ? "loadm(\"" : "loadlh(\"") + m.first + "\")"; e->kid = {b}; return e; } } }
  E iexp(int d) { int k = choose(d > 0 ? 9 : 5); E e; switch (k) { case 0: e = mk('i'); e->n = choose(12); if (choose(6) == 0) e->s = "0"; return e; case 1: return mk('l'); case 2: return mk('B'); case 3: case 4: if (!ints.empty()) { e = mk('y'); e->s = pick(ints); return e; } e = mk('i'); e->n = choose(40); return e;
      case 5: if (ms) return mk('B'); e = mk('i'); e->n = 1 + choose(bells); return mk('@', {e}); case 6: if (ms) return mk('l'); e = mk('i'); e->n = 1 + choose(bells); return mk('^', {e});
      default: { if (ms) return mk('l'); e = mk('A', {iexp(d - 1), iexp(d - 1)}); if (choose(3) == 0) e->kid[0] = iexp(d); e->s = string(1, "+-*%"[choose(4)]); if (e->s == "%") { E m = mk('i'); m->n = choose(12) ? 1 + choose(5) : 0; e->kid[1] = m; } return e; } } }
  Pat pat() { return gen_pat(bells, false); }
  E bexp(int d) { static const char* ops[] = { "==", "!=", "<", ">", "<=", ">=" }; switch (choose(d > 0 ? 14 : 7)) { case 0: case 1: case 2: { E e = mk('P'); e->pat = pat(); return e; } case 3: return mk('r'); case 4: { E e = mk('C', {iexp(1), iexp(0)}); e->s = ops[choose(6)]; return e; }
      case 5: { E e = mk('d'); e->s = choose(2) && !blocks.empty() ? pick(blocks) : string("nosuch"); return e; } case 6: if (choose(2)) return mk('g'); else { E e = mk('T'); e->n = choose(2); return e; }
      case 7: return mk('!', {bexp(d - 1)}); case 8: return mk('a', {bexp(d - 1), bexp(d - 1)}); case 9: return mk('|', {bexp(d - 1), bexp(d - 1)});
      case 10: { E a = plain(), b = choose(2) ? plain() : mk('s'); if (b->s.empty()) { Row r = rounds(bells); r = ref::apply(r, gen_change(bells)); b->s = str(r); a->s = "@"; } E e = mk('C', {a, b}); e->s = ops[choose(6)]; e->style = 1; return e; }
      case 12: { E e = mk('C', {bexp(d - 1), bexp(d - 1)}); e->s = ops[choose(2)]; e->style = 2; return e; }
      case 13: { E a = iexp(1), b = mk('s'); b->s = choose(2) ? std::to_string(choose(14)) : choose(2) ? "0" + std::to_string(choose(10)) : choose(2) ? string("#") : string("x"); bool sw = choose(2); E e = mk('C', {sw ? b : a, sw ? a : b}); e->s = ops[choose(2)]; e->style = 1; return e; }
      default: return mk(',', {block(d - 1, false, true), bexp(d - 1)}); } }
  // pure: can be rung backwards.  brk: inside a repetition.
  E block(int d, bool pure_, bool nostr = false, bool brk = false, size_t upto = ~0u) {
    int k = choose(d > 0 ? 16 : 5);
    if (k < 3) return pn();
    if (k == 3 || k == 4) { vector<string> ok; for (size_t i = 0; i < blocks.size() && i < upto; ++i) if (!pure_ || pure[i]) ok.push_back(blocks[i]); if (ok.empty()) return pn(); E e = mk('y'); e->s = pick(ok); return e; }
    if (k < 8) { E e = mk(','); int n = 2 + choose(3); for (int i = 0; i < n; ++i) e->kid.push_back(block(d - 1, pure_, nostr, brk, upto)); return e; }
    if (k < 10) { E e = mk('*', {block(d - 1, pure_, nostr, true, upto)}); e->n = choose(8) == 0 ? 0 : 1 + choose(4); e->style = choose(3); return e; }
    if (k == 10) return nostr ? pn() : choose(6) == 0 && !ms ? [&] { E e = mk('y'); e->s = "__line__"; return e; }() : str_(choose(12) == 0);
    if (pure_) return mk('~', {block(d - 1, true, nostr, false, upto)});
    if (k == 11) return choose(3) == 0 && !ms ? call(nostr) : choose(2) ? transp() : mk('~', {block(d - 1, true, nostr, false, upto)});
    if (ms) return pn();
    if (k == 12 || k == 13) { E e = mk('{'); int n = 1 + choose(3); for (int i = 0; i < n; ++i) { e->kid.push_back(i == n - 1 && choose(2) ? nullptr : bexp(2)); e->kid.push_back(choose(8) == 0 ? nullptr : brk && choose(3) == 0 ? mk('b') : block(d - 1, false, nostr, brk, upto)); } return e; }
    if (k == 14) { E lim = mk('C', {mk('l'), mk('i')}); lim->kid[1]->n = 10 + choose(60); lim->s = ">"; E stop = mk('{', {mk('|', {bexp(1), lim}), mk('b')}); E b = mk(',', {pn(), stop}); if (choose(2)) b->kid.push_back(block(d - 1, false, nostr, true, upto)); if (choose(3) == 0) { E sy = mk('s'); sy->s = "${loop_counter}"; if (!nostr) b->kid.push_back(sy); } return mk('L', {b}); }
    switch (choose(8)) {
      case 0: if (!blocks.empty() && upto) { size_t i = choose(std::min(upto, blocks.size())); E e = mk('=', {pure[i] ? block(d - 1, true, true, false, i) : block(d - 1, false, nostr, false, i)}); e->s = blocks[i]; return e; } return pn();
      case 1: if (!ints.empty()) { E e = mk(':', {iexp(1)}); e->s = pick(ints); return e; } return pn();
      case 2: if (!ints.empty()) { E e = mk('+'); e->s = pick(ints); e->n = choose(3) ? 1 : -1; return mk(',', {e, pn()}); } return pn();
      case 3: if (!strs.empty()) { E e = mk('.', {plain()}); e->s = pick(strs); return e; } return pn();
      case 4: { E v = mk('v'); if (ints.empty()) return pn(); v->s = pick(ints); return v; }
      case 5: { if (nostr) return pn(); E e = mk('e'); e->s = text(); return e; }
      case 6: if (choose(4) == 0) return mk('x'); return pn();
      default: { E e = mk('&', {pn(), pn()}); e->style = choose(3); if (e->style) { E n = mk('i'); n->n = choose(5); e->kid.push_back(n); } return e; }
    } }
};

// ---------------------------------------------------------------------------------------------------------- printing
struct Printer {
  bool ms, fancy, fold = false; string quote_ = "\"";
  string sp() { return fancy && choose(5) == 0 ? string(1 + choose(2), ' ') : ""; }
  string wrap(string s) { return fancy && choose(8) == 0 ? "(" + sp() + s + sp() + ")" : s; }
  string comma() { if (!fancy) return ","; switch (choose(8)) { case 0: return ", "; case 1: return " ,"; case 2: return ms ? ",\n" : ", // and\n  "; case 3: return ",\n"; default: return ","; } }
  string sym(string s) { if (ms || fold) for (auto& c : s) if (choose(4) == 0) c = toupper(c); return s; }
  bool atom(E const& e) { return strchr("ptsySlBirgTPx@^f", e->k); }
  // How tightly an expression holds together, as documented: prefix operators, * and its like, + and -, << and >>, &, comparisons, &&, ||, comma, assignment.
  int level(E const& e) { switch (e->k) { case '*': return e->style == 1 ? 8 : 9; case 'c': return 8; case 'A': return e->s == "+" || e->s == "-" ? 7 : 8; case '&': return 5; case 'C': return 4; case 'a': return 3; case '|': return 2; case ',': return 1; case '=': case ':': case '.': return 0; case 'Z': return e->style; default: return 9; } }
  string p(E const& e, int l = 9) { string s = x(e); return atom(e) ? wrap(s) : !ms && fancy && level(e) >= l && choose(2) ? s : "(" + s + ")"; }
  string item(E const& e) { return e->k == '*' || e->k == '{' || e->k == 'L' || e->k == '~' || e->k == '+' || e->k == 'v' || e->k == 'e' || e->k == 'b' ? x(e) : p(e, 2); }
  string x(E const& e) {
    switch (e->k) {
      case 'p': return e->s; case 't': return "'" + str(e->row) + "'"; case 's': return "\"" + e->s + "\""; case 'e': return "echo \"" + e->s + "\""; case 'y': return sym(e->s); case 'f': return e->s;
      case ',': { string s; for (auto& k : e->kid) { if (!s.empty()) s += comma(); s += item(k); } return s; }
      case '*': return std::to_string(e->n) + (ms ? e->style == 1 ? "*" : "" : e->style == 0 ? "" : e->style == 1 ? "*" : " ") + (e->kid[0]->k == 'y' ? sym(e->kid[0]->s) : !ms && fancy && level(e->kid[0]) >= 9 && choose(2) ? (e->style == 0 ? " " : "") + x(e->kid[0]) : "(" + sp() + x(e->kid[0]) + ")");
      case 'L': return !ms && fancy && level(e->kid[0]) >= 9 && choose(2) ? "repeat " + x(e->kid[0]) : "repeat(" + x(e->kid[0]) + ")"; case '~': return "~" + p(e->kid[0]);
      case '{': { string s = "{" + sp(); for (size_t i = 0; i + 1 < e->kid.size(); i += 2) { if (i) s += ";" + (fancy && choose(3) == 0 ? string("\n  ") : sp()); if (e->kid[i]) s += (e->kid[i]->k == ',' ? x(e->kid[i]) : b(e->kid[i])) + sp() + ":" + sp(); else if (!e->kid[i + 1]) s += "true:"; if (e->kid[i + 1]) s += e->kid[i + 1]->k == ',' ? x(e->kid[i + 1]) : item(e->kid[i + 1]); } return s + (fancy && choose(5) == 0 ? ";}" : "}"); }
      case 'b': return "break"; case '=': return e->s + sp() + "=" + sp() + p(e->kid[0], 0); case ':': return e->s + sp() + ":=" + sp() + x(e->kid[0]); case '.': return e->s + " .= " + x(e->kid[0]); case '+': return (e->n > 0 ? "++" : "--") + e->s; case 'x': return "endproof"; case 'v': return "save " + e->s; case '0': return "";
      case '&': return p(e->kid[0], 6) + " & " + (e->style == 0 ? p(e->kid[1]) : !ms && fancy && choose(2) ? e->kid[1]->s + (e->style == 1 ? " << " : " >> ") + p(e->kid[2], 7) : "(" + e->kid[1]->s + (e->style == 1 ? " << " : " >> ") + x(e->kid[2]) + ")");
      case 'i': return e->s + std::to_string(e->n); case 'l': return "length"; case 'Z': return e->s; case 'B': return "bells"; case '@': return "at(" + x(e->kid[0]) + ")"; case '^': return "pos(" + x(e->kid[0]) + ")"; case 'A': case 'c': return p(e->kid[0], level(e)) + " " + (e->k == 'c' ? "." : e->s) + " " + p(e->kid[1], level(e) + 1);
    }
    return b(e);
  }
  string bp(E const& e, int l = 9) { return atom(e) || (!ms && fancy && level(e) >= l && choose(2)) ? b(e) : "(" + b(e) + ")"; }
  string b(E const& e) {
    switch (e->k) { case 'P': return "/" + e->pat.s + "/"; case 'r': return "rounds"; case 'g': return "proving"; case 'T': return e->n ? "true" : "false"; case 'd': return choose(2) ? "defined(" + e->s + ")" : "defined " + e->s;
      case 'a': return bp(e->kid[0], 3) + " && " + bp(e->kid[1], 3); case '|': return bp(e->kid[0], 2) + " || " + bp(e->kid[1], 2); case '!': return "!" + bp(e->kid[0]); case 'C': return p(e->kid[0], 5) + sp() + e->s + sp() + p(e->kid[1], 5); }
    return x(e);
  }
  string kw(string s) { return sym(s); }
  string st(S const& s, int in = 0) {
    auto body = [&](vector<S> const& v) { string t; for (auto& k : v) t += string(in + 2, ' ') + st(k, in + 2); return t; };
    string nl = fancy && in == 0 && choose(6) == 0 ? ";" : fancy && choose(8) == 0 ? " ;\n" : fancy && choose(8) == 0 && !ms ? " // note; \"x\n" : fancy && choose(10) == 0 ? "\n\n" : "\n";
    switch (s->k) {
      case 'd': return sym(s->s) + sp() + "=" + sp() + (s->e->k == ',' ? x(s->e) : s->e->k == '0' ? "" : item(s->e)) + nl; case '?': return s->s + " ?= " + x(s->e) + nl; case 'V': return kw("version") + nl; case ':': if (s->b) nl = "\n"; return s->s + " := " + (strchr("PrgTda|!C", s->e->k) ? b(s->e) : x(s->e)) + nl;
      case 'b': return std::to_string(s->a) + " " + kw("bells") + nl; case 'x': return std::to_string(s->a) + " " + kw("extents") + nl; case 'l': return (s->a == s->b ? std::to_string(s->a) : std::to_string(s->a) + " to " + std::to_string(s->b)) + " " + kw("rows") + nl; case 'r': return kw("rounds") + " '" + str(s->row) + "'" + nl;
      case 'm': return "row_mask /" + s->pat.s + "/" + nl; case 'M': { string t = "music "; for (size_t i = 0; i < s->pats.size(); ++i) t += (i ? ", " : "") + (is_fn(s->pats[i]) ? s->pats[i].s : "/" + s->pats[i].s + "/"); return t + nl; }
      case 'p': return kw("prove") + " " + (s->e->k == ',' ? x(s->e) : item(s->e)) + nl; case 'e': return "echo " + x(s->e) + nl; case 'w': return "warn " + x(s->e) + nl; case 'E': return "error " + x(s->e) + nl;
      case 'I': { string t; for (size_t i = 0; i < s->body.size(); ++i) t += (i == 0 ? "if " + b(s->conds[0]) : i < s->conds.size() ? string(in, ' ') + "elseif " + b(s->conds[i]) : string(in, ' ') + "else") + "\n" + body(s->body[i]); return t + string(in, ' ') + "endif" + nl; }
      case 'F': { string t = "["; size_t cut = !ms && fancy && choose(4) == 0 ? choose(s->es.size() + 1) : 0; for (size_t i = 0; i < s->es.size(); ++i) t += (i == 0 && cut == 0 ? "" : i == cut ? "] . [" : i ? ", " : "") + item(s->es[i]); t += "]"; if (!ms && fancy && choose(5) == 0 && t != "[]") { string nm = "arr" + s->s; t = nm + " = " + t + "\n" + string(in, ' ') + "foreach " + nm; } else t = "foreach " + t; return t + " as " + s->s + "\n" + body(s->body[0]) + string(in, ' ') + "endfor" + nl; }
      case 'i': return "import \"" + s->text + "\"" + nl; case 'X': return s->text + nl; case 'q': { static const char* k[] = { "end", "exit", "quit" }; return string(k[choose(3)]) + "\nprove nosuch\n"; }
    }
    return "";
  }
  string all(vector<S> const& v) { string t; for (auto& s : v) t += st(s); return t; }
};
S stmt(char k) { auto s = std::make_shared<Stmt>(); s->k = k; return s; }

E strn(string const& s) { E e = mk('s'); e->s = s; return e; }
E symn(string const& s) { E e = mk('y'); e->s = s; return e; }
void init(World& w) {   // as documented: the initialisation file
  auto L = [](vector<E> v) { return mk(',', v); }; E nop = mk('0'); E sc = mk('i');
  w.sym["__summary__"] = strn("# rows ending in @");
  w.sym["__music__"] = mk('U');
  w.sym["true"] = L({symn("__summary__"), strn("Touch is true"), symn("__music__")}); w.sym["notround"] = L({symn("__summary__"), strn("Is this OK?")}); w.sym["false"] = L({symn("__summary__"), strn("Touch is false in $ rows")});
  w.sym["tooshort"] = L({symn("__summary__"), strn("Touch is too short: \\"), strn("at least ${min_length} rows expected")}); w.sym["toolong"] = strn("Touch exceeds maximum length of ${max_length} rows$$"); w.sym["conflict"] = L({symn("__summary__"), strn("Touch not completed due to false row$$")});
  for (auto n : {"rounds", "start", "finish", "abort", "everyrow"}) w.sym[n] = nop;
}

struct Session { World w; Gen g; vector<S> ss; vector<std::pair<string, string>> strs; vector<std::pair<string, vector<S>>> mods; bool bells_arg = false, ms = false; string prove_sym; vector<string> args, paths; vector<S> dstm; E pexp; bool odd = false, noread = false, nocase = false; bool used_len = false;
  bool errors = true, inter = false;
  void define_block(vector<S>& to) { S d = stmt('d'); bool pure = choose(2); size_t n = g.blocks.size(); d->e = g.block(2, pure); bool redef = n > 1 && choose(8) == 0 && prove_sym.empty(); if (redef) { size_t i = 1 + choose(n - 1); if (g.pure[i] && !pure) { pure = true; } d->e = g.block(2, g.pure[i], false, false, i); d->s = g.blocks[i]; to.push_back(d); return; }
    d->s = g.name("b", n); to.push_back(d); g.blocks.push_back(d->s); g.pure.push_back(pure); }
  void special(vector<S>& to) { S d = stmt('d'); switch (choose(9)) { case 0: d->s = "start"; d->e = choose(3) ? g.str_() : g.pn(); break; case 1: d->s = "finish"; d->e = choose(4) ? g.str_() : g.pn(); break; case 2: case 3: d->s = "everyrow"; d->e = ms || choose(3) == 0 ? g.str_() : mk('{', {g.bexp(0), g.str_(choose(6) == 0)}); break; case 4: d->s = "rounds"; d->e = g.str_(choose(4) == 0); break; case 5: d->s = "conflict"; d->e = choose(3) == 0 ? mk('0') : g.str_(choose(2)); break; case 6: d->s = choose(2) ? "true" : "notround"; d->e = g.str_(); break; case 7: d->s = "false"; d->e = g.str_(); break; default: d->s = "abort"; d->e = g.str_(); } to.push_back(d); }
  void value(vector<S>& to) { if (choose(2)) { S d = stmt(choose(3) ? 'd' : ms ? 'd' : ':'); d->s = g.name("n", g.ints.size()); d->e = g.iexp(1); if (d->k == 'd' && choose(2)) { d->e = mk('i'); d->e->n = choose(30); } else if (d->k == ':' && choose(3) == 0) { E a = mk('{'); int n = 1 + choose(3); for (int i = 0; i < n; ++i) { a->kid.push_back(i == n - 1 && (choose(3) || !errors) ? nullptr : g.bexp(1)); a->kid.push_back(g.iexp(1)); } d->e = a; } else if (d->k == ':' && choose(6) == 0) d->e = mk(',', {g.block(1, false), g.iexp(1)}); to.push_back(d); g.ints.push_back(d->s); } else { S d = stmt('d'); d->s = g.name("s", g.strs.size()); E e = mk('s'); e->s = g.text(); d->e = e; if (!ms && choose(4) == 0) { d->k = ':'; if (choose(2)) { d->e = mk('c', {g.plain(), g.plain()}); if (choose(3) == 0) { E n = mk('i'); n->n = choose(30); d->e = mk('c', {d->e, n}); } } } to.push_back(d); g.strs.push_back(d->s); } }
  // A statement that cannot be parsed, or that fails when it is executed.
  void error(vector<S>& to) {
    int n = g.bells; string N = std::to_string(n), M = std::to_string(n + 1); S x; if (choose(3)) return;
    static const char* parse[] = { "bogus statement here", "prove +X )", "prove b0 &&", "x = \"a\" ~", "17", "1 bells", "prove", "foreach b0", "prove (+X,)", "70 bells", "prove at(,1)", "prove at(1,)", "prove ()", "prove ~", "prove !", "prove repeat", "prove ++", "prove --1", "prove echo", "prove echo b0", "prove save", "prove save \"a\"", "prove (1 = b0)", "prove (b0 b0 = b0)", "prove (1 .= \"a\")", "prove (b0 .=)", "prove (b0 :=)", "prove (= b0)", "prove & b0", "prove b0 &", "prove && b0", "prove || b0", "prove == 1", "prove 1 ==", "prove b0 <<", "prove >> 1", "prove , b0", "prove b0, , b0", "prove b0 b0", "prove \"a\" \"b\"", "prove 2 *", "prove * 2", "zz := 3 %", "zz := % 3", "zz := 3 +", "zz := 3 -", "zz := - 3", "else", "elseif true", "endif", "endfor", "foreach b0 as", "foreach b0 to x", "import", "import 'x'", "rounds", "row_mask b0", "1 extent", "1 to 2", "if true\nelse\nelse", "if true\nelse\nelseif true", "prove /1[/", "prove /[[1]]/", "prove /[1*]/", "prove /[?]/", "prove /1]/", "prove /!/", "prove /X/", "prove '%'", "prove ?", "prove {true: b0", "foreach [b0] as x\nprove b0", "if true\nprove b0", "if true\nprove b0\nelse\n", "prove (b0", "x = [b0", "prove [b0", "prove +{N-20}", "prove +{M}", "prove +{N+1}", "prove +{}" };
    static const char* run[] = { "at(0)", "at(%)", "at(1, 2)", "at()", "pos()", "pos(1, 2)", "rowno(1)", "swap()", "swap(1, 1)", "swap(#)", "swap(0)", "swap(1, %)", "swap(0, 1)", "swap(1, 2, 3)", "nosuch(1)", "b0(1)", "load(\"No Such Method\")", "load()", "stagename()", "stagename(3, 4)", "crus(1)", "music(1)", "runs(1, 2, 3)", "pnstr()", "methname()", "1 % 0", "1 % (2 - 2)", "true == 1", "1 != false", "true < false", "true >= true", "1 < \"a\"", "\"a\" >= 1", "!1", "!\"a\"", "1 && true", "false || 1", "\"a\" && true", "true + 1", "1 - \"a\"", "\"a\" * \"b\"", "/1*/ * 2 * /1*/", "++nosuch", "--nosuch", "(nosuch .= \"a\")", "(zz := +1)", "(zz := {false: 1})", "(zz := nosuch)", "(zz := break)", "~(zz = +1)", "~(zz := 1)", "~(zz .= \"a\")", "~{true: +1}", "~break", "~swap(1)", "~(1 > 2)", "~rounds", "~1", "~length", "~(1 + 1)", "~(2 * 3)", "~(++loop_counter)", "[+1, +2]", "[]", "(+1 << 0)", "(+1 >> 1)", "(+1 & \"a\")", "(+1 & (+1 << 1))", "(+1 & (+1 >> 0))", "(+1 & (+1.1 << 0))", "(+1 & (+1.1 >> 1))", "(\"a\" & +1)", "(swap(1) & +1)", "(+1 & swap(1))", "pnstr(\"a\")", "pnstr(swap(1))", "pnstr(repeat +1)", "\"\\x4\"", "\"\\xg1\"", "\"\\u12\"", "\"\\u123x\"", "\"\\U00110000\"", "\"\\U0001F51\"", "\"${nope\"", "\"${nope}\"", "save nope", "nope", "at", "swap", "pnstr", "(true . \"a\")", "(b0 > true)", "(+1 + 1)" };
    switch (choose(4)) {
      case 0: { x = stmt('X'); x->text = parse[inter ? choose(9) : choose(sizeof parse / sizeof *parse)]; if (x->text == "prove '%'") x->text = "prove '" + str(rounds(n + 1)) + "'"; break; }
      case 1: x = stmt('p'); x->e = mk(',', {g.block(1, false), symn("nosuch")}); break;
      case 2: x = stmt('E'); x->e = g.plain(); break;
      default: { E z = mk('Z'); string t = run[choose(sizeof run / sizeof *run)]; for (auto& c : t) if (c == '#') { t.replace(t.find('#'), 1, N); break; } if (t.find('%') != string::npos && t.find(" % ") == string::npos) t.replace(t.find('%'), 1, M); z->s = t; z->style = 0; bool st = t[0] == '"' || t[0] == '~' || (isalpha(t[0]) && t.find(' ') == string::npos && t.find("++") == string::npos); if (st && t.find(" ") == string::npos) z->style = 9; x = stmt('p'); x->e = choose(2) ? z : mk(',', {g.block(1, false), z}); break; } }
    to.push_back(x); }
  void rest(vector<S>& to, int depth) {
    switch (choose(ms ? 7 : 17)) {
      case 0: case 1: { S p = stmt('p'); p->e = choose(3) || g.blocks.empty() ? g.block(3, false) : symn(pick(g.blocks)); to.push_back(p); break; }
      case 2: if (!depth) define_block(to); break;
      case 3: special(to); break;
      case 4: if (!depth) value(to); break;
      case 5: { S x = stmt('x'); x->a = 1 + choose(3); to.push_back(x); break; }
      case 6: { S l = stmt('l'); l->a = 1 + choose(30); l->b = choose(2) ? l->a : l->a + choose(40); to.push_back(l); break; }
      case 7: if (odd) break; else { S m = stmt('m'); Pat p; p.s = ""; int n = choose(3); bool front = choose(2); vector<Tok> f; for (int i = 0; i < n; ++i) f.push_back({'b', {front ? i : g.bells - n + i}}); if (front) { p.t = f; p.t.push_back({'*', {}}); } else { p.t.push_back({'*', {}}); p.t.insert(p.t.end(), f.begin(), f.end()); } for (auto& t : p.t) p.s += t.k == '*' ? string("*") : string(1, bell_char(t.b[0])); m->pat = p; to.push_back(m); break; }
      case 8: { S m = stmt('M'); int n = 1 + choose(3); for (int i = 0; i < n; ++i) if (choose(3) == 0) { Pat f; static const char* k[] = { "crus()", "runs(3)", "runs()", "frontruns(3)", "backruns(4)", "backruns()", "runs(3, 1)", "runs(3,0 - 1)", "frontruns(4, 0 - 1)", "backruns(3,1)" }; f.s = k[g.bells >= 6 ? choose(10) : g.bells >= 4 ? 1 + choose(9) : 1]; m->pats.push_back(f); } else m->pats.push_back(g.pat()); to.push_back(m); break; }
      case 9: { S e = stmt(choose(3) ? 'e' : 'w'); e->e = g.plain(); if (choose(3) == 0) e->e->s += "\\"; if (choose(3) == 0 && !g.ints.empty()) e->e->s = "${" + pick(g.ints) + "}" + e->e->s; to.push_back(e); break; }
      case 10: if (depth < 2) { S s = stmt('I'); int n = 1 + choose(3); for (int i = 0; i < n; ++i) { if (i == 0 || i < n - 1 || choose(2)) s->conds.push_back(g.bexp(1)); vector<S> b; int m = choose(3); for (int j = 0; j < m; ++j) rest(b, depth + 1); s->body.push_back(b); } to.push_back(s); } break;
      case 11: if (depth < 2) { S s = stmt('F'); s->s = g.name("f", depth); int n = 1 + choose(3); bool st = choose(2); for (int i = 0; i < n; ++i) s->es.push_back(st ? g.plain() : g.block(1, true)); vector<S> b; if (st) { S e = stmt('e'); e->e = strn("[${" + s->s + "}]"); b.push_back(e); } else { S p = stmt('p'); p->e = mk(',', {symn(s->s), g.block(1, false)}); b.push_back(p); } if (choose(2)) rest(b, depth + 1); s->body.push_back(b); to.push_back(s); } break;
      case 12: if (!depth && !w.files.empty() && choose(2)) { S i = stmt('i'); i->s = w.files.begin()->first; if (w.files.size() > 1 && choose(2)) i->s = w.files.rbegin()->first; i->text = i->s; to.push_back(i); } break;
      case 13: if (!errors || depth) break; error(to); break;
      case 14: if (!depth && !odd && choose(3) == 0) { S r = stmt('r'); r->row = rounds(g.bells); for (int i = 0; i < 2; ++i) if (choose(3)) r->row = ref::apply(r->row, gen_change(g.bells)); to.push_back(r); g.custom_rounds = true; } break;
      case 15: if (!depth) { S d = stmt('d'); d->k = choose(2) ? '?' : ':'; if (d->k == '?') { bool old = choose(2) && g.ints.size(); d->s = old ? pick(g.ints) : g.name("n", g.ints.size()); d->e = g.iexp(1); if (!old) g.ints.push_back(d->s); } else { d->s = g.name("n", g.ints.size()); E a = mk('i'), b = mk('i'); a->n = choose(60); b->n = choose(5) ? 1 + choose(9) : !errors; E m = choose(3) ? a : g.iexp(0); d->e = mk('A', {m, b}); d->e->s = "/"; d->b = 1; g.ints.push_back(d->s); } to.push_back(d); } break;
      default: to.push_back(stmt('V')); break;
    }
  }
};
void make(Session& z, bool allow_ms = true) {
  Gen& g = z.g; World& w = z.w; z.ms = w.ms = g.ms = allow_ms && choose(6) == 0; g.bells = 3 + choose(choose(4) ? 5 : 10); g.w = &w; init(w); w.rounds_ = Row();
  z.bells_arg = choose(2); if (choose(8) == 0) { z.bells_arg = true; Row r = rounds(g.bells); for (int i = 0; i < 2; ++i) r = ref::apply(r, gen_change(g.bells)); w.rounds_ = r; z.args.push_back("-r" + str(r)); g.custom_rounds = true; }
  if (z.bells_arg) { if (w.rounds_.empty()) w.rounds_ = rounds(g.bells); w.bells = g.bells; w.line(); z.args.push_back(choose(2) ? "-b" + std::to_string(g.bells) : "--bells=" + std::to_string(g.bells)); }
  else { S b = stmt('b'); b->a = g.bells; z.ss.push_back(b); }
  if (choose(8) == 0) { w.extents = 1 + choose(3); z.args.push_back("-n" + std::to_string(w.extents)); }
  if (choose(6) == 0) { w.quiet = 1 + choose(2); z.args.push_back(w.quiet == 1 ? "-q" : choose(2) ? "-qq" : "--quiet"); if (z.args.back() == "--quiet") w.quiet = 1; }
  if (choose(8) == 0) { w.everyrow_only = true; z.args.push_back("-E"); }
  if (choose(20) == 0) { w.no_import = true; z.args.push_back("--disable-import"); }
  if (!z.ms && choose(12) == 0) { z.nocase = true; z.args.push_back(choose(2) ? "-I" : "--case-insensitive"); }
  if (choose(30) == 0) { w.determine = true; w.quiet = 2; z.args.push_back("--determine-bells"); }
  if (choose(16) == 0) { w.trace_all = true; z.args.push_back("--trace-all-symbols"); }
  if (choose(12) == 0) { Pat p; int n = 1 + choose(2); bool front = choose(2), dot = choose(3) == 0; if (!front) p.t.push_back({'*', {}}); for (int i = 0; i < n; ++i) if (dot && i == 0) p.t.push_back({'?', {}}); else p.t.push_back({'b', {front ? i : g.bells - n + i}}); if (front) p.t.push_back({'*', {}}); for (auto& t : p.t) p.s += t.k == '*' ? string("*") : t.k == '?' ? string("?") : string(1, bell_char(t.b[0])); w.has_mask = true; w.maskp = p; z.args.push_back("--row-mask=" + p.s); if (w.bells) w.line(); }
  if (choose(24) == 0) { for (auto n : {"__summary__", "__music__", "true", "notround", "false", "tooshort", "toolong", "conflict", "rounds", "start", "finish", "abort", "everyrow"}) w.sym.erase(n); z.args.push_back("--no-init-file");
    for (auto n : {"true", "notround", "false", "tooshort", "toolong", "conflict", "rounds", "start", "finish", "abort", "everyrow"}) if (choose(20)) { S d = stmt('d'); d->s = n; d->e = choose(2) || z.nocase ? mk('0') : g.str_(); z.ss.push_back(d); } }
  if (choose(10) == 0) { w.prove_one = true; z.args.push_back("--prove-one"); }
  if (choose(8) == 0) { w.trace.push_back("b0"); z.args.push_back("--trace-symbol=b0"); if (choose(2)) { w.trace.push_back("start"); z.args.push_back("--trace-symbol=start"); } }
  if (choose(8) == 0) { long a = 1 + choose(20), b = a + choose(30); int o = choose(4); if (o == 0) { a = 0; z.args.push_back("--length=-" + std::to_string(b)); } else if (o == 1) { b = 0; z.args.push_back("--length=" + std::to_string(a) + "-"); } else if (a == b) z.args.push_back("--length=" + std::to_string(a)); else z.args.push_back("--length=" + std::to_string(a) + "-" + std::to_string(b)); w.min = a; w.max = b; E m = mk('i'), x = mk('i'); m->n = a; x->n = b; w.sym["min_length"] = m; w.sym["max_length"] = x; }
  if (!z.ms && g.bells >= 4 && g.bells <= 12 && choose(5) == 0) { string t = fmt("*** S%d\n", g.bells); int n = 1 + choose(4); for (int i = 0; i < n; ++i) { GenMethod m; vector<Change> h; int half = 1 + choose(5); for (int k = 0; k < half; ++k) h.push_back(gen_change(g.bells)); Change le = gen_change(g.bells); m.m = h; for (int k = half - 2; k >= 0; --k) m.m.push_back(h[k]); m.m.push_back(le); bool dup = false; for (auto& l : g.lib) dup |= l.second == m.m; if (dup) continue;   // a method set holds a method once
      string nm = "Lib" + string(1, 'a' + i); t += nm + " " + (le.places().empty() ? string("X") : le.pn()) + "z &" + join_pn(h) + "\n"; Quiet q; g.lib.push_back({to(m.m, g.bells, nm.c_str()).fullname(), m.m}); }
    io::put("/sim/methods.mtd", t); op("library: %s", t.c_str()); z.args.push_back(choose(2) ? "-L/sim/methods.mtd" : "--library=/sim/methods.mtd"); }
  if (z.ms) z.prove_sym = "__first__"; else if (choose(6) == 0) z.prove_sym = choose(2) ? "__first__" : "b0";
  if (z.prove_sym == "b0") z.args.push_back(z.nocase && choose(2) ? "-PB0" : choose(2) ? "-Pb0" : "--prove=b0"); else if (z.prove_sym.size() && !z.ms) z.args.push_back("-P");
}
// Everything the program is expected to do with the session.
void expect_init(Session& z) {
  World& w = z.w;
  for (auto& d : z.strs) { E e = mk('S'); e->s = d.second; w.define(d.first, e); }
  try { for (auto& d : z.dstm) run1(w, d); } catch (Err&) { throw Exit{2}; } catch (Abort) { throw Exit{2}; }
  for (auto& m : z.mods) { bool in = w.interactive; w.interactive = false; run(w, m.second); w.interactive = in; }
  w.first = nullptr; if (w.everyrow_only) w.sym["everyrow"] = strn("@");
}
void expect_run(Session& z) {
  World& w = z.w; w.failed = false; run(w, z.ss);
  bool any = z.noread; for (auto& s : z.ss) { if (s->k == 'q') break; any |= s->k != 'X'; }
  if (z.prove_sym.size() && any) { try { if (z.pexp) prove(w, z.pexp); else if (z.prove_sym == "__first__") { if (!w.done && w.first) { w.sym["__first__"] = w.first; prove(w, symn("__first__")); } } else prove(w, symn(z.prove_sym)); } catch (Err&) { throw Exit{2}; } }
  if (w.prove_one && !w.done) throw Exit{2};
}
int expect(Session& z) { Quiet q; try { expect_init(z); expect_run(z); } catch (Exit& e) { return e.code; } return z.w.failed && !z.w.determine ? 1 : 0; }
// A definition made by an option.
string define(Session& z, Printer& pr, string const& name, bool block) {
  Gen& g = z.g; S d = stmt('d'); d->s = name; d->e = block ? g.block(1, choose(2)) : g.iexp(1); if (!block) d->k = choose(3) == 0 ? '?' : choose(2) ? ':' : 'd'; else if (choose(4) == 0) d->k = '?';
  string t = name + (d->k == '?' ? "?=" : d->k == ':' ? ":=" : "=") + (d->e->k == ',' ? pr.x(d->e) : pr.p(d->e)); z.dstm.push_back(d); z.args.push_back(choose(2) ? "-D" + t : "--define=" + t); return t; }
// Builds a session: its files, its options and its script; the result is the script's text.
string build(Session& z, bool inter = false) {
  Gen& g = z.g; World& w = z.w; Printer pr{z.ms, true, z.nocase}; z.inter = inter;
  int nf = z.ms ? 0 : choose(3);
  size_t nb = 1 + choose(4);
  if (choose(3) == 0) z.value(z.ss);
  if (choose(4) == 0) z.value(z.ss);
  for (size_t i = 0; i < nb; ++i) z.define_block(z.ss);
  static const char* ext[] = { "", ".gsir", ".sir" };
  for (int i = 0; i < nf; ++i) { vector<S> f; if (z.bells_arg && choose(3) == 0) { S b = stmt('b'); b->a = g.bells; f.push_back(b); } int n = 1 + choose(3); for (int j = 0; j < n; ++j) { S d = stmt('d'); d->s = "imp" + std::to_string(i) + std::to_string(j); d->e = choose(3) ? g.block(1, false) : g.str_(); f.push_back(d); } if (choose(4) == 0) z.special(f); if (choose(5) == 0) { S p = stmt('p'); p->e = g.block(1, false); f.push_back(p); } if (choose(12) == 0) { S x = stmt('X'); x->text = "bad file line"; f.push_back(x); }
    if (i && choose(3) == 0) { S im = stmt('i'); im->s = im->text = w.files.begin()->first; f.insert(f.begin() + choose(f.size() + 1), im); }
    if (z.bells_arg && !g.custom_rounds && !w.has_mask && choose(5) == 0) { z.odd = true; S b = stmt('b'); b->a = 3 + choose(10); f.push_back(b); S d = stmt('d'); Gen h; h.bells = b->a; h.ms = false; d->s = "odd" + std::to_string(i); d->e = h.pn(); f.push_back(d); }
    string base = "mod" + std::to_string(i); bool path = choose(2); string nm = path ? base : "/sim/" + base; string at = path ? "/sim/" + string(choose(2) ? "one/" : "two/") + base : nm; int xi = choose(3); string stem = at; at += ext[xi]; w.files[nm] = f;
    if (choose(3) == 0) { const char* bad = "this is not the file to import\n"; for (int k = xi + 1; k < 3; ++k) io::put(stem + ext[k], bad); if (path && stem.find("/one/") != string::npos) io::put("/sim/two/" + base + ext[choose(3)], bad); } io::put(at, pr.all(f)); z.paths.push_back(at); op("file %s: %s", at.c_str(), io::get(at).c_str()); }
  setenv("GSIRIL_LIBRARY_PATH", "/sim/one:/sim/two", 1); io::file("/sim/one/x");
  int nr = 1 + choose(6); for (int i = 0; i < nr; ++i) z.rest(z.ss, 0);
  if (z.prove_sym.empty() || choose(2)) { S p = stmt('p'); p->e = g.block(3, false); z.ss.push_back(p); }
  if (!w.prove_one && !z.ms && choose(10) == 0) { z.ss.insert(z.ss.begin() + z.ss.size() - choose(2), stmt('q')); }
  if (nf && !z.odd && choose(4) == 0) { S i = stmt('i'); i->s = i->text = w.files.begin()->first; size_t lo = z.bells_arg ? 0 : 1; z.ss.insert(z.ss.begin() + lo + (choose(2) ? 0 : choose(z.ss.size() - lo)), i); }
  // modules and definitions given as options come first
  if (z.bells_arg && nf && !z.odd && choose(3) == 0) { string nm = w.files.begin()->first; z.mods.push_back({nm, w.files.begin()->second}); z.args.push_back("-m"); z.args.push_back(nm); }
  if (choose(8) == 0) { z.strs.push_back({"opt", "some text"}); z.args.push_back("-Sopt=some text"); S p = stmt('p'); p->e = mk(',', {g.block(1, false), symn("opt")}); z.ss.push_back(p); }
  if (z.bells_arg && !z.ms && choose(8) == 0) { string t = define(z, pr, "dd", true); S p = stmt('p'); p->e = mk(',', {symn("dd"), g.block(1, false)}); z.ss.push_back(p); }
  if (!z.ms && !z.nocase && z.prove_sym == "b0" && choose(2)) { z.pexp = g.block(2, false); for (auto& a : z.args) if (a.find("b0") != string::npos && (a[1] == 'P' || a.find("--prove=") == 0)) a = a.substr(0, a.size() - 2) + (z.pexp->k == ',' ? pr.x(z.pexp) : pr.item(z.pexp)); }
  if (z.ss.size() == 1) discard();
  string text = pr.all(z.ss); if (choose(6) == 0) while (!text.empty() && (text.back() == '\n' || text.back() == ' ')) text.pop_back();
  if (inter) { w.interactive = true; z.args.push_back("-i"); }
  return text;
}
AppRun command(Session& z) { AppRun r; r.args = {z.ms ? "/usr/bin/msiril" : "gsiril"}; if (z.ms && choose(2)) { r.args[0] = "gsiril"; r.args.push_back("--msiril"); } for (auto& a : z.args) r.args.push_back(a); return r; }
// Hands the script over: on standard input (0), in a file (1) or as an argument (2).
void deliver(AppRun& r, string const& text, int how) {
  if (how == 0) { r.in.data = text; r.in.mode = choose(4); } else if (how == 1) { string f = "/sim/script"; io::put(f, text); r.args.push_back(choose(2) ? "-f" + f : "--script-file=" + f); } else { r.args.push_back("-e"); r.args.push_back(text); if (text.empty() || text[0] == '-') discard(); }
  io::policy.read_mode = choose(4); if (choose(3) == 0) io::policy.eintr_pct = 30;
}
void check_output(string const& out, string const& want, string const& err, const char* sig = "gsiril.output") {
  if (out == want) return;
  size_t i = 0; while (i < out.size() && i < want.size() && out[i] == want[i]) ++i; violation(sig, "output differs at byte %zu: printed %s, should be %s (stderr %s)", i, quote(out.substr(i > 40 ? i - 40 : 0, 160)).c_str(), quote(want.substr(i > 40 ? i - 40 : 0, 160)).c_str(), quote(err).c_str());
}
}

SCENARIO(gsiril_session, "P12", 3) {
  Session z; make(z); World& w = z.w; bool inter = !z.ms && choose(8) == 0; string text = build(z, inter);
  int code = expect(z); AppRun r = command(z); deliver(r, text, inter ? 1 + choose(2) : choose(3));
  op("script: %s", text.c_str()); run_app(r, app_main); op("ran %s", show_args(r).c_str()); io::clear_faults();
  Quiet q; if (w.proofs || code == 2) nontrivial(); if (w.proofs > 1) probe("several proofs"); if (w.aborts) probe("proof abandoned"); if (w.clones) probe("speculative execution"); if (code == 2) probe("script error"); if (z.ms) probe("MicroSiril");
  string out = r.out; if (inter) { size_t b = out.find("Ringing Class Library"), n = b == string::npos ? b : out.find("v2+\n", b); if (n != string::npos) out.erase(b, n + 4 - b); if (code < 2) w.out += "\n"; }
  state(mix(hash(w.out), code)); event("expect", "%d %s", code, quote(w.out, 400).c_str());
  SIM_CHECK(r.threw.empty(), "gsiril.threw", "the program let an exception out: %s", r.threw.c_str());
  SIM_CHECK(r.code == code, "gsiril.exit", "exit status %d, should be %d (stdout %s, stderr %s)", r.code, code, quote(r.out).c_str(), quote(r.err).c_str());
  check_output(out, w.out, r.err);
  SIM_CHECK(code != 2 || !r.err.empty(), "gsiril.silent", "exit status 2 with no message");
}

// Methods come in on standard input; those for which the script's proofs hold go out.
namespace { void filter_session(bool fault) {
  Session z; make(z, false); World& w = z.w; Gen& g = z.g; if (!z.bells_arg || w.prove_one || z.prove_sym == "__first__") discard();
  w.filter = true; z.errors = choose(4) == 0; string m = "m", lh = "lh", pay; bool full = choose(4) == 0; z.args.push_back("--filter"); bool bytes = choose(2);
  if (choose(4) == 0) { m = "lead"; z.args.push_back("--lead-symbol=" + m); }
  if (choose(4) == 0) { lh = "le"; z.args.push_back("--lh-symbol=" + lh); }
  if (full) z.args.push_back("--lead-includes-lh");
  if (choose(3) == 0) { pay = "data"; z.args.push_back("--payload-symbol=" + pay); }
  g.blocks = {m, lh}; g.pure = {true, true}; Printer pr{false, true};
  int nd = choose(3); for (int i = 0; i < nd; ++i) z.define_block(z.ss);
  int nr = choose(3); for (int i = 0; i < nr; ++i) z.rest(z.ss, 0);
  { S p = stmt('p'); if (choose(2)) p->e = g.block(3, false); else { E rep = mk('*', {mk(',', {symn(m), symn(lh)})}); rep->n = 1 + choose(7); E l = rep; if (full) rep->kid[0] = symn(m); p->e = rep; } if (p->e->k != ',' && pay.size() && choose(2)) { E e = mk('s'); e->s = "${" + pay + "}"; p->e = mk(',', {p->e, e}); } z.ss.push_back(p); }
  if (pay.size() && choose(2)) { S e = stmt('e'); e->e = strn("<${" + pay + "}>"); z.ss.push_back(e); }
  string text = pr.all(z.ss), in; if (text[0] == '-') discard();
  struct M { Method m; string pn, payload; bool bad; }; vector<M> ms; int nm = choose(7);
  for (int i = 0; i < nm; ++i) { M k; GenMethod gm = gen_method(g.bells, 8); k.m = gm.m; k.pn = gm.pn; k.bad = false; if (choose(10) == 0) { k.bad = true; static const char* b[] = { "1?2", "&2..", "ZZ", "+" }; k.pn = b[choose(2)]; } int np = choose(3); for (int j = 0; j < np; ++j) k.payload += (j ? " " : "") + gen_word(); ms.push_back(k);
    if (choose(6) == 0) in += choose(2) ? "\n" : "  \n"; if (choose(6) == 0) in += " "; if (choose(6) == 0) in += std::to_string(g.bells) + ":"; else if (choose(10) == 0) in += std::to_string(g.bells + 1) + ":" + k.pn + "\n"; in += k.pn + (k.payload.empty() ? "" : choose(2) ? " " : "\t") + k.payload + (choose(8) == 0 ? " \r\n" : "\n"); }
  if (!in.empty() && choose(5) == 0) in.pop_back();
  AppRun r = command(z); deliver(r, text, 1 + choose(2)); r.in.data = in; r.in.mode = choose(4); (void)bytes;
  int code = 0, passed = 0, bad = 0; { Quiet q; try { expect_init(z);
    for (auto& k : ms) { if (k.bad) { ++bad; continue; } Method b = k.m; E e = mk('p'); e->pn = {b.back()}; w.define(lh, e); if (!full) b.pop_back(); E me = mk('p'); me->pn = b; w.define(m, me); if (pay.size()) { E pe = mk('S'); pe->s = k.payload; w.define(pay, pe); }
      expect_run(z); if (w.failed) continue; ++passed; ringing::method rm = to(k.m, g.bells, ""); string data = k.payload; if (pay.size()) { Ctx c(w); c.silent = true; data = seval(lookup(c, pay), c); } w.out += rm.format(ringing::method::M_DASH | ringing::method::M_SYMMETRY | ringing::method::M_PLUS) + "\t" + data + "\n"; }
    } catch (Exit& e) { code = e.code; } }
  string lost; if (fault) { if (choose(4)) r.in.fail_at = choose(in.size() + 1); else { bool file = io::exists("/sim/script"); if (!file) discard(); io::file_policy["/sim/script"].eio_after = choose(text.size() + 1); } }
  op("script: %s", text.c_str()); op("methods: %s", in.c_str()); run_app(r, app_main); op("ran %s", show_args(r).c_str()); io::clear_faults();
  Quiet q; if (ms.size()) nontrivial(); if (passed && passed + bad < (int)ms.size()) probe("some methods pass and some do not"); if (bad) probe("bad method skipped");
  state(mix(hash(w.out), code)); event("expect", "%d %s", code, quote(w.out, 400).c_str());
  if (fault && (r.in_failed || R->faults[F_READ_EIO])) { probe("failed part way through"); SIM_CHECK(r.code >= 1 && r.code <= 3 && !r.err.empty(), "filter.read", "reading failed yet the exit status is %d (stdout %s, stderr %s)", r.code, quote(r.out).c_str(), quote(r.err).c_str()); if (bad) return;
    SIM_CHECK(w.out.compare(0, r.out.size(), r.out) == 0, "filter.prefix", "printed %s, which is not how %s begins", quote(r.out).c_str(), quote(w.out).c_str()); return; }
  SIM_CHECK(r.code == code, "filter.exit", "exit status %d, should be %d (stdout %s, stderr %s)", r.code, code, quote(r.out).c_str(), quote(r.err).c_str());
  check_output(r.out, w.out, r.err, "filter.output");
} }
SCENARIO(gsiril_filter, "P12", 1) { filter_session(false); }
SCENARIO(gsiril_filter_fault, "P13", 1) { filter_session(true); }

// One failure: of the input, of storage, or of memory.
SCENARIO(gsiril_fault, "P13", 2) {
  Session z; make(z); World& w = z.w; z.errors = choose(3) == 0; string text = build(z); int code = expect(z); bool quits = false; for (auto& s : z.ss) quits |= s->k == 'q';
  if (quits) discard();
  AppRun r = command(z); int what = choose(4), how = what == 0 ? 0 : what == 1 ? 1 : choose(3); deliver(r, text, how); string lost;
  switch (what) {
    case 0: r.in.fail_at = choose(text.size() + 1); break;
    case 1: io::file_policy["/sim/script"].eio_after = choose(text.size() + 1); if (choose(3) == 0) io::file_policy["/sim/script"].eio_once = true; break;
    case 2: if (w.files.empty()) { r.alloc_fail = 1 + choose(choose(2) ? 4000 : 60000); break; } lost = pick(z.paths); if (choose(3) == 0) io::remove(lost); else io::file_policy[lost].eio_after = choose(io::get(lost).size() + 1); break;
    default: r.alloc_fail = 1 + choose(choose(2) ? 4000 : choose(2) ? 20000 : 200000); r.alloc_k = choose(3) ? 1 : 1 + choose(50); break;
  }
  event("plan", "%d %s", what, lost.c_str()); op("script: %s", text.c_str()); run_app(r, app_main); op("ran %s", show_args(r).c_str()); io::clear_faults();
  Quiet q; bool hit = r.in_failed || r.alloc_fired || R->faults[F_READ_EIO]; if (hit) nontrivial(); if (hit && code == 0) probe("a good touch met a failure"); if (hit && r.code == 0) probe("failure made no difference");
  if (hit && (int)w.proofs && r.out.size() && r.out.size() < w.out.size()) probe("stopped between proofs");
  state(mix(hash(r.out), r.code)); event("expect", "%d %s", code, quote(w.out, 400).c_str());
  SIM_CHECK(r.threw.empty(), "fault.threw", "the program let an exception out: %s", r.threw.c_str());
  if (r.aborted && r.alloc_fired) { probe("ended by the runtime, out of memory"); return; }
  SIM_CHECK(r.code >= 0 && r.code <= 3, "fault.code", "exit status %d", r.code);
  if (what == 2 && lost.size() && !io::exists(lost)) { SIM_CHECK(r.code == code || r.code == 2, "fault.gone", "exit status %d without %s, should be %d or 2", r.code, lost.c_str(), code); return; }
  if (r.in_failed || R->faults[F_READ_EIO]) SIM_CHECK(r.code >= 1 && !r.err.empty(), "fault.read", "reading failed yet the exit status is %d (stdout %s, stderr %s)", r.code, quote(r.out).c_str(), quote(r.err).c_str());
  if (!hit) { SIM_CHECK(r.code == code, "fault.none", "nothing failed and the exit status is %d, should be %d (stderr %s)", r.code, code, quote(r.err).c_str()); check_output(r.out, w.out, r.err, "fault.none"); return; }
  if (r.code < 2) { SIM_CHECK(r.code == code, "fault.verdict", "the verdict is %d after a failure, should be %d (stdout %s, stderr %s)", r.code, code, quote(r.out).c_str(), quote(r.err).c_str()); check_output(r.out, w.out, r.err, "fault.verdict"); }
  else SIM_CHECK(w.out.compare(0, r.out.size(), r.out) == 0, "fault.prefix", "printed %s, which is not how %s begins", quote(r.out).c_str(), quote(w.out).c_str());
}

// The work limit: a session that needs K nodes stops exactly when the limit is K or less.
SCENARIO(gsiril_limit, "P13", 1) {
  Session z; make(z); World& w = z.w; z.errors = false; string text = build(z); int code = expect(z); if (code > 1 || z.w.no_import) discard();
  AppRun r = command(z); deliver(r, text, 1 + choose(2)); AppRun r2 = r; r.args.push_back("--print-node-count"); op("script: %s", text.c_str()); run_app(r, app_main);
  long k = -1; { Quiet q; SIM_CHECK(r.code == code, "limit.free", "exit status %d, should be %d", r.code, code); size_t i = r.err.find("Executed "); if (i != string::npos) k = atol(r.err.c_str() + i + 9); SIM_CHECK(k >= 0, "limit.count", "no node count in %s", quote(r.err).c_str()); } if (k == 0) discard();
  long n = 1 + (choose(2) ? choose(k + 3) : std::max(0L, k - 3 + choose(6))); r2.args.push_back("--node-limit=" + std::to_string(n)); event("limit", "%ld of %ld", n, k); run_app(r2, app_main); op("ran %s", show_args(r2).c_str());
  Quiet q; nontrivial(); probe(n <= k ? "stopped by the limit" : "within the limit"); state(mix(n <= k, hash(r2.out)));
  if (n > k) { SIM_CHECK(r2.code == code, "limit.within", "exit status %d with a limit of %ld for %ld nodes, should be %d (stderr %s)", r2.code, n, k, code, quote(r2.err).c_str()); check_output(r2.out, w.out, r2.err, "limit.within"); }
  else { SIM_CHECK(r2.code == 2 && !r2.err.empty(), "limit.reached", "exit status %d with a limit of %ld for %ld nodes, should be 2 (stderr %s)", r2.code, n, k, quote(r2.err).c_str()); SIM_CHECK(w.out.compare(0, r2.out.size(), r2.out) == 0, "limit.prefix", "printed %s, which is not how %s begins", quote(r2.out).c_str(), quote(w.out).c_str()); }
}

// A script that would run for ever stops at the limit, wherever in the script the endless part is.
SCENARIO(gsiril_endless, "P13", 1) {
  Session z; make(z, false); World& w = z.w; z.errors = false; if (z.prove_sym.size() || w.prove_one || w.max) discard(); string text = build(z); if (expect(z) > 1 || w.max) discard(); for (auto& s : z.ss) if (s->k == 'q') discard();
  static const char* e[] = { "prove repeat(\"x\")", "zz = 1, zz\nprove zz", "conflict =\nprove repeat(+1)", "conflict =\nprove {repeat(+1), rounds: +1}", "everyrow = {repeat(\"\"), rounds: \"y\"}\nprove +1", "everyrow = { {repeat(\"\"), false: \"\"}, rounds: \"y\"}\nprove +1", "prove 1000000000(\"\")", "zz = zz\nprove {zz > 1: +1}", "zz = \"${zz}\"\necho \"${zz}\"", "zz = zz + 1\nyy := zz", "conflict =\nzz = 2(+1, zz)\nprove zz", "if zz == 1\n  prove +1\nendif", "zz = {length < 1: zz; true: zz}\nstart = zz\nprove +1", "abort = repeat(\"\")\nprove +1,\"$$\"", "true = repeat(\"\")\ntooshort = repeat(\"\")\nnotround = repeat(\"\")\nfalse = repeat(\"\")\nconflict=\nrounds=\nprove 2(+1)", "prove 1000000(1000000(\"\", 0 1))" };
  int k = choose(sizeof e / sizeof *e); string more = string("\nzz = zz\nstart =\nfinish =\neveryrow =\nrounds =\n") + e[k] + "\n"; text += more;
  AppRun r = command(z); deliver(r, text, choose(3)); r.args.push_back("--node-limit=" + std::to_string(1 + choose(choose(2) ? 300 : 2000))); event("endless", "%s", e[k]); op("script: %s", text.c_str()); run_app(r, app_main); op("ran %s", show_args(r).c_str()); Quiet q; nontrivial(); state(mix(k, hash(r.out)));
  SIM_CHECK(r.threw.empty(), "endless.threw", "the program let an exception out: %s", r.threw.c_str());
  SIM_CHECK(r.code == 2 && !r.err.empty(), "endless.limit", "exit status %d for an endless script, should be 2 (stderr %s)", r.code, quote(r.err).c_str());
}

// Any text at all, with a work limit: the program stops by itself with one of its exit statuses.
SCENARIO(gsiril_garbage, "P13", 1) {
  Session z; make(z); World& w = z.w; string text; { Session y; y.args.clear(); text = build(z); } (void)w;
  int n = 1 + choose(8); static const char* frag[] = { "(", ")", "{", "}", "[", "]", ",", ";", "\n", "~", "!", "&", "&&", "||", "+", "-", "*", "%", "/", "<<", ">>", "=", ":=", ".=", "?=", "++", "--", "\"", "'", "/", "//", "{N-", "&{", "+{1", "\\", "$", "$$", "${", "@", "#", " 0 ", " 1 ", " 9 ", " 64 bells\n", " bells ", " rows ", " extents ", "0 bells\n", "70 bells\n", "rounds", "endproof", "break", "repeat", "if ", "else", "endif", "foreach ", " as ", "endfor", "import ", "music ", "prove ", "save ", "echo ", "at(", "pos(", "swap(", "load(", "pnstr(", "methname(", "runs(", "crus()", "music()", "stagename(", "defined ", "b0", "b1", "n0", "s0", "\xff", "\x80", "\x1a", "\r", "\t", "\"\\x4\"", "\"\\u12\"", "\"\\x41\"", "/?*[1-8]/", "/[/", "/{1/", "'21'", "''" };
  for (int i = 0; i < n && !text.empty(); ++i) { size_t a = choose(text.size()); switch (choose(6)) { case 0: text.erase(a, 1 + choose(8)); break; case 1: text.insert(a, 1, text[choose(text.size())]); break; case 2: case 3: text.insert(a, frag[choose(sizeof frag / sizeof *frag)]); break; case 4: { size_t b = choose(text.size()); string t = text.substr(b, 1 + choose(30)); text.insert(a, t); break; } default: text[a] = choose(2) ? "(){}[],;\"'/&+*"[choose(14)] : 1 + choose(255); } }
  if (choose(8) == 0) text.resize(choose(text.size() + 1));
  AppRun r = command(z); int how = choose(3); if (how == 2 && (text.empty() || text[0] == '-' || text.find('\0') != string::npos)) how = 0; deliver(r, text, how);
  r.args.push_back("--node-limit=" + std::to_string(1 + choose(choose(3) ? 3000 : 100)));
  sim::alloc::biggest = 64 << 20; op("script: %s", quote(text, 2000).c_str()); run_app(r, app_main); op("ran %s", show_args(r).c_str()); Quiet q;
  nontrivial(); probe(r.code == 0 ? "still proves true" : r.code == 1 ? "still proves false" : "refused"); state(mix(r.code, hash(r.err)));
  SIM_CHECK(r.threw.empty(), "garbage.threw", "the program let an exception out: %s", r.threw.c_str());
  SIM_CHECK(r.code >= 0 && r.code <= 3, "garbage.code", "exit status %d", r.code);
  SIM_CHECK(r.code < 2 || !r.err.empty(), "garbage.silent", "exit status %d with no message", r.code);
}

// Nothing is read: everything is in the options.
SCENARIO(gsiril_noread, "P12", 1) {
  Session z; make(z, false); World& w = z.w; Gen& g = z.g; if (!z.bells_arg || z.ss.size()) discard(); z.noread = true; Printer pr{false, true, z.nocase}; z.args.push_back(choose(2) ? "-N" : "--no-read");
  int n = choose(5); for (int i = 0; i < n; ++i) if (choose(3)) { bool b = choose(3); string nm = g.name(b ? "b" : "n", b ? g.blocks.size() : g.ints.size()); define(z, pr, nm, b); if (b) { g.blocks.push_back(nm); g.pure.push_back(false); } else g.ints.push_back(nm); } else { string nm = "opt" + std::to_string(i); z.strs.push_back({nm, choose(2) ? "some text" : "x=@"}); z.args.push_back("-S" + nm + "=" + z.strs.back().second); }
  if (choose(3) == 0) { vector<S> f; int k = 1 + choose(3); for (int i = 0; i < k; ++i) z.define_block(f); if (choose(3) == 0) { S p = stmt('p'); p->e = g.block(1, false); f.push_back(p); } io::put("/sim/mod", pr.all(f)); op("file: %s", io::get("/sim/mod").c_str()); z.mods.push_back({"/sim/mod", f}); z.args.push_back(choose(2) ? "-m/sim/mod" : "--module=/sim/mod"); }
  for (size_t i = z.args.size(); i-- > 0;) if (z.args[i] == "-P" || z.args[i].find("-Pb0") == 0 || z.args[i] == "-PB0" || z.args[i].find("--prove=") == 0) z.args.erase(z.args.begin() + i);
  if (z.prove_sym.size() || choose(6)) { z.prove_sym = "expr"; if (z.nocase || choose(4) == 0) { z.pexp = symn(g.blocks.empty() || choose(4) == 0 ? string("nosuch") : pick(g.blocks)); if (z.strs.size() && choose(2)) z.pexp = symn(z.strs[choose(z.strs.size())].first); } else z.pexp = g.block(2, false); string t = z.pexp->k == ',' ? pr.x(z.pexp) : pr.item(z.pexp); z.args.push_back("-P" + t); }
  int code = expect(z); AppRun r = command(z); r.in.data = "prove nosuch\n"; run_app(r, app_main); op("ran %s", show_args(r).c_str()); Quiet q; if (w.proofs) { nontrivial(); probe("proved from the options alone"); } state(mix(hash(w.out), code)); event("expect", "%d %s", code, quote(w.out, 400).c_str());
  SIM_CHECK(r.code == code, "noread.exit", "exit status %d, should be %d (stdout %s, stderr %s)", r.code, code, quote(r.out).c_str(), quote(r.err).c_str());
  check_output(r.out, w.out, r.err, "noread.output");
}

// Options that cannot be carried out: a message, exit status 2 or 3, and nothing proved.
SCENARIO(gsiril_options, "P12", 1) {
  Session z; make(z); World& w = z.w; z.errors = false; string text = build(z); (void)w; AppRun r = command(z); string b = std::to_string(z.g.bells), up = str(rounds(z.g.bells + 1)), dn = str(rounds(z.g.bells - 1)); io::put("/sim/s", text); bool custom = false; for (auto& a : r.args) custom |= a.find("-r") == 0;
  vector<vector<string>> bad = { {"-b2"}, {"--bells=1"}, {"-b-4"}, {"-b34"}, {"--bells=64"}, {"-n0"}, {"-n-1"}, {"--extents=0"}, {"-b" + b, "-r" + up}, {"-b" + b, "-r" + dn}, {"-r" + b + b}, {"-e", "echo \"a\"", "-f/sim/s"}, {"-e", "echo \"a\"", "-N"}, {"-N", "-f/sim/s"}, {"--filter", "-b" + b}, {"--filter", "-N", "-b" + b}, {"-Sname"}, {"--string=name"}, {"-b" + b, "-Dprove +1"}, {"-D"}, {"-b" + b, "-Dx=+1;y=+1"}, {"-Dx"}, {"-D;"}, {"-D5 bells"}, {"-f/sim/nosuchfile"}, {"-f/sim/nosuchdir/x"}, {"--nosuchoption"}, {"-Z"}, {"--bells=x"}, {"--bells=6x"}, {"-b"}, {"--bells"}, {"--extents=x"}, {"--length=x"}, {"--length=5-2"}, {"--length="}, {"--node-limit=x"}, {"extra"}, {"-b" + b, "-r" + dn + "!"}, {"-b" + b, "-r" + string(z.g.bells, '1')}, {"-m/sim/nosuchmodule"}, {"-mnosuchmodule"}, {"--quiet=1"}, {"-E1"} };
  if (custom) { bad.push_back({"-b" + std::to_string(z.g.bells + 1)}); bad.push_back({"-b" + std::to_string(z.g.bells == 3 ? 5 : z.g.bells - 1)}); }
  auto v = bad[choose(bad.size())]; bool empty = v[0] == "-D" || v[0] == "-b" || v[0] == "--bells"; bool script = v[0] != "-e" && v[0] != "-N" && v[0] != "--filter" && v[0].find("-f") != 0; if (v[0] == "-r" + b + b) { if (z.bells_arg) discard(); v[0] = "-r" + str(rounds(z.g.bells)); }
  if (script) { if (choose(2)) r.args.push_back("-f/sim/s"); else r.in.data = text; } size_t at = empty ? r.args.size() : 1; r.args.insert((v[0].find("-b") == 0 || v[0].find("--b") == 0 || v[0].find("-n") == 0 || v[0].find("--e") == 0 || v.size() > 1 || v[0].find("-f") == 0) ? r.args.end() : r.args.begin() + at, v.begin(), v.end());
  op("script: %s", text.c_str()); run_app(r, app_main); op("ran %s", show_args(r).c_str()); Quiet q; nontrivial(); probe("refused options"); state(mix(hash(v[0]), hash(r.err))); 
  SIM_CHECK((r.code == 2 || r.code == 3) && !r.err.empty(), "options.accepted", "exit status %d (stdout %s, stderr %s)", r.code, quote(r.out).c_str(), quote(r.err).c_str());
  SIM_CHECK(r.out.empty() || z.mods.size(), "options.output", "it printed %s", quote(r.out).c_str());
}
