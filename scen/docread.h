// Reading and rendering PDF and PostScript documents, and the pictures they must show.
#ifndef VERIF_DOCREAD_H
#define VERIF_DOCREAD_H
// with one computed from the rows and options given.
#include "libmodel.h"
#include "simstream.h"
#include <ringing/print.h>
#include <ringing/print_pdf.h>
#include <ringing/print_ps.h>
#include <ringing/printm.h>
#include <memory>
#include <array>
#include <functional>
#include <cmath>
#include <list>
#include <iostream>
using namespace ref; using namespace sim;
using ringing::printpage; using ringing::printrow; using ringing::printpage_pdf; using ringing::printpage_ps; using ringing::printmethod; using ringing::dimension; using ringing::text_style; using ringing::colour;

namespace {
// ------------------------------------------------------------------ pictures
struct Col { float c[3]; bool operator==(Col const& o) const { for (int i = 0; i < 3; ++i) if (fabs(c[i] - o.c[i]) > .011) return false; return true; } };
Col col(colour const& c) { if (c.grey) return Col{ { c.red, c.red, c.red } }; return Col{ { c.red, c.green, c.blue } }; }
enum MarkKind { GLYPH, LABEL, SEG, DOT, RING, BOX };
const char* kind_name[] = { "glyph", "text", "line", "dot", "circle", "box" };
struct Item { MarkKind k; string s; double x = 0, y = 0, x2 = 0, y2 = 0; Col c; bool has_c = true; double w = -1; string font; double size = 0; int al = 0; bool loose = false; };
typedef vector<Item> Page;
string show(Item const& i) { return sim::fmt("%s %s at (%.2f,%.2f)%s colour %.2f,%.2f,%.2f width %.2f %s %.1f", kind_name[i.k], quote(i.s, 40).c_str(), i.x, i.y, i.k == SEG || i.k == BOX ? sim::fmt("-(%.2f,%.2f)", i.x2, i.y2).c_str() : "", i.c.c[0], i.c.c[1], i.c.c[2], i.w, i.font.c_str(), i.size); }
struct Matrix { double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0; 
  void map(double x, double y, double& X, double& Y) const { X = a * x + c * y + e; Y = b * x + d * y + f; }
  Matrix pre(Matrix const& m) const { Matrix r; r.a = m.a * a + m.b * c; r.b = m.a * b + m.b * d; r.c = m.c * a + m.d * c; r.d = m.c * b + m.d * d; r.e = m.e * a + m.f * c + e; r.f = m.e * b + m.f * d + f; return r; } };
// Joins straight runs so that it does not matter how a line was cut up.
void add_seg(Page& p, Item s) {
  if (fabs(s.x - s.x2) < 1e-9 && fabs(s.y - s.y2) < 1e-9) return;
  if (!p.empty() && p.back().k == SEG && p.back().c == s.c && fabs(p.back().w - s.w) < .011) { Item& l = p.back(); double ux = l.x2 - l.x, uy = l.y2 - l.y, vx = s.x2 - s.x, vy = s.y2 - s.y;
    if (fabs(l.x2 - s.x) < .03 && fabs(l.y2 - s.y) < .03 && fabs(ux * vy - uy * vx) < .02 * sqrt((ux * ux + uy * uy) * (vx * vx + vy * vy)) && ux * vx + uy * vy > 0) { l.x2 = s.x2; l.y2 = s.y2; return; } }
  p.push_back(s);
}

// ------------------------------------------------------------------ PDF
struct PdfError { string what; };
[[noreturn]] void bad(string const& s) { throw PdfError{ s }; }
struct Pdf {
  string const& d; std::map<int, long> off; std::map<string, string> fonts; std::map<int, bool> used; int rotate = 0; double media[4];
  vector<Page> pages; vector<string> contents;
  explicit Pdf(string const& d) : d(d) {}
  static bool sp(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
  static void ws(string const& s, size_t& i) { while (i < s.size() && sp(s[i])) ++i; }
  static string tok(string const& s, size_t& i) {   // one token; strings decoded with a leading '('
    ws(s, i); if (i >= s.size()) return "";
    size_t b = i;
    if (s[i] == '(') { int depth = 1; string r = "("; ++i;
      while (true) { if (i >= s.size()) bad("unterminated string"); char c = s[i++];
        if (c == '\\') { char e = i < s.size() ? s[i++] : 0; switch (e) { case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case '\n': break;
            default: if (e >= '0' && e <= '7') { int v = e - '0'; for (int k = 0; k < 2 && i < s.size() && s[i] >= '0' && s[i] <= '7'; ++k) v = v * 8 + (s[i++] - '0'); r += (char)v; } else r += e; } }
        else if (c == '(') { ++depth; r += c; } else if (c == ')') { if (!--depth) return r; r += c; } else r += c; } }
    if (s.compare(i, 2, "<<") == 0 || s.compare(i, 2, ">>") == 0) { i += 2; return s.substr(b, 2); }
    if (s[i] == '[' || s[i] == ']' || s[i] == '{' || s[i] == '}') return string(1, s[i++]);
    if (s[i] == '/') ++i; while (i < s.size() && !sp(s[i]) && !strchr("()[]<>/{}%", s[i])) ++i;
    if (i == b) bad(string("unexpected character ") + s[i]);
    return s.substr(b, i - b);
  }
  static double num(string const& t) { char* e; double v = strtod(t.c_str(), &e); if (t.empty() || *e || !std::isfinite(v)) bad("number expected, got " + quote(t, 30)); return v; }
  typedef std::map<string, vector<string>> Dict;   // flat: key -> tokens, nested dictionaries keep their tokens
  Dict dict(string const& s, size_t& i) {
    if (tok(s, i) != "<<") bad("dictionary expected"); Dict r; string key; int depth = 1;
    while (true) { string t = tok(s, i); if (t.empty()) bad("unterminated dictionary"); if (t == "<<") ++depth; else if (t == ">>" && !--depth) break;
      if (depth == 1 && t[0] == '/' && (key.empty() || r[key].size())) { key = t; r[key]; } else { if (key.empty()) bad("dictionary value without key"); r[key].push_back(t); } }
    return r; }
  size_t object(int n) { auto o = off.find(n); if (o == off.end()) bad(sim::fmt("object %d is not in the cross-reference table", n)); used[n] = true; size_t i = o->second; string h = sim::fmt("%d 0 obj", n); if (o->second < 0 || d.compare(i, h.size(), h) != 0) bad(sim::fmt("cross-reference for object %d points at %s", n, quote(d.substr(std::min<size_t>(d.size(), std::max(0l, o->second)), 20)).c_str())); return i + h.size(); }
  static int reference(vector<string> const& v, size_t k = 0) { if (v.size() < k + 3 || v[k + 2] != "R" || v[k + 1] != "0") bad("reference expected"); return (int)num(v[k]); }
  void read() {
    if (d.compare(0, 7, "%PDF-1.") != 0) bad("no PDF header"); size_t e = d.rfind("startxref"); if (e == string::npos) bad("no startxref");
    size_t i = e + 9; long x = (long)num(tok(d, i)); ws(d, i); if (d.compare(i, 5, "%%EOF") != 0) bad("no %%EOF"); i += 5; ws(d, i); if (i != d.size()) bad("something after %%EOF");
    i = x; if (x < 0 || x > (long)d.size() || d.compare(i, 5, "xref\n") != 0) bad("startxref does not point at the table"); i += 5; if (tok(d, i) != "0") bad("first section"); int n = (int)num(tok(d, i)); if (d[i] != '\n') bad("section header"); ++i;
    for (int k = 0; k < n; ++k, i += 20) { string l = d.substr(i, 20); if (l.size() != 20 || l[10] != ' ' || l[16] != ' ' || (l[17] != 'n' && l[17] != 'f') || (l.substr(18) != " \n" && l.substr(18) != "\r\n")) bad(sim::fmt("cross-reference entry %d is %s", k, quote(l).c_str())); for (int j = 0; j < 10; ++j) if (!isdigit(l[j])) bad(sim::fmt("cross-reference entry %d is %s", k, quote(l).c_str())); if (l[17] == 'n') off[k] = atol(l.c_str()); }
    if (tok(d, i) != "trailer") bad("no trailer"); Dict t = dict(d, i); if (!t.count("/Size") || num(t["/Size"][0]) != n) bad("trailer size"); ws(d, i); if (i != e) bad("something between trailer and startxref");
    if (t.count("/Info")) { i = object(reference(t["/Info"])); dict(d, i); }
    i = object(reference(t["/Root"])); Dict cat = dict(d, i); if (cat["/Type"] != vector<string>{ "/Catalog" }) bad("root is not a catalogue"); int tree = reference(cat["/Pages"]);
    i = object(tree); Dict pg = dict(d, i); if (pg["/Type"] != vector<string>{ "/Pages" }) bad("page tree"); if (tok(d, i) != "endobj") bad("page tree is not closed");
    auto& mb = pg["/MediaBox"]; if (mb.size() != 6) bad("media box"); for (int k = 0; k < 4; ++k) media[k] = num(mb[k + 1]); if (pg.count("/Rotate")) rotate = (int)num(pg["/Rotate"][0]);
    auto& rs = pg["/Resources"]; for (size_t k = 0; k + 1 < rs.size(); ++k) if (rs[k] == "/Font") { if (rs[++k] != "<<") bad("font resources"); ++k; while (k < rs.size() && rs[k] != ">>") { string nm = rs[k]; int o = reference(rs, k + 1); k += 4; size_t j = object(o); Dict f = dict(d, j); if (f["/Type"] != vector<string>{ "/Font" } || f["/BaseFont"].size() != 1 || f["/Name"] != vector<string>{ nm }) bad("font object of " + nm); fonts[nm] = f["/BaseFont"][0].substr(1); } }
    auto& kids = pg["/Kids"]; if (kids.size() < 2 || kids.front() != "[" || kids.back() != "]" || (kids.size() - 2) % 3) bad("kids"); int np = (kids.size() - 2) / 3; if (pg["/Count"].empty() || num(pg["/Count"][0]) != np) bad("page count");
    std::set<int> seen;
    for (int p = 0; p < np; ++p) { int o = reference(kids, 1 + 3 * p); if (!seen.insert(o).second) bad("a page is listed twice"); i = object(o); Dict pd = dict(d, i); if (pd["/Type"] != vector<string>{ "/Page" } || reference(pd["/Parent"]) != tree) bad(sim::fmt("kid %d is not a page", p));
      i = object(reference(pd["/Contents"])); Dict st = dict(d, i); auto& L = st["/Length"]; long len; if (L.size() == 1) len = (long)num(L[0]); else { size_t j = object(reference(L)); len = (long)num(tok(d, j)); if (tok(d, j) != "endobj") bad("length object"); }
      if (tok(d, i) != "stream") bad("no stream"); if (d[i] == '\r') ++i; if (d[i] != '\n') bad("no line end after stream"); ++i; if (len < 0 || i + len > d.size()) bad("stream length"); string body = d.substr(i, len); i += len; size_t was = i; ws(d, i); if (i - was > 2 || d.compare(i, 9, "endstream") != 0) bad(sim::fmt("stream length %ld does not reach endstream", len)); contents.push_back(body); }
    for (auto& o : off) { object(o.first); } 
    for (auto& b : contents) pages.push_back(render(b));
  }
  struct G { Matrix m; Col fill{ { 0, 0, 0 } }, stroke{ { 0, 0, 0 } }; double lw = 1; };
  Page render(string const& s) {
    Page out; G g; vector<G> stack; vector<string> a; size_t i = 0; bool text = false; double tx = 0, ty = 0, lx = 0, ly = 0, Tc = 0, TL = 0, Tz = 100, size = 0; string font; ringing::charwidths cw;
    struct Sub { vector<std::pair<double, double>> p; bool curve = false; }; vector<Sub> path; vector<std::array<double, 4>> rects;
    auto N = [&](size_t want) { if (a.size() != want) bad(sim::fmt("%zu operands where %zu are needed", a.size(), want)); vector<double> v; for (auto& x : a) v.push_back(num(x)); return v; };
    auto width = [&](string const& t) { return cw(t) * size / 1000 + Tc * t.size(); };
    auto put = [&](string const& t, bool row) { if (font.empty()) bad("text without a font"); Item it; it.k = row ? GLYPH : LABEL; it.s = t; double w = row ? cw(t) * size / 1000 : width(t); w *= Tz / 100; double x = tx, X, Y, X2, Y2; g.m.map(x, ty, X, Y); g.m.map(x + w, ty, X2, Y2); it.x = X; it.y = Y; it.x2 = X2; it.y2 = Y2; it.c = g.fill; it.font = fonts[font]; it.size = size; out.push_back(it); };
    while (true) {
      string t = tok(s, i); if (t.empty()) { Pdf::ws(s, i); if (i >= s.size()) break; }
      if (t[0] == '(' || t[0] == '/' || t == "[" || t == "]" || isdigit(t[0]) || t[0] == '-' || t[0] == '.' || t[0] == '+') { a.push_back(t); continue; }
      auto seg = [&](Sub const& p) { for (size_t k = 1; k < p.p.size(); ++k) { Item it; it.k = SEG; it.x = p.p[k - 1].first; it.y = p.p[k - 1].second; it.x2 = p.p[k].first; it.y2 = p.p[k].second; it.c = g.stroke; it.w = g.lw; add_seg(out, it); } };
      if (t == "q") { N(0); stack.push_back(g); } else if (t == "Q") { N(0); if (stack.empty()) bad("Q without q"); g = stack.back(); stack.pop_back(); }
      else if (t == "cm") { auto v = N(6); Matrix m; m.a = v[0]; m.b = v[1]; m.c = v[2]; m.d = v[3]; m.e = v[4]; m.f = v[5]; g.m = g.m.pre(m); }
      else if (t == "w") g.lw = N(1)[0];
      else if (t == "g" || t == "G") { double v = N(1)[0]; (t == "g" ? g.fill : g.stroke) = Col{ { (float)v, (float)v, (float)v } }; }
      else if (t == "rg" || t == "RG") { auto v = N(3); (t == "rg" ? g.fill : g.stroke) = Col{ { (float)v[0], (float)v[1], (float)v[2] } }; }
      else if (t == "m") { auto v = N(2); Sub p; double X, Y; g.m.map(v[0], v[1], X, Y); p.p.push_back({ X, Y }); path.push_back(p); }
      else if (t == "l") { auto v = N(2); if (path.empty()) bad("l without m"); double X, Y; g.m.map(v[0], v[1], X, Y); path.back().p.push_back({ X, Y }); }
      else if (t == "c") { auto v = N(6); if (path.empty()) bad("c without m"); path.back().curve = true; for (int k = 0; k < 6; k += 2) { double X, Y; g.m.map(v[k], v[k + 1], X, Y); path.back().p.push_back({ X, Y }); } }
      else if (t == "re") { auto v = N(4); double X, Y, X2, Y2; g.m.map(v[0], v[1], X, Y); g.m.map(v[0] + v[2], v[1] + v[3], X2, Y2); rects.push_back({ X, Y, X2, Y2 }); }
      else if (t == "S" || t == "f") { N(0); if (text) bad("painting inside a text object");
        for (auto& p : path) { if (p.curve) { double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto& q : p.p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); } Item it; it.k = t == "f" ? DOT : RING; it.x = (x0 + x1) / 2; it.y = (y0 + y1) / 2; it.w = (x1 - x0) / 2; it.c = t == "f" ? g.fill : g.stroke; out.push_back(it); }
          else if (t == "S") { seg(p); Item brk; brk.k = SEG; brk.x = brk.x2 = brk.y = brk.y2 = -1e6; brk.w = -5; out.push_back(brk); } }
        for (auto& r : rects) { Item it; it.k = BOX; it.x = std::min(r[0], r[2]); it.x2 = std::max(r[0], r[2]); it.y = std::min(r[1], r[3]); it.y2 = std::max(r[1], r[3]); it.c = t == "f" ? g.fill : g.stroke; out.push_back(it); }
        path.clear(); rects.clear(); }
      else if (t == "BT") { N(0); if (text) bad("nested BT"); text = true; tx = ty = lx = ly = 0; Tc = 0; Tz = 100; } else if (t == "ET") { N(0); if (!text) bad("ET without BT"); text = false; }
      else if (t == "Tf") { if (a.size() != 2) bad("Tf operands"); font = a[0]; if (!fonts.count(font)) bad("font " + font + " is not in the resources"); if (!cw.font(fonts[font])) bad("no metrics for " + fonts[font]); size = num(a[1]); }
      else if (t == "Tc") Tc = N(1)[0]; else if (t == "TL") TL = N(1)[0]; else if (t == "Tz") Tz = N(1)[0];
      else if (t == "Td") { auto v = N(2); if (!text) bad("Td outside text"); lx += v[0]; ly += v[1]; tx = lx; ty = ly; }
      else if (t == "T*") { N(0); if (!text) bad("T* outside text"); ly -= TL; tx = lx; ty = ly; }
      else if (t == "Tj") { if (!text || a.size() != 1 || a[0][0] != '(') bad("Tj"); put(a[0].substr(1), false); tx += width(a[0].substr(1)) * Tz / 100; }
      else if (t == "TJ") { if (!text || a.size() < 2 || a[0] != "[" || a.back() != "]") bad("TJ"); for (size_t k = 1; k + 1 < a.size(); ++k) if (a[k][0] == '(') for (size_t j = 1; j < a[k].size(); ++j) { string ch(1, a[k][j]); if (ch != " ") put(ch, true); tx += width(ch) * Tz / 100; } else tx -= num(a[k]) / 1000 * size * Tz / 100; }
      else bad("unknown operator " + quote(t, 30));
      a.clear();
    }
    if (!a.empty()) bad("operands left over"); if (text) bad("text object not closed"); if (!stack.empty()) bad("q without Q"); if (!path.empty()) bad("path not painted");
    Page r; for (auto& it : out) if (!(it.k == SEG && it.w == -5)) r.push_back(it); return r;
  }
};

// ------------------------------------------------------------------ PostScript
struct Ps {
  struct V { enum T { NUM, BOOL, STR, NAME, LIT, PROC, DICT, MISC } t = NUM; double n = 0; std::shared_ptr<string> s; std::shared_ptr<vector<V>> p; std::shared_ptr<std::map<string, V>> d; };
  struct G { Matrix m; Col c{ { 0, 0, 0 } }; double lw = 1; string font; double size = 0; struct Sub { vector<std::pair<double, double>> p; bool closed = false, arc = false; double cx = 0, cy = 0, r = 0; }; vector<Sub> path; bool has = false; double cx = 0, cy = 0; };
  vector<V> st; std::map<string, V> dict; G g; vector<G> gs; vector<Page> pages; Page cur; long steps = 0; vector<string> page_comments; vector<string> dsc; bool boxed = false;
  static V N(double x) { V v; v.n = x; return v; } static V B(bool x) { V v; v.t = V::BOOL; v.n = x; return v; } static V S(string const& x) { V v; v.t = V::STR; v.s = std::make_shared<string>(x); return v; }
  V pop() { if (st.empty()) bad("PostScript stack underflow"); V v = st.back(); st.pop_back(); return v; }
  double num() { V v = pop(); if (v.t != V::NUM) bad("PostScript type check: number expected"); return v.n; }
  string str() { V v = pop(); if (v.t != V::STR) bad("PostScript type check: string expected"); return *v.s; }
  static bool delim(char c) { return strchr("()<>[]{}/%", c) && c; }
  vector<V> parse(string const& d, size_t& i, bool inner) {
    vector<V> r;
    while (i < d.size()) {
      char c = d[i];
      if (Pdf::sp(c)) { ++i; continue; }
      if (c == '%') { size_t e = d.find('\n', i); if (e == string::npos) e = d.size(); string l = d.substr(i, e - i); if (l.compare(0, 2, "%%") == 0 || l.compare(0, 2, "%!") == 0) { dsc.push_back(l); V v; v.t = V::MISC; v.s = std::make_shared<string>(l); if (!inner && l.compare(0, 8, "%%Page: ") == 0) r.push_back(v); } i = e; continue; }
      if (c == '(') { string s = Pdf::tok(d, i); r.push_back(S(s.substr(1))); continue; }
      if (c == '{') { ++i; V v; v.t = V::PROC; v.p = std::make_shared<vector<V>>(parse(d, i, true)); r.push_back(v); continue; }
      if (c == '}') { if (!inner) bad("unmatched }"); ++i; return r; }
      if (c == ')') bad("unmatched )");
      bool lit = c == '/'; if (lit) ++i; size_t b = i; while (i < d.size() && !Pdf::sp(d[i]) && !delim(d[i])) ++i; string t = d.substr(b, i - b); if (t.empty() && !lit) bad(string("unexpected ") + d[i]);
      char* e; double v = strtod(t.c_str(), &e); if (!lit && !*e && (isdigit(t[0]) || t[0] == '-' || t[0] == '.' || t[0] == '+')) { r.push_back(N(v)); continue; }
      V n; n.t = lit ? V::LIT : V::NAME; n.s = std::make_shared<string>(t); r.push_back(n);
    }
    if (inner) bad("unterminated procedure");
    return r;
  }
  void call(V const& v) { if (v.t == V::PROC) { auto p = v.p; for (auto& x : *p) exec(x); } else exec(v); }
  static string key(V const& v) { if (v.t == V::LIT || v.t == V::NAME || v.t == V::STR) return "k" + *v.s; if (v.t == V::NUM) return sim::fmt("n%g", v.n); bad("dictionary key"); }
  void lineto(double X, double Y) { if (!g.has) bad("no current point"); if (g.path.empty()) { G::Sub s; s.p.push_back({ g.cx, g.cy }); g.path.push_back(s); } g.path.back().p.push_back({ X, Y }); g.cx = X; g.cy = Y; }
  void moveto(double X, double Y) { G::Sub s; s.p.push_back({ X, Y }); g.path.push_back(s); g.cx = X; g.cy = Y; g.has = true; }
  void rel(double dx, double dy, double& X, double& Y) { X = g.cx + g.m.a * dx + g.m.c * dy; Y = g.cy + g.m.b * dx + g.m.d * dy; }
  double strw(string const& s) { return s.size() * g.size * .6; }
  void exec(V const& v) {
    if (++steps > 4000000) bad("PostScript does not end");
    if (v.t == V::MISC) { page_comments.push_back(*v.s); return; }
    if (v.t != V::NAME) { st.push_back(v); return; }
    string const& o = *v.s; auto u = dict.find(o); if (u != dict.end()) { V w = u->second; call(w); return; }
    double x, y, X, Y;
    if (o == "def") { V val = pop(); V k = pop(); if (k.t != V::LIT) bad("def without a name"); dict[*k.s] = val; }
    else if (o == "bind") {} else if (o == "dup") { V a = pop(); st.push_back(a); st.push_back(a); } else if (o == "exch") { V b = pop(), a = pop(); st.push_back(b); st.push_back(a); } else if (o == "pop") pop();
    else if (o == "copy") { size_t n = (size_t)num(); if (n > st.size()) bad("copy"); size_t b = st.size() - n; for (size_t k = 0; k < n; ++k) st.push_back(V(st[b + k])); }
    else if (o == "index") { size_t n = (size_t)num(); if (n >= st.size()) bad("index"); st.push_back(V(st[st.size() - 1 - n])); }
    else if (o == "roll") { int j = (int)num(), n = (int)num(); if (n < 0 || n > (int)st.size()) bad("roll"); if (n) { j = ((j % n) + n) % n; std::rotate(st.end() - n, st.end() - j, st.end()); } }
    else if (o == "add") { y = num(); x = num(); st.push_back(N(x + y)); } else if (o == "sub") { y = num(); x = num(); st.push_back(N(x - y)); } else if (o == "mul") { y = num(); x = num(); st.push_back(N(x * y)); } else if (o == "div") { y = num(); x = num(); if (y == 0) bad("division by zero"); st.push_back(N(x / y)); }
    else if (o == "idiv") { long b = (long)num(), a = (long)num(); if (!b) bad("division by zero"); st.push_back(N(a / b)); } else if (o == "neg") st.push_back(N(-num()));
    else if (o == "ge") { y = num(); x = num(); st.push_back(B(x >= y)); } else if (o == "le") { y = num(); x = num(); st.push_back(B(x <= y)); } else if (o == "and") { V b = pop(), a = pop(); st.push_back(B(a.n && b.n)); } else if (o == "true") st.push_back(B(true)); else if (o == "false") st.push_back(B(false));
    else if (o == "eq") { V b = pop(), a = pop(); st.push_back(B(a.t == V::NUM ? b.t == V::NUM && a.n == b.n : key(a) == key(b))); }
    else if (o == "type") { V a = pop(); V n; n.t = V::LIT; n.s = std::make_shared<string>(a.t == V::STR ? "stringtype" : a.t == V::PROC ? "arraytype" : a.t == V::NUM ? "realtype" : "nametype"); st.push_back(n); }
    else if (o == "exec") call(pop()); else if (o == "ifelse") { V f = pop(), t = pop(), c = pop(); if (c.t != V::BOOL) bad("ifelse"); call(c.n ? t : f); } else if (o == "if") { V t = pop(), c = pop(); if (c.n) call(t); }
    else if (o == "repeat") { V p = pop(); long n = (long)num(); for (long k = 0; k < n; ++k) call(p); }
    else if (o == "for") { V p = pop(); double lim = num(), inc = num(), k = num(); if (inc == 0) bad("for"); for (; inc > 0 ? k <= lim + 1e-9 : k >= lim - 1e-9; k += inc) { st.push_back(N(k)); call(p); } }
    else if (o == "forall") { V p = pop(), a = pop(); if (a.t == V::STR) { string t = *a.s; for (unsigned char c : t) { st.push_back(N(c)); call(p); } } else bad("forall"); }
    else if (o == "string") { st.push_back(S(string((size_t)num(), '\0'))); } else if (o == "dict") { num(); V d; d.t = V::DICT; d.d = std::make_shared<std::map<string, V>>(); st.push_back(d); }
    else if (o == "put") { V val = pop(), k = pop(), a = pop(); if (a.t == V::DICT) (*a.d)[key(k)] = val; else if (a.t == V::STR) { if ((size_t)k.n >= a.s->size()) bad("put"); (*a.s)[(size_t)k.n] = (char)val.n; } else bad("put"); }
    else if (o == "get") { V k = pop(), a = pop(); if (a.t == V::DICT) { auto f = a.d->find(key(k)); if (f == a.d->end()) bad("undefined " + key(k)); st.push_back(V(f->second)); } else if (a.t == V::STR) { if ((size_t)k.n >= a.s->size()) bad("get"); st.push_back(N((unsigned char)(*a.s)[(size_t)k.n])); } else bad("get"); }
    else if (o == "gsave") gs.push_back(g); else if (o == "grestore") { if (gs.empty()) bad("grestore"); g = gs.back(); gs.pop_back(); }
    else if (o == "save") { gs.push_back(g); V m; m.t = V::MISC; st.push_back(m); ++saves; } else if (o == "restore") { V m = pop(); if (m.t != V::MISC || gs.empty()) bad("restore without save"); --saves; g = gs.back(); gs.pop_back(); }
    else if (o == "showpage") { pages.push_back(cur); cur.clear(); g = G(); }
    else if (o == "translate") { y = num(); x = num(); Matrix m; m.e = x; m.f = y; g.m = g.m.pre(m); } else if (o == "scale") { y = num(); x = num(); Matrix m; m.a = x; m.d = y; g.m = g.m.pre(m); } else if (o == "rotate") { x = num() * M_PI / 180; Matrix m; m.a = cos(x); m.b = sin(x); m.c = -sin(x); m.d = cos(x); g.m = g.m.pre(m); }
    else if (o == "setlinewidth") g.lw = num(); else if (o == "setgray") { float v = (float)num(); g.c = Col{ { v, v, v } }; } else if (o == "setrgbcolor") { float b = (float)num(), gr = (float)num(), r = (float)num(); g.c = Col{ { r, gr, b } }; }
    else if (o == "findfont") { V n = pop(); if (n.t != V::LIT) bad("findfont"); V f; f.t = V::MISC; f.s = n.s; st.push_back(f); } else if (o == "scalefont") { double s = num(); V f = pop(); if (f.t != V::MISC || !f.s) bad("scalefont"); f.n = s; st.push_back(f); } else if (o == "setfont") { V f = pop(); if (f.t != V::MISC || !f.s) bad("setfont"); g.font = *f.s; g.size = f.n; }
    else if (o == "newpath") { g.path.clear(); g.has = false; } else if (o == "moveto") { y = num(); x = num(); g.m.map(x, y, X, Y); moveto(X, Y); } else if (o == "rmoveto") { y = num(); x = num(); if (!g.has) bad("no current point"); rel(x, y, X, Y); moveto(X, Y); }
    else if (o == "lineto") { y = num(); x = num(); g.m.map(x, y, X, Y); lineto(X, Y); } else if (o == "rlineto") { y = num(); x = num(); if (!g.has) bad("no current point"); rel(x, y, X, Y); lineto(X, Y); }
    else if (o == "currentpoint") { if (!g.has) bad("no current point"); double det = g.m.a * g.m.d - g.m.b * g.m.c, dx = g.cx - g.m.e, dy = g.cy - g.m.f; st.push_back(N((g.m.d * dx - g.m.c * dy) / det)); st.push_back(N((g.m.a * dy - g.m.b * dx) / det)); }
    else if (o == "arc") { num(); num(); double r = num(); y = num(); x = num(); g.m.map(x, y, X, Y); G::Sub s; s.arc = true; s.cx = X; s.cy = Y; s.r = r; g.path.push_back(s); g.cx = X + r; g.cy = Y; g.has = true; } else if (o == "closepath") {}
    else if (o == "stroke" || o == "fill") { bool f = o == "fill"; for (auto& s : g.path) { if (s.arc) { Item it; it.k = f ? DOT : RING; it.x = s.cx; it.y = s.cy; it.w = s.r; it.c = g.c; cur.push_back(it); } else if (!f) { for (size_t k = 1; k < s.p.size(); ++k) { Item it; it.k = SEG; it.x = s.p[k - 1].first; it.y = s.p[k - 1].second; it.x2 = s.p[k].first; it.y2 = s.p[k].second; it.c = g.c; it.w = g.lw; add_seg(cur, it); } Item brk; brk.k = SEG; brk.x = brk.x2 = -1e6; brk.w = -5; cur.push_back(brk); } } g.path.clear(); g.has = false; }
    else if (o == "rectfill") { double h = num(), w = num(); y = num(); x = num(); double X2, Y2; g.m.map(x, y, X, Y); g.m.map(x + w, y + h, X2, Y2); Item it; it.k = BOX; it.x = std::min(X, X2); it.x2 = std::max(X, X2); it.y = std::min(Y, Y2); it.y2 = std::max(Y, Y2); it.c = g.c; cur.push_back(it); }
    else if (o == "stringwidth") { string s = str(); st.push_back(N(strw(s))); st.push_back(N(0)); }
    else if (o == "show") { string s = str(); if (!g.has) bad("no current point"); if (g.font.empty()) bad("no font"); Item it; it.k = LABEL; it.s = s; rel(0, 0, it.x, it.y); rel(strw(s), 0, it.x2, it.y2); it.c = g.c; it.font = g.font; it.size = g.size; cur.push_back(it); g.cx = it.x2; g.cy = it.y2; }
    else if (o == "charpath") { pop(); str(); boxed = true; } else if (o == "pathbbox") { if (!boxed) bad("pathbbox"); st.push_back(N(0)); st.push_back(N(0)); st.push_back(N(g.size * .6)); st.push_back(N(g.size * .7)); }
    else bad("PostScript: undefined " + quote(o, 30));
  }
  int saves = 0;
  void run(string const& d) { size_t i = 0; for (auto& v : parse(d, i, false)) exec(v); if (!st.empty()) bad(sim::fmt("%zu things left on the PostScript stack", st.size())); if (saves) bad("save without restore"); auto clean = [](Page& p) { Page r; for (auto& it : p) if (!(it.k == SEG && it.w == -5)) r.push_back(it); p = r; }; for (auto& p : pages) clean(p); clean(cur); }
};

// ------------------------------------------------------------------ documents
enum DocKind { PDF, PDF_LAND, PS, PS_LAND, EPS };
const char* doc_name[] = { "PDF", "landscape PDF", "PostScript", "landscape PostScript", "EPS" };
typedef std::function<void(printpage&)> PageOp;
struct Doc {
  DocKind kind; int w = 590, h = 835; bool def_size = false; int box[4] = { 0, 0, 500, 500 }; vector<Page> want; std::set<string> fonts;
  SinkBuf sink; std::ostream os; std::unique_ptr<printpage> pp; std::unique_ptr<printrow> pr; vector<std::function<void()>> ops; size_t at = 0; size_t rows = 0; double drift = 0; /* PDF text is placed by steps rounded to 1/100 point: this is how far they can add up */
  Doc() : os(&sink) { want.resize(1); }
  void open(std::ostream& o) {
    switch (kind) { case PDF: case PDF_LAND: if (def_size) pp.reset(new printpage_pdf(o, kind == PDF_LAND)); else pp.reset(new printpage_pdf(o, dimension(w), dimension(h), kind == PDF_LAND)); break; case PS: pp.reset(new printpage_ps(o)); break; case PS_LAND: pp.reset(new printpage_ps(o, dimension(h))); break; case EPS: pp.reset(new printpage_ps(o, box[0], box[1], box[2], box[3])); break; } }
  bool pdf() const { return kind == PDF || kind == PDF_LAND; }
  void place(double x, double y, double& X, double& Y) const { if (kind == PDF_LAND) { X = w - y; Y = x; } else if (kind == PS_LAND) { X = h - y; Y = x; } else { X = x; Y = y; } }
  void put(Item it) { double X, Y; place(it.x, it.y, X, Y); double X2, Y2; place(it.x2, it.y2, X2, Y2); it.x = X; it.y = Y; it.x2 = X2; it.y2 = Y2; if (it.k == BOX) { if (it.x > it.x2) std::swap(it.x, it.x2); if (it.y > it.y2) std::swap(it.y, it.y2); } if (it.k == SEG) add_seg(want.back(), it); else want.back().push_back(it); }
  void brk() { Item b; b.k = SEG; b.x = -1e6; b.w = -5; want.back().push_back(b); }
};
dimension quarter(int lo, int hi) { int n = range(lo * 4, hi * 4); dimension d(n, 4, dimension::points); return d; }
colour gen_colour() { colour c; c.grey = choose(2); c.red = choose(5) / 4.f; c.green = choose(5) / 4.f; c.blue = choose(5) / 4.f; return c; }
const char* font_names[] = { "Helvetica", "Times-Roman", "Courier", "Helvetica-Bold", "NoSuchFont" };
string gen_string() { string s; int k = choose(12); for (int i = 0; i < k; ++i) { switch (choose(8)) { case 4: s += "()\\"[choose(3)]; break; case 5: s += "\n\r\t\b\f\x01\x7f"[choose(7)]; break; case 6: s += (char)range(128, 255); break; case 7: s += (char)('0' + choose(10)); break; default: s += (char)range(32, 126); } } return s; }
printrow::options gen_options(int bells) {
  printrow::options o; o.defaults(); o.flags = choose(4) ? printrow::options::numbers : 0; if (choose(2)) o.flags |= printrow::options::miss_numbers; o.style.size = range(4, 20) * 10; o.style.font = font_names[choose(5)]; o.style.col = gen_colour(); o.xspace = quarter(4, 20); o.yspace = quarter(4, 20);
  o.lines.clear(); for (int b = 0; b < bells; ++b) if (choose(3) == 2) { printrow::options::line_style s; s.width = quarter(0, 3); s.col = gen_colour(); s.crossing = choose(4) == 3; o.lines[b] = s; }
  o.grid_type = choose(4) ? 0 : range(1, 2); o.grid_style.width = quarter(0, 2); o.grid_style.col = gen_colour(); o.grid_style.crossing = false; return o;
}
// What a column of rows must look like.
struct Column {
  Doc& d; printrow::options opt; int x, y; vector<Row> rows; vector<unsigned> flags; std::map<int, vector<int>> prev; int n = 0;
  Column(Doc& d, printrow::options const& o, int x, int y) : d(d), opt(o), x(x), y(y) {}
  double xs() const { return opt.xspace.in_points(); } double ys() const { return opt.yspace.in_points(); } double fs() const { return opt.style.size / 10.; }
  double px(double j) const { return x + j * xs(); } double py(double k) const { return y - k * ys(); }
  void text(string const& s, double X, double Y, int al, Col c) { Item it; it.k = LABEL; it.s = s; it.x = X; it.y = Y; it.al = al; it.c = c; it.font = opt.style.font; it.size = fs(); it.loose = true; it.w = fs(); d.put(it); }
  void row(Row const& r) { int k = rows.size(); rows.push_back(r); if (opt.flags & printrow::options::numbers) for (size_t j = 0; j < r.size(); ++j) { auto l = opt.lines.find(r[j]); if ((opt.flags & printrow::options::miss_numbers) && l != opt.lines.end() && !l->second.crossing) continue; Item it; it.k = GLYPH; it.s = string(1, bell_char(r[j])); it.x = px(j); it.y = py(k); it.c = col(opt.style.col); it.font = opt.style.font; it.size = fs(); d.put(it); } }
  void rule() { if (rows.empty()) return; Item it; it.k = SEG; it.x = px(-.5); it.x2 = px(rows[0].size() - .5); it.y = it.y2 = py(rows.size() - .5); it.c = col(opt.style.col); it.w = -1; d.brk(); d.put(it); d.brk(); }
  int where(int b) { Row const& r = rows.back(); for (size_t j = 0; j < r.size(); ++j) if (r[j] == b) return j; return -1; }
  void dot(int b) { if (b == -1) { for (auto& l : opt.lines) if (!l.second.crossing) dot(l.first); return; } int j = where(b); auto l = opt.lines.find(b); if (j < 0 || l == opt.lines.end()) return; Item it; it.k = DOT; it.x = px(j); it.y = py(rows.size() - 1.); it.w = l->second.width.in_points() * 2; it.c = col(l->second.col); d.put(it); }
  void placebell(int b) { int j = where(b); if (j < 0) return; Item it; it.k = RING; it.x = px(rows[0].size() + .5); it.y = py(rows.size() - 1.); it.c = col(opt.style.col); it.w = -1; d.put(it); text(sim::fmt("%d", j + 1), px(rows[0].size() + .5), py(rows.size() - 1.), text_style::centre, col(opt.style.col)); }
  void side(string const& s, double off, int al, bool between, bool right) { text(s, right ? px(rows[0].size() - 1.) + off : px(0) - off, py(between ? rows.size() - .5 : rows.size() - 1.), al, col(opt.style.col)); }
  void finish() {
    if (rows.empty()) return;
    int nb = rows[0].size(), m = rows.size();
    if (opt.grid_type == 1) for (int i = 0; i < nb; ++i) { Item it; it.k = SEG; it.x = it.x2 = px(i); it.y = py(-.5); it.y2 = py(m - .5); it.c = col(opt.grid_style.col); it.w = opt.grid_style.width.in_points(); d.brk(); d.put(it); d.brk(); }
    if (opt.grid_type == 2) for (int i = 0; i + 1 < nb; i += 2) { Item it; it.k = BOX; it.x = px(i); it.x2 = px(i + 1); it.y = py(m - .5); it.y2 = py(-.5); it.c = col(opt.grid_style.col); d.put(it); }
    for (auto& l : opt.lines) { int b = l.first; d.brk(); for (int k = 1; k < m; ++k) { int p = std::find(rows[k - 1].begin(), rows[k - 1].end(), b) - rows[k - 1].begin(), q = std::find(rows[k].begin(), rows[k].end(), b) - rows[k].begin(); if (p >= nb || q >= nb || abs(p - q) > 1) { d.brk(); continue; } if (l.second.crossing && (p == q || !opt.lines.count(rows[k][p]))) { d.brk(); continue; } Item it; it.k = SEG; it.x = px(p); it.y = py(k - 1); it.x2 = px(q); it.y2 = py(k); it.c = col(l.second.col); it.w = l.second.width.in_points(); d.put(it); } d.brk(); }
  }
};
// Landscape pages turn the picture, so text runs up the page.
struct Axis { double ux, uy, vx, vy; };
void compare(Doc& d, vector<Page> got) {
  Axis ax = d.kind == PDF_LAND || d.kind == PS_LAND ? Axis{ 0, 1, -1, 0 } : Axis{ 1, 0, 0, 1 };
  SIM_CHECK(got.size() == d.want.size(), "print.pages", "%s has %zu pages, should have %zu", doc_name[d.kind], got.size(), d.want.size());
  for (size_t p = 0; p < got.size(); ++p) {
    Page want; for (auto& i : d.want[p]) if (!(i.k == SEG && i.w == -5)) want.push_back(i);
    vector<char> used(got[p].size());
    for (auto& w : want) {
      double best = 1e9; int at = -1; string why;
      for (size_t k = 0; k < got[p].size(); ++k) { if (used[k]) continue; Item const& g = got[p][k];
        bool txt = w.k == GLYPH || w.k == LABEL; if (txt ? (g.k != GLYPH && g.k != LABEL) || g.s != w.s : g.k != w.k) continue;
        if (w.has_c && !(w.c == g.c)) continue;
        double e = 0;
        if (txt) {
          string f = d.pdf() && w.font == "NoSuchFont" ? "Helvetica" : w.font; if (g.font != f || fabs(g.size - w.size) > .06) continue;
          double gw = hypot(g.x2 - g.x, g.y2 - g.y), t = w.k == GLYPH || w.al == text_style::centre ? .5 : w.al == text_style::right ? 1. : 0.;
          double gx = g.x + ax.ux * gw * t, gy = g.y + ax.uy * gw * t, dx = gx - w.x, dy = gy - w.y; double along = dx * ax.ux + dy * ax.uy, up = dx * ax.vx + dy * ax.vy;
          if (w.k == GLYPH || w.loose) up += w.size * .33; e = std::max(fabs(along), (w.k == GLYPH || w.loose) ? std::max(0., fabs(up) - w.size * .12) : fabs(up));
        } else { e = std::max(fabs(g.x - w.x), fabs(g.y - w.y)); if (w.k == SEG || w.k == BOX) { double e1 = std::max(e, std::max(fabs(g.x2 - w.x2), fabs(g.y2 - w.y2))); if (w.k == SEG) e1 = std::min(e1, std::max(std::max(fabs(g.x - w.x2), fabs(g.y - w.y2)), std::max(fabs(g.x2 - w.x), fabs(g.y2 - w.y)))); e = e1; } if (w.w >= 0 && w.k != BOX && w.k != LABEL && fabs(g.w - w.w) > .02) continue; }
        if (e < best) { best = e; at = k; } }
      SIM_CHECK(at >= 0 && best < .2 + (d.pdf() && (w.k == GLYPH || w.k == LABEL) ? d.drift : 0), "print.missing", "%s page %zu does not show %s%s", doc_name[d.kind], p + 1, show(w).c_str(), at >= 0 ? ("; nearest is " + show(got[p][at])).c_str() : "");
      used[at] = 1;
    }
    for (size_t k = 0; k < got[p].size(); ++k) SIM_CHECK(used[k] || got[p][k].s.find_first_not_of(' ') == string::npos && (got[p][k].k == LABEL || got[p][k].k == GLYPH), "print.extra", "%s page %zu shows %s, which was never printed", doc_name[d.kind], p + 1, show(got[p][k]).c_str());
  }
}
void judge(Doc& d, string const& data) {
  try {
    if (d.pdf()) {
      Pdf f(data); f.read(); SIM_CHECK(f.media[2] == d.w && f.media[3] == d.h && f.media[0] == 0 && f.media[1] == 0, "print.media", "media box is %g by %g, should be %d by %d", f.media[2], f.media[3], d.w, d.h); SIM_CHECK(f.rotate == (d.kind == PDF_LAND ? 90 : 0), "print.rotate", "rotation is %d", f.rotate); compare(d, f.pages);
    } else {
      Ps f; f.run(data); SIM_CHECK(!f.dsc.empty() && f.dsc[0].compare(0, 14, "%!PS-Adobe-3.0") == 0 && (d.kind != EPS || f.dsc[0] == "%!PS-Adobe-3.0 EPSF-3.0"), "print.header", "PostScript header is %s", f.dsc.empty() ? "missing" : quote(f.dsc[0]).c_str()); SIM_CHECK(f.dsc.back() == "%%EOF", "print.eof", "last comment is %s", quote(f.dsc.back()).c_str());
      vector<Page> pages = f.pages; if (d.kind == EPS) { SIM_CHECK(pages.empty(), "print.eps", "EPS has showpage"); pages.push_back(f.cur); string bb = sim::fmt("%%%%BoundingBox: %d %d %d %d", d.box[0], d.box[1], d.box[2], d.box[3]); SIM_CHECK(std::find(f.dsc.begin(), f.dsc.end(), bb) != f.dsc.end(), "print.bbox", "no %s", bb.c_str()); }
      else { SIM_CHECK(f.cur.empty(), "print.pages", "marks after the last page"); SIM_CHECK(f.page_comments.size() == pages.size(), "print.pagecomments", "%zu page comments for %zu pages", f.page_comments.size(), pages.size()); for (size_t k = 0; k < pages.size(); ++k) SIM_CHECK(atoi(f.page_comments[k].c_str() + 8) == (int)k + 1, "print.pagecomments", "page %zu says %s", k + 1, f.page_comments[k].c_str()); string pc = sim::fmt("%%%%Pages: %zu", pages.size()); SIM_CHECK(std::find(f.dsc.begin(), f.dsc.end(), pc) != f.dsc.end(), "print.pagecount", "trailer does not say %s", pc.c_str()); }
      string res; for (auto& l : f.dsc) if (l.compare(0, 26, "%%DocumentNeededResources:") == 0) res = l.substr(26) + " "; for (auto& fn : d.fonts) SIM_CHECK(res.find(" " + fn + " ") != string::npos, "print.fonts", "font %s is used but not listed in %s", fn.c_str(), quote(res).c_str());
      compare(d, pages);
    }
  } catch (PdfError const& e) { violation("print.malformed", "%s is malformed: %s", doc_name[d.kind], e.what.c_str()); }
}
// A method laid out in columns, sets of columns and pages.
void layout(Doc& d, printmethod const& pm, Method const& gm, int n, Row const& start, bool sym) {
  int L = gm.size(); d.drift = .0055 * std::min(pm.rows_per_column, pm.total_rows);
  d.fonts.insert(pm.opt.style.font); vector<Row> rows; { Row r = start; rows.push_back(r); for (int k = 0; k < pm.total_rows; ++k) { r = ref::apply(r, gm[k % L]); rows.push_back(r); } }
  auto needrule = [&](int i) { for (auto& r : pm.rules) if (r.second ? (i + 1) % r.second == r.first % r.second : i + 1 == r.first) return true; return false; };
  int T = pm.total_rows, k = 0, set = 0, onpage = 0, ic = 0; printrow::options opt = pm.opt; opt.flags = (pm.opt.flags & printrow::options::numbers) | (pm.number_mode == printmethod::miss_always ? printrow::options::miss_numbers : 0); bool pn = (pm.pn_mode & printmethod::pn_mask) != printmethod::pn_none; int lead_pos = 0;
  auto ipt = [](float f) { return (int)f; };
  while (k < T) {
    if (pm.sets_per_page && onpage == pm.sets_per_page) { d.want.emplace_back(); onpage = 0; }
    int x = ipt(pm.xoffset.in_points()), y = ipt(pm.yoffset.in_points()); y += ipt((-pm.opt.yspace * onpage * (pm.rows_per_column + 1)).in_points()); y += ipt((-pm.vgap * onpage).in_points());
    for (int c = 0; c < pm.columns_per_set && k < T; ++c) {
      Column m(d, opt, x, y); auto numbers = [&](bool miss) { if (miss) opt.flags |= printrow::options::miss_numbers; else opt.flags &= ~printrow::options::miss_numbers; m.opt = opt; };
      m.row(rows[k]); if (needrule(lead_pos % L)) m.rule();
      if (pm.number_mode == printmethod::miss_column) numbers(true);
      for (int rc = 0; rc < pm.rows_per_column && k < T; ++rc) {
        int i = k % L + 1; if (k && i == 1 && (pm.pn_mode & printmethod::pn_mask) == printmethod::pn_first) pn = false;
        if (i == 1) { if (pm.number_mode == printmethod::miss_lead) numbers(true); if (pm.placebells >= 0) m.placebell(pm.placebells); if (!(opt.flags & printrow::options::numbers)) m.dot(-1); }
        else if (i == L - 1) { char p = ic < (int)pm.calls.size() && pm.calls[ic] != ' ' ? pm.calls[ic] : 0; ++ic; if (p) m.side(string("-") + p, (pm.opt.xspace / 2).in_points(), text_style::left, false, true); }
        else if (i == L && pm.number_mode == printmethod::miss_lead) numbers(false);
        if (pm.number_mode == printmethod::miss_column && rc == pm.rows_per_column - 1) numbers(false);
        Change const& ch = gm[i - 1]; if (pn && ((pm.pn_mode & printmethod::pn_mask) == printmethod::pn_all || !sym || i <= (L + 1) / 2 || i == L) && !((pm.pn_mode & printmethod::pn_nox) && ch.places().empty())) { string t = ch.pn(); m.side(t, pm.opt.xspace.in_points(), text_style::right, true, false); }
        ++k; lead_pos = (k - 1) % L + 1; m.row(rows[k]); if (rc < pm.rows_per_column - 1 && k < T && needrule(lead_pos % L)) m.rule();
      }
      m.finish(); x += ipt((pm.opt.xspace * n).in_points()); x += ipt(pm.hgap.in_points());
    }
    ++onpage; ++set;
  }
}
}
#endif
