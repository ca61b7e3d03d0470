// P21: psline, the lines of methods as PostScript, EPS and PDF.
// Real code: the whole program, printm, print_ps, print_pdf, dimension, the libraries it reads.  Simulated: the disk, standard output, memory.
// Oracle: the options give the picture; the document is rendered and compared with it.
#include "docread.h"
#include "libgen.h"
#include "simapp.h"
int app_main(int, char**);
namespace {
void ran(AppRun& r) { run_app(r, app_main); SIM_CHECK(r.threw.empty() || r.alloc_fired, "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted || r.alloc_fired, "abort", "%s aborted", show_args(r).c_str()); }
struct Opts { vector<vector<string>> v;
  void val(const char* s, const char* l, string const& x) { if (*s && !x.empty() && chance(1, 2)) v.push_back({ fmt("-%s%s", s, x.c_str()) }); else if (*s && !x.empty() && x[0] != '-' && chance(1, 2)) v.push_back({ fmt("-%s", s), x }); else v.push_back({ fmt("--%s=%s", l, x.c_str()) }); }
  void opt(const char* s, const char* l, string const& x) { if (x.empty()) flag(s, l); else if (chance(1, 2)) v.push_back({ fmt("-%s%s", s, x.c_str()) }); else v.push_back({ fmt("--%s=%s", l, x.c_str()) }); }   // an argument that may be left out
  void flag(const char* s, const char* l) { v.push_back({ chance(1, 2) ? fmt("-%s", s) : fmt("--%s", l) }); } };
struct Dim { string text; dimension d; };
Dim gen_dim(double lo, double hi) {   // in points
  static const struct { const char* s[4]; int n; double k; } u[] = { { { "pt", "points", "point", " pt" }, 4, 1 }, { { "in", "\"", "inches", "inch" }, 4, 72 }, { { "cm", " cm", "cm", "cm" }, 1, 72 / 2.54 }, { { "mm", " mm", "mm", "mm" }, 2, 72 / 25.4 } };
  Dim r; int i = choose(2) ? 0 : choose(4); double pts; string unit = u[i].s[choose(u[i].n)]; int style = choose(3), den = style == 0 ? 1 : style == 1 ? 100 : 1 << (1 + choose(4)); int a = std::max(1, (int)(lo / u[i].k * den + .999)), b = std::max(a, (int)(hi / u[i].k * den)); int n = range(a, b);
  if (style == 0) r.text = fmt("%d", n); else if (style == 1) r.text = fmt("%d.%02d", n / 100, n % 100); else if (n >= den && n % den) r.text = fmt("%d %d/%d", n / den, n % den, den); else if (n % den == 0) r.text = fmt("%d", n / den); else r.text = fmt("%d/%d", n, den);
  r.text += unit; pts = double(n) / den * u[i].k; { Quiet q; r.d.read(r.text); } SIM_CHECK(fabs(r.d.in_points() - pts) < .001 * (1 + pts), "dimension", "%s is read as %g points, it is %g", quote(r.text).c_str(), r.d.in_points(), pts); return r;
}
struct Colour { string text; colour c; };
Colour gen_col() { Colour r; int a = 5 * range(0, 20), b = 5 * range(0, 20), c = 5 * range(0, 20); if (choose(2)) { r.text = fmt("%d", a); r.c.grey = true; r.c.red = r.c.green = r.c.blue = a / 100.f; } else { r.text = fmt("%d-%d-%d", a, b, c); r.c.grey = false; r.c.red = a / 100.f; r.c.green = b / 100.f; r.c.blue = c / 100.f; } return r; }
const char* fonts[] = { "Helvetica", "Times-Roman", "Courier", "Helvetica-Bold", "Times-Italic" };
// font sizes are kept in tenths of a point
int gen_size(string& text) { int t = range(30, 240); text = t % 10 ? fmt("%d.%d", t / 10, t % 10) : fmt("%d", t / 10); return (int)((float)atof(text.c_str()) * 10); }
int up(int a, int b) { return (a + b - 1) / b; }
}
SCENARIO(psline_document, "P21", 6) {
  Opts o; Doc d; AppRun r; r.args = { "psline" };
  // the method
  GenMethod g; int n; string base; bool lib = chance(1, 4); vector<string> what; Lib L; string eio;
  if (lib) { L = choose(2) ? gen_ms(0) : gen_cc(0); vector<size_t> ok; for (size_t i = 0; i < L.all.size(); ++i) if (L.all[i].bells <= 12 && L.all[i].m.size() <= 40 && L.all[i].base != "?" && !L.all[i].name.empty()) ok.push_back(i); if (ok.empty()) discard(); Truth const* t = &L.all[ok[choose(ok.size())]];
    auto low = [](string s) { for (auto& c : s) c = tolower(c); return s; }; for (auto& x : L.all) if (low(x.name) == low(t->name)) { t = &x; break; } if (t->bells > 12) discard();
    g.m = t->m; n = t->bells; base = t->base; string name = t->name; if (chance(1, 3)) name = low(name); io::put(L.path, L.data); if (name[0] == '-') discard(); what = { L.path, name }; }
  else { n = chance(1, 6) ? range(1, 3) : range(4, chance(1, 4) ? 12 : 8); g = gen_method(n, 10); what = { fmt("%d:%s", n, g.pn.c_str()) }; base = "Untitled"; }
  if (lib) for (auto& c : g.m) if (c.n != n) discard();
  ringing::method meth = to(g.m, n, base); int len = g.m.size(); Row lh = rounds(n); for (auto& c : g.m) lh = ref::apply(lh, c); int order = 1; { Row x = lh; while (x != rounds(n)) { x = compose(x, lh); ++order; } } if (len * order > 500) discard();
  printmethod pm(meth); { Quiet q; pm.defaults(); }
  // the bells with lines: hunt bells, and the working bell that makes the place at the lead end
  { printrow::options::line_style h, w; h.crossing = w.crossing = false; h.width = dimension(1, 4, dimension::points); h.col.grey = false; h.col.red = 1; h.col.green = h.col.blue = 0; w.width = dimension(1, 2, dimension::points); w.col.grey = false; w.col.red = w.col.green = 0; w.col.blue = 1;
    auto places = g.m.back().places(); int piv = -1; for (int b = 0; b < n && piv < 0; ++b) if (lh[b] != b && std::count(places.begin(), places.end(), b)) piv = b; for (int b = 0; b < n && piv < 0; ++b) if (lh[b] != b) piv = b;
    pm.opt.lines.clear(); for (int b = 0; b < n; ++b) if (lh[b] == b) pm.opt.lines[b] = h; else if (b == piv) pm.opt.lines[b] = w;
    if (chance(1, 3)) { pm.opt.lines.clear(); std::map<string, printrow::options::line_style> by; int k = choose(4); if (!k) o.opt("l", "line", ""); vector<vector<string>> parts;
      bool done[36] = {}; for (int i = 0; i < k; ++i) { string bells; std::set<int> bs; if (chance(1, 4)) { bells = string(":") + "ahwv"[choose(4)]; if (by.count(bells)) continue; } else { int m = range(1, 2); for (int j = 0; j < m; ++j) { int b = choose(n); if (!done[b]) { done[b] = true; bs.insert(b); bells += bell_char(b); } } if (bs.empty()) continue; }
        printrow::options::line_style s; s.width = dimension(1, 2, dimension::points); s.col.grey = false; s.col.red = s.col.green = 0; s.col.blue = 1; s.crossing = chance(1, 4); string a = bells; if (s.crossing) a += "xX"[choose(2)]; if (choose(2)) { Colour c = gen_col(); s.col = c.c; a += "," + c.text; if (choose(2)) { Dim w = gen_dim(.5, 4); s.width = w.d; a += "," + w.text; } }
        o.opt("l", "line", a); if (bs.empty()) by[bells] = s; else for (int b : bs) by[string(1, bell_char(b))] = s; }
      bool explicit_work = false; for (int b = 0; b < n; ++b) if (lh[b] != b && by.count(string(1, bell_char(b)))) explicit_work = true; if (explicit_work && by.count(":v")) discard();
      for (int b = 0; b < n; ++b) for (string kk : { string(1, bell_char(b)), string(lh[b] == b ? ":h" : b == piv ? ":v" : ":w"), string(lh[b] == b ? "-" : ":w"), string(":a") }) if (by.count(kk)) { pm.opt.lines[b] = by[kk]; break; } } }
  // rule-offs
  { bool numbers = true; if (chance(1, 5)) { numbers = false; o.flag("n", "no-numbers"); } pm.opt.flags = numbers ? printrow::options::numbers : 0; pm.rules.clear();
    if (chance(1, 3)) { int k = choose(3); if (!k) o.opt("r", "rule", ""); for (int i = 0; i < k; ++i) { int a = range(1, len), b = choose(2) ? 0 : range(1, len); pm.rules.push_back({ a, b }); o.opt("r", "rule", b ? fmt("%d,%d", a, b) : chance(1, 4) ? fmt("%d,0", a) : fmt("%d", a)); } }
    else if (numbers) { int c; { Quiet q; c = meth.methclass(); } if (c == ringing::method::M_TREBLE_BOB || c == ringing::method::M_SURPRISE || c == ringing::method::M_DELIGHT) pm.rules.push_back({ 4, 4 }); else pm.rules.push_back({ len, 0 }); } }
  bool numbers = pm.opt.flags; float aspect = numbers ? 1 : 2;
  // place bells: of the one working bell with a line, or the first when asked for
  { vector<int> w; for (int b = 0; b < n; ++b) if (lh[b] != b && pm.opt.lines.count(b)) w.push_back(b); pm.placebells = w.size() == 1 ? w[0] : -1; int k = choose(6); if (k == 0) { o.opt("b", "place-bells", ""); pm.placebells = w.empty() ? -1 : w[0]; } else if (k == 1) { int b = choose(n); o.opt("b", "place-bells", string(1, bell_char(b))); pm.placebells = b; } else if (k == 2) { o.opt("b", "place-bells", choose(2) ? "x" : "X"); pm.placebells = -1; } }
  pm.pn_mode = printmethod::pn_first; if (chance(1, 2)) { int k = choose(4); static const char* s[] = { "", "none", "first", "all" }; static const printmethod::pn_mode_t m[] = { printmethod::pn_all, printmethod::pn_none, printmethod::pn_first, printmethod::pn_all }; string a = s[k]; int mode = m[k]; if (k && choose(2)) { a += ",nox"; mode |= printmethod::pn_nox; } o.opt("p", "place-notation", a); pm.pn_mode = (printmethod::pn_mode_t)mode; }
  pm.number_mode = printmethod::miss_lead; if (chance(1, 3)) { int k = choose(5); static const char* s[] = { "", "always", "never", "lead", "column" }; static const printmethod::number_mode_t m[] = { printmethod::miss_lead, printmethod::miss_always, printmethod::miss_never, printmethod::miss_lead, printmethod::miss_column }; o.opt("m", "miss-numbers", s[k]); pm.number_mode = m[k]; }
  if (chance(1, 4)) { int k = range(1, 5); for (int i = 0; i < k; ++i) pm.calls += " WHMB"[choose(5)]; if (pm.calls[0] == ' ') pm.calls[0] = 'O'; o.val("q", "calls", pm.calls); }
  Row start = rounds(n); if (chance(1, 4)) { for (int i = n - 1; i > 0; --i) std::swap(start[i], start[choose(i + 1)]); o.val("R", "rounds", str(start)); pm.startrow(ringing::row(str(start))); }
  // how much
  pm.total_rows = len * order; int k = choose(4); if (k == 0) { int j = range(1, order + 1); o.val("j", "total-leads", fmt("%d", j)); pm.total_rows = j * len; } else if (k == 1) { int j = range(1, std::min(len * order + 3, 200)); o.val("J", "total-rows", fmt("%d", j)); pm.total_rows = j; }
  // the page
  int form = choose(4); bool pdf = form == 0, eps = form == 1; if (pdf) o.flag("P", "pdf"); if (eps) o.flag("e", "eps"); dimension W(210, 1, dimension::mm), H(297, 1, dimension::mm); dimension fw, fh; bool fit_given = false, land = chance(1, 3);
  if (chance(1, 4)) { Dim a = gen_dim(300, 900), b = gen_dim(300, 900); o.val("S", "paper-size", a.text + "," + b.text); W = a.d; H = b.d; }
  if (chance(1, 3)) { if (chance(1, 3)) o.opt("F", "fit", ""); else { Dim a = gen_dim(100, 600), b = gen_dim(100, 600); o.opt("F", "fit", a.text + "," + b.text); fw = a.d; fh = b.d; fit_given = true; } }
  if (land) o.flag("L", "landscape");
  string title, title_text; text_style ts; ts.font = "Helvetica"; ts.size = 180; ts.col.grey = true; ts.col.red = 0;
  if (chance(1, 2)) { int m = choose(3); string full; { Quiet q; full = meth.fullname(); } title = m == 0 ? "$" : m == 1 ? "The $ line" : "A title"; if (m == 0 && chance(1, 2)) o.opt("t", "title", ""); else { string a = title; if (choose(2)) { ts.font = fonts[choose(5)]; a += "," + ts.font; if (choose(2)) { string s; ts.size = gen_size(s); a += "," + s; if (choose(2)) { Colour c = gen_col(); ts.col = c.c; a += "," + c.text; } } } o.opt("t", "title", a); }
    size_t i = title.find('$'); title_text = title; if (i != string::npos) title_text.replace(i, 1, full); }
  else if (chance(1, 4)) { ts.font = "Courier"; o.val("", "title-font", ts.font); }
  if (!title.empty() && chance(1, 4)) { vector<vector<string>> keep = o.v; string s; if (title.size()) { bool had = false; for (auto& a : keep) for (auto& x : a) if (x.find(',') != string::npos && x.find("itle") != string::npos) had = true; for (auto& a : keep) if (a[0].compare(0, 2, "-t") == 0 && a[0].find(',') != string::npos) had = true; if (!had) { int z = choose(3); if (z == 0) { ts.size = gen_size(s); o.val("", "title-size", s); } else if (z == 1) { Colour c = gen_col(); ts.col = c.c; o.val("", "title-colour", c.text); } else { ts.font = fonts[choose(5)]; o.val("", "title-font", ts.font); } } } }
  if (!fit_given) { fw.set_float(W.in_points() - 72, 1); fh.set_float(H.in_points() - 72, 1); }
  dimension PW = W, PH = H; if (land) { std::swap(PW, PH); std::swap(fw, fh); }
  float room = title.empty() ? 0 : ts.size * .2f; if (!title.empty()) fh.set_float(fh.in_points() - room, 1);
  // columns, sets and pages
  int i = 0, I = 0, kk = 0, dd = 0, pages = 0; bool across = false; if (chance(1, 3)) { if (choose(2)) { i = range(1, 3); o.val("i", "leads-per-column", fmt("%d", i)); } else { I = range(1, 20); o.val("I", "rows-per-column", fmt("%d", I)); } } if (chance(1, 3)) { kk = range(1, 5); o.val("k", "columns-across", fmt("%d", kk)); } if (chance(1, 4)) { dd = range(1, 3); o.val("d", "columns-down", fmt("%d", dd)); } if (chance(1, 4)) { pages = range(1, 3); o.val("g", "pages", fmt("%d", pages)); } if (chance(1, 4)) { across = true; o.flag("a", "across-first"); }
  int T = pm.total_rows, g1 = pages ? pages : 1; bool fitted = false;
  if (i || I) { pm.rows_per_column = i ? i * len : I; if (kk) { pm.columns_per_set = kk; pm.sets_per_page = dd ? dd : up(T, g1 * kk * pm.rows_per_column); } else { pm.sets_per_page = dd ? dd : 1; pm.columns_per_set = up(T, g1 * pm.sets_per_page * pm.rows_per_column); } }
  else if (kk) { pm.columns_per_set = kk; pm.sets_per_page = dd ? dd : 1; pm.rows_per_column = up(T, g1 * kk * pm.sets_per_page * len) * len; }
  else if (dd) { pm.rows_per_column = len; pm.sets_per_page = dd; pm.columns_per_set = up(T, g1 * dd * len); }
  else fitted = true;
  { Quiet q; if (fitted) { pm.total_rows = up(T, g1 * len) * len; pm.fit_to_space(fw, fh, across, aspect); pm.total_rows = T; } else pm.scale_to_space(fw, fh, aspect); }
  float fx = pm.opt.xspace.in_points(); bool plain = true;
  // what overrides the fit
  if (chance(1, 4)) { pm.opt.style.font = fonts[choose(5)]; o.val("f", "font", pm.opt.style.font); } else pm.opt.style.font = "Helvetica"; if (chance(1, 4)) { string s; pm.opt.style.size = gen_size(s); o.val("s", "font-size", s); plain = false; } pm.opt.style.col.grey = true; pm.opt.style.col.red = 0; if (chance(1, 4)) { Colour c = gen_col(); pm.opt.style.col = c.c; o.val("c", "colour", c.text); }
  if (chance(1, 4)) { Dim x = gen_dim(3, 20); pm.opt.xspace = x.d; o.val("x", "xspace", x.text); plain = false; } if (chance(1, 4)) { Dim x = gen_dim(3, 20); pm.opt.yspace = x.d; o.val("y", "yspace", x.text); plain = false; } if (chance(1, 6)) { Dim x = gen_dim(3, 40); pm.hgap = x.d; o.val("h", "hgap", x.text); plain = false; } if (chance(1, 6)) { Dim x = gen_dim(3, 40); pm.vgap = x.d; o.val("v", "vgap", x.text); plain = false; }
  pm.opt.grid_type = 0; if (chance(1, 4)) { int s = range(1, 2); string a = fmt("%d", s); pm.opt.grid_type = s; pm.opt.grid_style.width = dimension(1, 4, dimension::points); pm.opt.grid_style.col.grey = true; pm.opt.grid_style.col.red = .9f; pm.opt.grid_style.crossing = false; if (choose(2)) { Colour c = gen_col(); pm.opt.grid_style.col = c.c; a += "," + c.text; if (choose(2)) { Dim w = gen_dim(.5, 3); pm.opt.grid_style.width = w.d; a += "," + w.text; } } if (s == 1 && chance(1, 4)) { pm.opt.grid_style.width = dimension(1, 4, dimension::points); pm.opt.grid_style.col.grey = true; pm.opt.grid_style.col.red = .9f; a = ""; } o.opt("G", "guides", a); }
  if (pm.opt.xspace.in_points() < .2 || pm.opt.yspace.in_points() < .2 || pm.opt.style.size < 2 || pm.opt.yspace.in_points() < pm.opt.style.size * .026 + .5) discard();
  int sets = up(T, pm.rows_per_column * pm.columns_per_set); bool many = eps && sets > pm.sets_per_page;
  float bx, by, ux, uy; { Quiet q; pm.get_bbox(bx, by, ux, uy); }
  if (eps) { pm.xoffset.set_float(-bx, 1); pm.yoffset.set_float(-by, 1); } else { pm.xoffset.set_float((PW.in_points() - (ux + bx)) / 2, 1); pm.yoffset.set_float((PH.in_points() - (uy + by) - room) / 2, 1); }
  d.kind = pdf ? land ? PDF_LAND : PDF : eps ? EPS : land ? PS_LAND : PS; d.w = (int)W.in_points(); d.h = (int)(land && !pdf ? W.in_points() : H.in_points()); d.box[0] = d.box[1] = 0; d.box[2] = (int)(ux - bx); d.box[3] = (int)(uy - by + (title.empty() ? 0 : ts.size * 0.2));
  if (!title.empty()) { dimension x, y; x.set_float(pm.xoffset.in_points() + (ux + bx) / 2, 1); y.set_float(pm.yoffset.in_points() + uy + ts.size * .1f, 1); Item it; it.k = LABEL; it.s = title_text; it.x = x.in_points(); it.y = y.in_points(); it.al = text_style::centre; it.c = col(ts.col); it.font = ts.font; it.size = ts.size / 10.; d.put(it); d.fonts.insert(ts.font); }
  bool sym; { Quiet q; sym = meth.issym(); } layout(d, pm, g.m, n, start, sym);
  // the run
  bool file = chance(1, 3); if (file) o.val("o", "output-file", "/sim/out"); 
  for (size_t j = o.v.size(); j > 1; --j) std::swap(o.v[j - 1], o.v[choose(j)]); size_t cut = chance(1, 4) ? choose(o.v.size() + 1) : o.v.size(); for (size_t j = 0; j < cut; ++j) for (auto& a : o.v[j]) r.args.push_back(a); if (what[0][0] == '-') discard(); for (auto& a : what) r.args.push_back(a); for (size_t j = cut; j < o.v.size(); ++j) for (auto& a : o.v[j]) r.args.push_back(a);
  int f = choose(6); bool disk = false; if (f == 1) { if (file) { io::Policy p = io::policy; if (choose(3)) p.weio_after = choose(6000); else if (choose(2)) p.close_errno = 28; else p.disk_free = choose(6000); io::file_policy["/sim/out"] = p; } else if (choose(3)) r.out_fail_at = choose(6000); else r.out_fail_sync = 1; } else if (f == 2) r.alloc_fail = 1 + choose(4000); else if (f == 3 && lib) { io::Policy p = io::policy; p.eio_after = choose(L.data.size() + 1); io::file_policy[L.path] = p; disk = true; } else if (f == 4) { io::policy.read_mode = choose(4); io::policy.eintr_pct = choose(30); io::policy.write_mode = choose(2); }
  nontrivial(); ran(r); if (!r.threw.empty() || r.aborted) return; bool failed = r.out_failed || io::any_write_failed(); state(hash(fmt("%d %d %d %d %d %d %d", (int)d.kind, (int)pm.pn_mode, (int)pm.number_mode, numbers, fitted, (int)d.want.size(), f)));
  if (r.code == 0) {
    SIM_CHECK(!failed, "line.output", "%s: exit status 0 though the output could not be written", show_args(r).c_str()); SIM_CHECK(!many, "line.eps", "%s: exit status 0 though an EPS file has one page", show_args(r).c_str());
    probe("line.whole"); if (d.want.size() > 1) probe("line.pages"); if (lib) probe("line.library"); string doc = file ? io::get("/sim/out") : r.out; if (file) SIM_CHECK(r.out.empty(), "line.stdout", "%s: writes to standard output too", show_args(r).c_str());
    judge(d, doc);
    // in the space it was to be fitted to, and not much smaller than it can be
    if (plain && numbers) { double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (auto& pg : d.want) for (auto& it : pg) if (it.k == GLYPH || it.k == SEG && it.w != -5) { x0 = std::min(x0, std::min(it.x, it.k == SEG ? it.x2 : it.x)); x1 = std::max(x1, std::max(it.x, it.k == SEG ? it.x2 : it.x)); y0 = std::min(y0, std::min(it.y, it.k == SEG ? it.y2 : it.y)); y1 = std::max(y1, std::max(it.y, it.k == SEG ? it.y2 : it.y)); }
      bool turn = land && !eps; double w = turn ? fh.in_points() : fw.in_points(), h = turn ? fw.in_points() : fh.in_points(); SIM_CHECK(x1 - x0 <= w + 3 + fx && y1 - y0 <= h + 3 + fx, "line.fit", "%s: the rows take %g by %g points, the space is %g by %g", show_args(r).c_str(), x1 - x0, y1 - y0, w, h); }
  } else {
    SIM_CHECK(failed || r.alloc_fired || disk || many, "line.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str()); SIM_CHECK(!r.err.empty() || r.alloc_fired, "line.silent", "%s: exit status %d and no message", show_args(r).c_str(), r.code);
    if (many && !failed && !r.alloc_fired) SIM_CHECK(r.out.empty(), "line.eps", "%s: writes something all the same", show_args(r).c_str());
  }
}
SCENARIO(psline_bad, "P21", 1) {
  static const vector<vector<string>> bad = { {}, {"x"}, {":x"}, {"6:"}, {"6:zz"}, {"6:&"}, {"0:1"}, {"-b1", "--", "-3:x"}, {"300:x"}, {"z:x"}, {"99999999999:x"}, {"/sim/none", "Plain"}, {"/sim/dir", "Plain"}, {"a", "b", "c"} };
  static const vector<string> opts = { "-i0", "-i-1", "-ix", "-I0", "-I-4", "-j0", "-j-3", "-J-1", "-J0", "-g0", "-g-1", "-k-1", "-k0", "-d0", "-dx", "-d-2", "-s0", "-s-4", "-sx", "-snan", "-s1e30", "-c101", "-c-1", "-c1-2", "-c1-2-3-4", "-c", "-cx", "-l:", "-l:q", "-l!", "-l1,", "-l1,200", "-l1,0,x", "-l1,0,1pt,3", "-b!", "-G0", "-G3", "-Gx", "-G1,x", "-G1,0,x", "-G1,0,1pt,2", "-px", "-pfirst,x", "-rx", "-r1,x", "-r1,2,3", "-m?", "-mx", "-R112233", "-R123", "-R12345678", "-S1in", "-S1in,2in,3in", "-S1,2", "-S0in,0in", "-S-1in,9in", "-F1in", "-Fx", "-F1in,2in,3in", "-F0in,0in", "-F-3in,2in", "-x", "-x1", "-x1xx", "-x-3pt", "-x1/0pt", "-x0/0pt", "-x1 1/0pt", "-x99999999999in", "-x1.99999999999999pt", "-y5", "-y-1pt", "-hx", "-v1 2pt", "-v1/2", "-o", "-o/nonexistent/dir/x", "-tA,Helvetica,x", "-tA,Helvetica,12,0,0", "--title-size=0", "--title-size=x", "--title-colour=x", "-Z", "--zz", "-nx" };
  AppRun r; r.args = { "psline" }; io::put("/sim/dir", ""); io::file("/sim/dir")->is_dir = true; size_t k = choose(2);
  if (k) { for (auto& a : bad[choose(bad.size())]) r.args.push_back(a); } else { r.args.push_back(opts[choose(opts.size())]); if (chance(1, 3)) r.args.push_back("-P"); r.args.push_back("6:&-16-16-16,12"); if (r.args[1].size() == 2 && chance(1, 2)) std::swap(r.args[1], r.args.back()); }
  if (r.args.back().size() == 2 && r.args.back()[0] == '-' && string("cxo").find(r.args.back()[1]) == string::npos) discard(); if (r.args.size() > 2 && r.args[1].size() == 2 && string("cxo").find(r.args[1][1]) != string::npos && r.args[1] == "-o") discard();
  nontrivial(); ran(r); SIM_CHECK(r.code == 1 && r.out.empty() && !r.err.empty(), "line.bad", "%s: exit status %d, %s, %s", show_args(r).c_str(), r.code, quote(r.out, 60).c_str(), quote(r.err, 60).c_str()); state(hash(r.args[1 % r.args.size()]));
}
