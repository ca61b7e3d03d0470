// P05: printed documents.
// Real code: print_pdf, print_ps, printm, pdf_fonts, dimension.  Simulated: the output device behind the ostream.
// Oracle: a small PDF reader and a small PostScript interpreter render the document; the picture is compared
#include "docread.h"

namespace {
text_style gen_style() { text_style s; s.font = font_names[choose(5)]; s.size = range(4, 20) * 10; s.col = gen_colour(); return s; }
void setup(Doc& d, bool allow_eps) { d.kind = (DocKind)choose(allow_eps ? 5 : 4); d.def_size = choose(3) == 2; if (!d.def_size) { d.w = range(100, 900); d.h = range(100, 900); } else if (d.kind == PS_LAND) d.def_size = false; for (int i = 0; i < 4; ++i) d.box[i] = range(0, 600); }
void fault_plan(SinkBuf& s, size_t size) { int k = choose(5); s.mode = choose(2); if (k == 3) s.fail_at = choose(size + 1); else if (k == 4) { s.fail_at = choose(size + 1); s.throws = true; } }
void verdict(Doc& d, string const& full) {
  if (d.sink.failed) { probe("device_failed"); SIM_CHECK(!d.os, "print.hidden", "the output device of the %s document failed after %zu bytes but the caller's stream is still good", doc_name[d.kind], d.sink.data.size()); SIM_CHECK(full.compare(0, d.sink.data.size(), d.sink.data) == 0, "print.notprefix", "after a failure the %s document is not a prefix of the complete one", doc_name[d.kind]); }
  else { SIM_CHECK(d.os.good(), "print.spurious", "%s: the stream reports a failure that did not happen", doc_name[d.kind]); SIM_CHECK(d.sink.data == full, "print.unsteady", "%s: the same document printed twice differs", doc_name[d.kind]); judge(d, d.sink.data); nontrivial(); }
}
}

// One or two documents built at the same time, each over its own output device.
SCENARIO(print_documents, "P05", 4) {
  int nd = range(1, 2); vector<std::unique_ptr<Doc>> docs;
  for (int k = 0; k < nd; ++k) {
    docs.emplace_back(new Doc); Doc& d = *docs.back(); setup(d, true); int steps = range(1, 8);
    for (int s = 0; s < steps; ++s) {
      int o = choose(4);
      if (o == 0 && d.kind != EPS) { d.ops.push_back([&d] { d.pp->new_page(); }); d.want.emplace_back(); continue; }
      if (o == 1) { string t = gen_string(); int x = range(0, 500), y = range(0, 500); auto al = (text_style::alignment)choose(3); text_style st = gen_style(); d.ops.push_back([&d, t, x, y, al, st] { d.pp->text(t, dimension(x), dimension(y), al, st); }); Item it; it.k = LABEL; it.s = t; it.x = x; it.y = y; it.al = al; it.c = col(st.col); it.font = st.font; it.size = st.size / 10.; d.put(it); d.fonts.insert(st.font); continue; }
      int n = range(3, 12); printrow::options opt = gen_options(n); d.fonts.insert(opt.style.font); d.ops.push_back([&d, opt] { d.pr.reset(new printrow(*d.pp, opt)); });
      int cols = range(1, 3); int x = range(0, 500), y = range(0, 500);
      for (int c = 0; c < cols; ++c) {
        if (c && choose(2)) { int dx = range(0, 200), dy = range(0, 100); x += dx; y -= dy; d.ops.push_back([&d, dx, dy] { d.pr->move_position(dimension(dx), dimension(-dy)); }); }
        else { x = range(0, 500); y = range(0, 500); d.ops.push_back([&d, x, y] { d.pr->set_position(dimension(x), dimension(y)); }); }
        std::shared_ptr<Column> m(new Column(d, opt, x, y)); Row r = rounds(n); int nr = choose(chance(1, 6) ? 60 : 12);
        for (int i = 0; i < nr; ++i) {
          { ringing::row rr(str(r)); d.ops.push_back([&d, rr] { *d.pr << rr; }); } m->row(r); ++d.rows;
          int e = choose(16); if (e == 9) { m->rule(); d.ops.push_back([&d] { d.pr->rule(); }); } else if (e == 10) { int b = (int)choose(n + 1) - 1; m->dot(b); d.ops.push_back([&d, b] { d.pr->dot(b); }); } else if (e == 11) { int b = choose(n); m->placebell(b); d.ops.push_back([&d, b] { d.pr->placebell(b); }); }
          else if (e == 12 || e == 13) { string t = gen_string(); dimension off = quarter(0, 20); auto al = (text_style::alignment)choose(3); bool bt = choose(2), rt = choose(2); m->side(t, off.in_points(), al, bt, rt); d.ops.push_back([&d, t, off, al, bt, rt] { d.pr->text(t, off, al, bt, rt); }); }
          else if (e == 14) { opt.flags ^= printrow::options::miss_numbers; m->opt = opt; d.ops.push_back([&d, opt] { d.pr->set_options(opt); }); } else if (e == 15) { opt.flags ^= printrow::options::numbers; m->opt = opt; d.ops.push_back([&d, opt] { d.pr->set_options(opt); }); }
          if (choose(12) == 11) std::swap(r[choose(n)], r[choose(n)]); else r = ref::apply(r, gen_change(n, true));
        }
        m->finish(); if (!nr) { d.ops.push_back([&d] { d.pr->rule(); }); }
      }
      d.ops.push_back([&d] { d.pr.reset(); });
    }
  }
  // first alone, to know what each whole document is; then together, with the devices failing
  vector<string> full(nd);
  for (int k = 0; k < nd; ++k) { Doc& d = *docs[k]; SinkBuf s; std::ostream o(&s); op("alone %s", doc_name[d.kind]); d.open(o); for (auto& f : d.ops) f(); d.pr.reset(); d.pp.reset(); full[k] = s.data; event("document", "%zu bytes", s.data.size()); }
  for (int k = 0; k < nd; ++k) { fault_plan(docs[k]->sink, full[k].size()); op("open %s", doc_name[docs[k]->kind]); docs[k]->open(docs[k]->os); }
  vector<int> live; for (int k = 0; k < nd; ++k) live.push_back(k);
  while (!live.empty()) { int i = choose(live.size()); Doc& d = *docs[live[i]]; int burst = range(1, 4); while (burst-- && d.at < d.ops.size()) { op("%s step %zu", doc_name[d.kind], d.at); d.ops[d.at++](); } if (d.at >= d.ops.size()) { op("close %s", doc_name[d.kind]); d.pr.reset(); d.pp.reset(); live.erase(live.begin() + i); } }
  for (int k = 0; k < nd; ++k) verdict(*docs[k], full[k]);
  state(mix(mix(docs[0]->kind, nd > 1 ? docs[1]->kind : 9), mix(std::min<size_t>(docs[0]->rows, 9), docs[0]->want.size())));
}

// Whole methods laid out in columns, sets of columns and pages.
SCENARIO(print_methods, "P05", 2) {
  Doc d; setup(d, false); int n = range(4, 10); Method gm = gen_method(n, 10).m; if (gm.size() < 2) gm.push_back(gen_change(n)); ringing::method meth = to(gm, n, "M");
  printmethod pm(meth); { Quiet q; pm.defaults(); }
  Row lh = rounds(n); for (auto& c : gm) lh = ref::apply(lh, c); int order = 1; { Row r = lh; Row x = r; while (x != rounds(n)) { x = compose(x, r); ++order; } }
  int L = gm.size(); SIM_CHECK(pm.total_rows == L * order, "printm.defaults", "default number of rows is %d, a plain course has %d", pm.total_rows, L * order);
  pm.opt.style.font = font_names[choose(5)]; pm.opt.style.size = range(4, 20) * 10; pm.opt.xspace = quarter(4, 16); pm.opt.yspace = quarter(4, 16); pm.hgap = dimension(range(0, 40)); pm.vgap = dimension(range(0, 40)); pm.xoffset = dimension(range(0, 300)); pm.yoffset = dimension(range(200, 800));
  pm.opt.lines.clear(); for (int b = 0; b < n; ++b) if (choose(3) == 2) { printrow::options::line_style s; s.width = quarter(0, 3); s.col = gen_colour(); s.crossing = choose(5) == 4; pm.opt.lines[b] = s; }
  pm.total_rows = range(1, std::min(L * order, 60)); pm.rows_per_column = choose(2) ? L * range(1, 3) : range(1, 20); pm.columns_per_set = range(1, 5); pm.sets_per_page = choose(4); pm.opt.flags = chance(1, 5) ? 0 : printrow::options::numbers; pm.number_mode = (printmethod::number_mode_t)choose(4); pm.pn_mode = (printmethod::pn_mode_t)choose(3); if (choose(2)) pm.pn_mode = (printmethod::pn_mode_t)(pm.pn_mode | printmethod::pn_nox); pm.placebells = (int)choose(n + 1) - 1; pm.rules.clear(); int nr = choose(3); for (int i = 0; i < nr; ++i) { int a = range(1, L), b = choose(2) ? 0 : range(1, L); pm.rules.push_back({ a, b }); }
  Row start = rounds(n); if (choose(3) == 2) { for (int i = 0; i < 3; ++i) std::swap(start[choose(n)], start[choose(n)]); pm.startrow(ringing::row(str(start))); }
  bool call = choose(3) == 2; if (call) { int k = range(1, 4); for (int i = 0; i < k; ++i) pm.calls += choose(2) ? ' ' : 'W'; }
  layout(d, pm, gm, n, start, meth.issym());
  string full; printmethod copy = pm; { SinkBuf s; std::ostream o(&s); op("print alone"); d.open(o); copy.print(*d.pp); d.pp.reset(); full = s.data; }
  fault_plan(d.sink, full.size()); op("print %s", doc_name[d.kind]); d.open(d.os); pm.print(*d.pp); d.pp.reset();
  verdict(d, full); state(mix(mix(d.kind, pm.number_mode), mix(pm.pn_mode, d.want.size())));
}
