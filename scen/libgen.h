// Plain-text method libraries: generated files and what they record.
#ifndef VERIF_LIBGEN_H
#define VERIF_LIBGEN_H
#include "libmodel.h"
#include <ringing/litelib.h>
using namespace ref; using namespace sim; using ringing::litelib;
namespace {
struct Peal { int d = 0, m = 0, y = 0; string where; bool any() const { return d || !where.empty(); } };
struct Truth {
  string name, base; int bells = 0; Method m;
  bool has_payload = false; string payload;
  bool cc = false; int no = 0; Peal tower, hand; bool tower_col = false, hand_col = false, rw_col = false, ccc_col = false; string rw, ccc;
  size_t end = 0;   // file offset just past the end of its last line
};
enum Kind { LITE, MS, CC };
struct Lib { Kind kind; string path; string data; vector<Truth> all; int req_bells = 0; int flags = 0; };

Lib gen_lite(int idx) {
  Lib L; L.kind = LITE; L.path = sim::fmt("/sim/lib%d.lite", idx);
  bool fixed = choose(3) != 2; L.req_bells = fixed ? range(4, 12) : 0; L.flags = choose(2) ? litelib::payload_is_name : 0;
  if (chance(1, 5)) L.data += "\xEF\xBB\xBF";
  bool crlf = chance(1, 4);
  int n = choose(chance(1, 8) ? 60 : 9);
  for (int i = 0; i < n; ++i) {
    Truth t; string ln; bool mine = true; t.bells = fixed ? L.req_bells : range(4, 12);
    bool prefix = !fixed || chance(1, 3);
    if (fixed && chance(1, 6)) { t.bells = L.req_bells == 12 ? 4 : L.req_bells + 1; prefix = true; mine = false; }   // another stage's line: skipped
    if (!fixed && chance(1, 8)) { prefix = false; mine = false; }                                                     // no stage and none requested: skipped
    GenMethod g = gen_method(t.bells, 10); t.m = g.m;
    if (chance(1, 6)) ln += chance(1, 2) ? "  " : "\t";
    if (prefix) ln += sim::fmt("%d:", t.bells);
    ln += g.pn;
    int pk = choose(4);
    if (pk) {
      string p; ringing::method rm = to(t.m, t.bells, "x");
      if (pk == 1) { t.base = gen_name(); p = ringing::method(rm, t.base).fullname(); if (t.base.empty()) t.base = ""; }
      else if (pk == 2) p = gen_name(3);
      else p = sim::fmt("%d  x", choose(1000));
      ln += chance(1, 4) ? "\t" : " "; if (chance(1, 6)) ln += "  "; ln += p; if (chance(1, 6)) ln += "  ";
      t.has_payload = true; t.payload = p;
      // a base name is only ground truth when the payload was built from it
      if (pk != 1) t.base = "?";
    } else { t.base = ""; if (chance(1, 6)) ln += " "; }
    t.name = (L.flags & litelib::payload_is_name) ? t.payload : "";
    if (!(L.flags & litelib::payload_is_name)) t.base = "";
    bool last = i + 1 == n;
    L.data += ln; if (crlf) L.data += '\r';
    if (!(last && chance(1, 4))) L.data += '\n';
    t.end = L.data.size();
    if (mine) L.all.push_back(t);
    while (chance(1, 8)) { if (!L.data.empty() && L.data.back() != '\n') break; L.data += chance(1, 2) ? "\n" : "  \n"; }
  }
  return L;
}

Change places_from(int n, std::initializer_list<int> pl) { Change c; c.n = n; int b = 0; for (int p : pl) { for (int s = b; s < p - 1; s += 2) c.sw.push_back(s); b = p + 1; } for (int s = b; s + 1 < n; s += 2) c.sw.push_back(s); return c; }

Lib gen_ms(int idx) {
  Lib L; L.kind = MS; L.path = sim::fmt("/sim/mslib%d.mtd", idx);
  bool crlf = chance(1, 4); const char* nl = crlf ? "\r\n" : "\n";
  int sections = range(1, 3); int total = 0;
  for (int s = 0; s < sections; ++s) {
    int b = range(4, 12); static const char* cls[] = { "S", "TB", "", "D" };
    L.data += sim::fmt("*** %s%d", cls[choose(4)], b); if (chance(1, 2)) L.data += " Methods"; L.data += nl;
    int n = choose(chance(1, 8) ? 60 : 6); if (s + 1 == sections && total + n == 0) n = 1;
    for (int i = 0; i < n; ++i, ++total) {
      Truth t; t.bells = b; t.name = gen_word(); for (auto& c : t.name) if (c == ' ') c = '_'; if (isdigit((unsigned char)t.name[0]) || t.name.find("No.") != string::npos) t.name = "Zz"; t.name += sim::fmt("%d", total); t.base = t.name;
      string lh, pn; bool asym = chance(1, 4);
      if (asym) { int len = range(1, 10); for (int k = 0; k < len; ++k) t.m.push_back(gen_change(b)); pn = "+" + join_pn(t.m); lh = string(1, "abgz"[choose(3)]); }
      else {
        int half = range(1, 6); vector<Change> h; for (int k = 0; k < half; ++k) h.push_back(gen_change(b));
        Change le; int w = choose(3);
        if (w == 0) { lh = string(1, "abcdefpq"[choose(8)]); if (chance(1, 3)) lh += sim::fmt("%d", range(1, 3)); le = places_from(b, { 0, 1 }); }
        else if (w == 1) { lh = string(1, "ghjklmrs"[choose(8)]); if (chance(1, 3)) lh += sim::fmt("%d", range(1, 3)); le = places_from(b, { 0 }); }
        else { le = gen_change(b); lh = le.pn() + "z"; if (le.places().empty()) lh = "Xz"; }
        t.m = h; for (int k = half - 2; k >= 0; --k) t.m.push_back(h[k]); t.m.push_back(le);
        pn = "&" + join_pn(h);
      }
      L.data += t.name + " " + lh + " " + pn; 
      bool last = s + 1 == sections && i + 1 == n;
      if (!(last && chance(1, 4))) L.data += nl;
      t.end = L.data.size(); L.all.push_back(t);
      if (!crlf && chance(1, 10) && L.data.back() == '\n') L.data += "\n";
    }
  }
  return L;
}

string pad(string s, size_t w) { if (s.size() < w) s += string(w - s.size(), ' '); return s; }

Lib gen_cc(int idx) {
  Lib L; L.kind = CC; L.path = sim::fmt("/sim/cc%d.txt", idx);
  bool crlf = chance(1, 5); const char* nl = crlf ? "\r\n" : "\n";
  L.data += string("Copyright Central Council of Church Bell Ringers") + nl;
  if (chance(1, 2)) L.data += string(nl) + "Some preamble text 1999." + nl;
  int sections = range(1, 3), total = 0;
  for (int s = 0; s < sections; ++s) {
    int b = range(4, 12); 
    static const char* cls[] = { "", "Surprise ", "Delight ", "Treble Bob ", "Alliance ", "Hybrid ", "Treble Place " };
    // kind of section: methods in a class, plain methods, differentials, principles
    int sk = choose(5); string mc; bool little = false, diff = false, plain = false; string title;
    if (sk <= 1) { mc = cls[range(1, 6)]; little = chance(1, 3); title = (little ? "Little " : "") + mc + stage_name(b) + " methods"; }
    else if (sk == 2) { plain = true; title = string("Plain ") + stage_name(b) + " methods"; }
    else if (sk == 3) { plain = true; diff = true; title = string(stage_name(b)) + " differentials"; }
    else { plain = true; title = string(stage_name(b)) + " principles"; }
    L.data += nl + title + nl + nl;
    string mcs = mc; while (!mcs.empty() && mcs.back() == ' ') mcs.pop_back();
    // columns
    size_t wn = 5, wname = range(18, 26);
    int form = choose(3);     // 0: Notation hl le lh; 1: Notation hl lh; 2: Notation lh
    int wpn = 44, wch = 8;
    bool tower = chance(2, 3), tower_place = tower && chance(2, 3), hand = chance(1, 3), rw = chance(1, 3), ccc = chance(1, 3);
    string hd = pad(" No.", wn) + pad("Name", wname) + pad("Notation", wpn);
    if (form == 0) hd += pad("hl", wch) + pad("le", wch); else if (form == 1) hd += pad("hl", wch);
    hd += pad("lh", 6);
    if (tower) hd += pad("Tower bells", 13); if (tower_place) hd += pad("Place", 16);
    if (hand) hd += pad("Handbells", 13); if (rw) hd += pad("RW ref", 12); if (ccc) hd += pad("CCC", 8);
    while (hd.back() == ' ') hd.pop_back();
    L.data += hd + nl;
    int n = choose(chance(1, 10) ? 40 : 5); if (s + 1 == sections && total == 0 && n == 0) n = 1;
    for (int i = 0; i < n; ++i, ++total) {
      Truth t; t.cc = true; t.bells = b; t.no = total + 1; string ncol;
      string core = gen_word(); if (core.find("No.") != string::npos) core = "Zz"; core += sim::fmt("%c", 'A' + (char)choose(26));
      t.base = core; ncol = core;
      if (plain && sk == 2) { static const char* pc[] = { " Bob", " Place", " Slow Course", "" }; ncol += pc[choose(4)]; }
      if (little) { ncol += " Little"; }
      bool wrapped = chance(1, 6);
      if (wrapped) { while (ncol.size() < wname + 1) { ncol = "Very " + ncol; t.base = "Very " + t.base; } }
      else if (ncol.size() > wname - 2) { ncol = "Zz"; t.base = "Zz"; if (little) ncol += " Little"; }
      t.name = ncol; if (diff) t.name += " Differential"; if (!mcs.empty() && mcs != "Hybrid") t.name += " " + mcs;   // hybrid is not part of a title
      string pn, hl, le;
      if (form == 0) {
        int half = range(2, 6); vector<Change> h; for (int k = 0; k < half; ++k) h.push_back(gen_change(b)); Change e = gen_change(b);
        t.m = h; for (int k = half - 2; k >= 0; --k) t.m.push_back(h[k]); t.m.push_back(e);
        pn = join_pn(vector<Change>(h.begin(), h.end() - 1)); hl = pn_text(h.back()); le = pn_text(e);
        // two adjacent place changes need the separating dot the format puts at the end of the column
        if (!h[half - 2].places().empty() && !h[half - 1].places().empty()) pn += ".";
      } else if (form == 1) {
        Change first = gen_change(b); int half = range(2, 5); vector<Change> h; for (int k = 0; k < half; ++k) h.push_back(gen_change(b));
        t.m.push_back(first); for (auto& c : h) t.m.push_back(c); for (int k = half - 2; k >= 0; --k) t.m.push_back(h[k]);
        string f = first.places().empty() ? "-" : first.pn(); string rest = join_pn(vector<Change>(h.begin(), h.end() - 1));
        pn = f + (!first.places().empty() && !h[0].places().empty() ? "." : "") + rest; hl = pn_text(h.back());
        if (!h[half - 2].places().empty() && !h[half - 1].places().empty()) pn += ".";
      } else { int len = range(1, 10); for (int k = 0; k < len; ++k) t.m.push_back(gen_change(b)); pn = join_pn(t.m); }
      if (pn.size() > (size_t)wpn - 1) { // too wide for the column: use something short
        --total; --i; if (choose(2) == 0) { t.m.clear(); } n--; continue; }
      string first_ln, ln;
      if (wrapped) { first_ln = sim::fmt("%4d ", t.no) + ncol; ln = pad("", wn + wname); }
      else ln = pad(sim::fmt("%4d ", t.no) + ncol, wn + wname);
      ln += pad(pn, wpn); if (form == 0) ln += pad(hl, wch) + pad(le, wch); else if (form == 1) ln += pad(hl, wch);
      if (hl.size() > (size_t)wch - 1 || le.size() > (size_t)wch - 1) { --i; --total; n--; continue; }
      ln += pad(string(1, "abcdghjm"[choose(8)]), 6);
      auto date = [&](Peal& p) { if (chance(3, 4)) { p.d = range(1, 28); p.m = range(1, 12); p.y = range(1700, 2020); return sim::fmt("%02d.%02d.%d", p.d, p.m, p.y); } return string(); };
      t.tower_col = tower; t.hand_col = hand; t.rw_col = rw; t.ccc_col = ccc;
      if (tower) ln += pad(date(t.tower), 13);
      if (tower_place) { if (chance(3, 4)) t.tower.where = gen_word(); if (t.tower.where.size() > 14) t.tower.where = "Ely"; ln += pad(t.tower.where, 16); }
      if (hand) ln += pad(date(t.hand), 13);
      if (rw) { if (chance(2, 3)) t.rw = sim::fmt("%d/%d", range(1900, 1999), range(1, 999)); ln += pad(t.rw, 12); }
      if (ccc) { if (chance(2, 3)) t.ccc = sim::fmt("%c%d", 'a' + (char)choose(20), range(1, 99)); ln += pad(t.ccc, 8); }
      // trailing blanks are usually not stored, but the lead-head column always is
      size_t keep = wn + wname + wpn + (form == 0 ? 2 * wch : form == 1 ? wch : 0) + 1;
      if (chance(2, 3)) while (ln.size() > keep && ln.back() == ' ') ln.pop_back();
      if (wrapped) L.data += first_ln + nl;
      L.data += ln;
      bool last = s + 1 == sections && i + 1 == n; if (!(last && chance(1, 4))) L.data += nl;
      t.end = L.data.size(); L.all.push_back(t);
    }
  }
  return L;
}

}
#endif
