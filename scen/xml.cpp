// P02: XML method collections, written and read.
// Real code: xmllib, xmlout, dom_gdome, method, library_entry, methodset, libgdome, libxml2, zlib.
// Simulated: the disk (open/fopen/read/write/close/stat).
#include "libmodel.h"
#include <ringing/xmllib.h>
#include <ringing/xmlout.h>
#include <ringing/methodset.h>
#include <ringing/peal.h>
#include <memory>
#include <list>
using namespace ref; using namespace sim;
using ringing::library; using ringing::library_entry; using ringing::library_base; using ringing::xmllib; using ringing::xmlout; using ringing::methodset; using ringing::peal; using ringing::first_tower_peal; using ringing::first_hand_peal; using ringing::rw_ref; using ringing::cc_collection_id; using ringing::shared_pointer; using ringing::library_facet_base; using ringing::library_facet_id;

namespace {
struct Peal { bool has = false; int d = 0, m = 0, y = 0; string where; };
struct Truth { string name, title; int bells = 0; Method m; Peal tower, hand; string rw, ccc; };

struct SrcEntry : library_entry::impl {
  Truth t; explicit SrcEntry(Truth const& t) : t(t) {}
  impl* clone() const { return new SrcEntry(*this); }
  string name() const { return t.name; } string base_name() const { return t.name; } string pn() const { return text(t.m); } int bells() const { return t.bells; }
  ringing::method meth() const { return to(t.m, t.bells, t.name); }
  bool readentry(library_base&) { return false; }
  shared_pointer<library_facet_base> get_facet(library_facet_id const& id) const {
    shared_pointer<library_facet_base> r;
    if (id == first_tower_peal::id && t.tower.has) r.reset(new first_tower_peal(peal(peal::date(t.tower.d, t.tower.m, t.tower.y), t.tower.where)));
    else if (id == first_hand_peal::id && t.hand.has) r.reset(new first_hand_peal(peal(peal::date(t.hand.d, t.hand.m, t.hand.y), t.hand.where)));
    else if (id == rw_ref::id && !t.rw.empty()) r.reset(new rw_ref(t.rw));
    else if (id == cc_collection_id::id && !t.ccc.empty()) r.reset(new cc_collection_id(t.ccc));
    return r; }
};

string gen_text() {
  string s = gen_name(3); static const char* odd[] = { "&", "<", ">", "\"", "'", "\xC3\xA9", "&amp;", "]]>", "  ", "\xE2\x82\xAC", "<!--x-->", "\t" };
  int k = choose(4) == 3 ? range(1, 3) : 0; for (int i = 0; i < k; ++i) s.insert(choose(4) ? s.size() : 0, odd[choose(12)]);
  for (size_t i = 1; i < s.size(); ++i) if ((s[i] & 0xC0) == 0x80 && !(s[i - 1] & 0x80)) s.erase(i--, 1);
  return s;
}
Peal gen_peal() { Peal p; if (chance(1, 2)) { p.has = true; if (chance(4, 5)) { p.d = range(1, 28); p.m = range(1, 12); p.y = range(1000, 2030); } if (chance(3, 4)) p.where = gen_text(); } return p; }
Truth gen_truth(int fixed_stage = 0) {
  Truth t; t.bells = fixed_stage ? fixed_stage : range(3, 14); t.m = gen_method(t.bells, 16).m; if (choose(10) != 9) t.name = gen_text();
  Quiet q; t.title = to(t.m, t.bells, t.name).fullname(); t.tower = gen_peal(); t.hand = gen_peal(); if (chance(1, 4)) t.rw = "1999/12"; if (chance(1, 4)) t.ccc = "a<7"; return t;
}
void check_peal(library_entry const& e, Truth const& t, const char* where) {
  auto pl = [&](auto tag, Peal const& p, const char* what) { typedef decltype(tag) F;
    SIM_CHECK(e.has_facet<F>() == p.has, "xml.peal", "%s: %s: %s peal present=%d, should be %d", where, quote(t.name).c_str(), what, e.has_facet<F>(), p.has);
    if (p.has) { peal g = e.get_facet<F>(); SIM_CHECK(g.when().day == p.d && g.when().month == p.m && g.when().year == p.y && g.where() == p.where, "xml.peal", "%s: %s: %s peal is %d.%d.%d %s, should be %d.%d.%d %s", where, quote(t.name).c_str(), what, g.when().day, g.when().month, g.when().year, quote(g.where()).c_str(), p.d, p.m, p.y, quote(p.where).c_str()); } };
  pl(first_tower_peal(peal()), t.tower, "tower"); pl(first_hand_peal(peal()), t.hand, "hand");
}
void check_entry(library_entry const& e, Truth const& t, const char* where) {
  Quiet q;
  SIM_CHECK(!e.null(), "xml.null", "%s: null entry", where);
  SIM_CHECK(e.bells() == t.bells, "xml.bells", "%s: %s: %d bells, should be %d", where, quote(t.name).c_str(), e.bells(), t.bells);
  ringing::method m = e.meth();
  SIM_CHECK(of(m) == t.m, "xml.notation", "%s: %s: notation %s = %s, should be %s", where, quote(t.name).c_str(), quote(e.pn()).c_str(), text(of(m)).c_str(), text(t.m).c_str());
  SIM_CHECK(e.base_name() == t.name, "xml.name", "%s: name %s, should be %s", where, quote(e.base_name()).c_str(), quote(t.name).c_str());
  SIM_CHECK(e.name() == t.title, "xml.title", "%s: title %s, should be %s", where, quote(e.name()).c_str(), quote(t.title).c_str());
  check_peal(e, t, where);
}
void check_all(library const& lib, vector<Truth> const& all, const char* where) {
  size_t k = 0; for (library::const_iterator i = lib.begin(), e = lib.end(); i != e; ++i, ++k) { SIM_CHECK(k < all.size(), "xml.extra", "%s: more than %zu entries", where, all.size()); check_entry(*i, all[k], where); }
  SIM_CHECK(k == all.size(), "xml.missing", "%s: %zu of %zu entries", where, k, all.size());
}
void write_faults(string const& path) {
  io::Policy p; p.write_mode = choose(2);
  switch (choose(8)) { default: break; case 4: p.disk_free = choose(6000); break; case 5: p.weio_after = choose(6000); break; case 6: p.close_errno = chance(1, 2) ? 5 : 28; break; case 7: p.fail_open = 1; p.open_errno = chance(1, 2) ? 13 : 28; break; }
  if (chance(1, 12)) p.eintr_pct = range(1, 30);
  io::file_policy[path] = p;
}
struct Held { library_entry e; Truth t; };

// One open library, several cursors, entries kept.
void read_history(library& lib, vector<Truth> const& all) {
  struct Cur { library::const_iterator i; size_t pos; bool on = false; }; vector<Cur> c(range(1, 3)); std::list<Held> held; int steps = range(2, 20);
  for (int s = 0; s < steps; ++s) {
    Cur& x = c[choose(c.size())];
    switch (choose(6)) {
    default: if (!x.on) { op("begin"); x.i = lib.begin(); x.pos = 0; x.on = true; } else { op("next @%zu", x.pos); if (choose(4) == 3) { library::const_iterator o = x.i++; check_entry(*o, all[x.pos], "post-increment"); } else ++x.i; ++x.pos; }
      if (x.i == lib.end()) { SIM_CHECK(x.pos == all.size(), "xml.missing", "iteration ended after %zu of %zu", x.pos, all.size()); x.on = false; } else { SIM_CHECK(x.pos < all.size(), "xml.extra", "iteration passed %zu entries", all.size()); check_entry(*x.i, all[x.pos], "iteration"); } break;
    case 3: if (x.on && x.pos < all.size()) { op("hold"); held.push_back({ *x.i, all[x.pos] }); } break;
    case 4: if (!all.empty()) { size_t k = choose(all.size()), f = k; for (size_t j = 0; j < k; ++j) if (all[j].m == all[k].m) { f = j; break; } op("find-method #%zu", k); check_entry(lib.find(to(all[k].m, all[k].bells, "q")), all[f], "find by notation"); } break;
    case 5: { op("copy"); library l2(lib); check_all(l2, all, "copied handle"); break; }
    }
    uint64_t h = held.size() > 2 ? 3 : held.size(); for (auto& q : c) h = mix(h, q.on | std::min<size_t>(q.pos, 5) << 1); state(h);
  }
  for (auto& h : held) check_entry(h.e, h.t, "entry kept");
  c.clear(); lib = library(); for (auto& h : held) check_entry(h.e, h.t, "entry outliving its library");
}

// Reading must give the whole truth or refuse.
bool open_xml(string const& path, library& lib, bool fault_possible, const char* where) {
  op("open %s", where);
  try { lib = xmllib(xmllib::filename, path); return true; }
  catch (std::runtime_error const& e) { SIM_CHECK(fault_possible, "xml.refused", "%s: a complete document with no fault was refused: %s", where, e.what()); probe("refused"); return false; }
}
}

SCENARIO(xml_roundtrip, "P02", 5) {
  const string path = "/sim/coll.xml"; int n = choose(chance(1, 8) ? 40 : 6); vector<Truth> all; for (int i = 0; i < n; ++i) all.push_back(gen_truth());
  bool old = chance(1, 3); string prev; if (old) { prev = "<previous contents/>"; io::put(path, prev); }
  io::policy.read_mode = choose(4);
  write_faults(path); bool reported = false, flushed = false;
  {
    op("create xmlout"); std::unique_ptr<xmlout> o; 
    o.reset(new xmlout(path));
    vector<library_entry> src; for (auto& t : all) src.push_back(library_entry(new SrcEntry(t)));
    op("append %d", n);
    if (choose(2)) for (auto& e : src) o->append(e);
    else { ringing::libout::iterator it = o->begin(); for (auto& e : src) *it++ = e; }
    int mode = choose(3);   // 0,1 flush; 2 rely on the destructor
    if (mode != 2) { op("flush"); try { o->flush(); flushed = true; } catch (std::exception const& e) { reported = true; event("reported", "%s", e.what()); } }
    op("destroy xmlout"); o.reset();
  }
  bool bad = io::any_write_failed() || R->faults[F_OPEN_FAIL] || R->faults[F_WRITE_EINTR];
  if (!bad) SIM_CHECK(!reported, "xml.spurious", "flush reported a failure but nothing failed");
  io::file_policy.clear();
  if (flushed || !bad) {
    SIM_CHECK(io::exists(path), "xml.lost", "flush returned normally but there is no file");
    library lib; bool ok = false; string why; op("read back");
    try { lib = xmllib(xmllib::filename, path); ok = true; } catch (std::runtime_error const& e) { why = e.what(); }
    SIM_CHECK(ok, "xml.notdurable", "flush returned normally (write failures so far: %d) but the file cannot be read back: %s: %s", bad, why.c_str(), quote(io::get(path), 300).c_str());
    check_all(lib, all, flushed ? "read back after flush" : "read back after close"); nontrivial(); read_history(lib, all);
    // what was written, read again under read faults and cut short
    string data = io::get(path); io::Policy p; p.read_mode = choose(4); int k = choose(4); bool f = false;
    if (k == 1) { p.eio_after = choose(data.size() + 1); f = true; } else if (k == 2) { p.eintr_pct = range(1, 30); f = true; }
    else if (k == 3) { size_t cut = choose(data.size() + 1); io::put(path, data.substr(0, cut)); fault(F_TRUNCATED, "at %zu of %zu", cut, data.size()); f = true; }
    io::file_policy[path] = p; library l2; if (open_xml(path, l2, f, "second read")) check_all(l2, all, "second read");
    io::file_policy.clear(); io::put(path, data); library l3; if (open_xml(path, l3, false, "read after faults cleared")) check_all(l3, all, "read after faults cleared");
  } else if (reported) { probe("failure_reported"); nontrivial(); }
  state(mix(mix(bad, reported), flushed));
}

namespace {
string esc(string const& s) { string r; for (char c : s) { if (c == '&') r += choose(2) ? "&amp;" : "&#38;"; else if (c == '<') r += choose(2) ? "&lt;" : "&#x3c;"; else if (c == '>') r += "&gt;"; else if (c == '"') r += choose(2) ? "&quot;" : "\""; else r += c; } return r; }
string ws(int depth) { switch (choose(4)) { case 0: return "\n" + string(2 * depth, ' '); case 1: return ""; case 2: return "\r\n\t"; default: return "\n<!-- comment <method> -->\n"; } }
string el(const char* n, string const& c) { if (c.empty() && choose(2)) return string("<") + n + "/>"; return string("<") + n + (chance(1, 8) ? " x=\"1\"" : "") + ">" + c + "</" + n + ">"; }
string words() { return gen_word(); }
}

// Documents in both formats the reader accepts, written by the generator.
namespace {
// The same text, cut up by comments, processing instructions, CDATA sections and character references.
string xtext(string const& v) {
  if (choose(4) != 3) return esc(v);
  string o; size_t i = 0;
  while (i < v.size()) {
    size_t k = 1 + choose(std::min<size_t>(v.size() - i, 6)); while (i + k < v.size() && (v[i + k] & 0xC0) == 0x80) ++k;
    string p = v.substr(i, k); i += k;
    switch (choose(6)) { case 1: o += esc(p) + "<!-- " + gen_word() + " -->"; break; case 2: o += "<?pi x?>" + esc(p); break; case 3: if (p.find_first_of("]>") == string::npos) { o += "<![CDATA[" + p + "]]>"; break; } o += esc(p); break;
      case 4: { string q; for (unsigned char c : p) if (c < 0x80) q += choose(2) ? sim::fmt("&#%d;", c) : sim::fmt("&#x%x;", c); else q += c; o += q; break; } default: o += esc(p); }
  }
  probe("split_text"); return o;
}
}
SCENARIO(xml_documents, "P02", 4) {
  const string path = "/sim/doc.xml"; bool cc = choose(2); vector<Truth> all; string d;
  if (choose(2)) d = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; if (chance(1, 5)) d += "<!-- header -->\n";
  auto location = [&](string& where) { string s, w; static const char* ccf[] = { "room", "building", "town", "county", "region", "country" }; static const char* of[] = { "dedication", "place", "county", "country" };
    for (int i = 0; i < (cc ? 6 : 4); ++i) if (choose(2)) { string v = words(); s += ws(5) + el(cc ? ccf[i] : of[i], xtext(v)); if (!w.empty()) w += ", "; w += v; } where = w; return s; };
  auto peal_el = [&](const char* name, Peal& p) { string s; if (choose(2)) return s; p.has = true; string c;
    if (chance(4, 5)) { p.d = range(1, 28); p.m = range(1, 12); p.y = range(1600, 2030); c += ws(5) + el("date", sim::fmt("%04d-%02d-%02d", p.y, p.m, p.d)); }
    if (choose(2)) { string l = location(p.where); c += ws(5) + "<location>" + l + ws(5) + "</location>"; }
    s = string("<") + name + ">" + c + ws(4) + "</" + name + ">"; return s; };
  auto meth = [&](int stage_from_set) {
    Truth t; t.bells = stage_from_set ? stage_from_set : range(4, 12); t.name = gen_text(); t.title = gen_text(); vector<string> parts;
    parts.push_back(el("name", xtext(t.name))); parts.push_back(el("title", xtext(t.title)));
    if (!stage_from_set) parts.push_back(el("stage", sim::fmt("%d", t.bells)));
    if (chance(1, 3)) parts.push_back(el("classification", "Bob")); if (chance(1, 3)) parts.push_back(el("leadHead", "12345"));
    int half = range(1, 5); vector<Change> h; for (int i = 0; i < half; ++i) h.push_back(gen_change(t.bells)); Change le = gen_change(t.bells);
    Method pal = h; for (int i = half - 2; i >= 0; --i) pal.push_back(h[i]); pal.push_back(le);
    if (cc) {
      if (choose(2)) { t.m = pal; string n = join_pn(h) + "," + pn_text(le); parts.push_back(el("notation", xtext(n))); parts.push_back(el("symmetry", choose(2) ? "palindromic" : "palindromic double rotational")); }
      else { t.m = gen_method(t.bells).m; t.m.clear(); int k = range(1, 9); for (int i = 0; i < k; ++i) t.m.push_back(gen_change(t.bells)); parts.push_back(el("notation", xtext(join_pn(t.m)))); if (choose(2)) parts.push_back(el("symmetry", "")); }
      bool wrap = choose(2); string a = peal_el("firstTowerbellPeal", t.tower), b = peal_el("firstHandbellPeal", t.hand); if (!a.empty() || !b.empty()) { if (wrap) parts.push_back("<performances>" + a + ws(3) + b + "</performances>"); else { if (!a.empty()) parts.push_back(a); if (!b.empty()) parts.push_back(b); } }
    } else {
      if (choose(2)) { t.m = pal; parts.push_back("<pn>" + ws(4) + el("symblock", xtext(join_pn(h))) + ws(4) + el("symblock", pn_text(le)) + "</pn>"); }
      else { t.m.clear(); int k = range(1, 9); for (int i = 0; i < k; ++i) t.m.push_back(gen_change(t.bells)); parts.push_back("<pn>" + ws(4) + el("block", join_pn(t.m)) + ws(3) + "</pn>"); }
      if (choose(2)) { string a = peal_el("first-tower", t.tower), b = peal_el("first-hand", t.hand); if (!a.empty()) parts.push_back(a); if (!b.empty()) parts.push_back(b); }
      else { string a = peal_el("firsttower", t.tower), b = peal_el("firsthand", t.hand); if (!a.empty() || !b.empty()) parts.push_back("<performances>" + a + b + "</performances>"); }
    }
    for (size_t i = parts.size(); i > 1; --i) if (choose(4) == 3) std::swap(parts[i - 1], parts[choose(i)]);
    string s = "<method id=\"m" + sim::fmt("%zu", all.size()) + "\">"; for (auto& p : parts) s += ws(3) + p; s += ws(2) + "</method>"; all.push_back(t); return s; };
  if (cc) { d += "<collection xmlns=\"http://www.cccbr.org.uk/methods/schemas/2007/05/methods\">" + ws(1) + el("collectionName", "x");
    int sets = choose(4); for (int s = 0; s < sets; ++s) { bool own = choose(2); int st = range(4, 12); d += ws(1) + "<methodSet>" + ws(2) + "<properties>" + (own || chance(1, 2) ? el("stage", sim::fmt("%d", st)) : "") + "</properties>"; int n = choose(4); for (int i = 0; i < n; ++i) d += ws(2) + meth(own ? st : 0); d += "</methodSet>"; }
    d += ws(0) + "</collection>";
    if (!sets) probe("no_method_set"); }
  else { d += "<methods xmlns=\"http://methods.ringing.org/NS/method\">"; int n = choose(6); for (int i = 0; i < n; ++i) d += ws(1) + meth(0); d += ws(0) + "</methods>"; }
  d += "\n"; io::put(path, d); event("document", "%s", quote(d, 4000).c_str());
  io::Policy p; p.read_mode = choose(4); int k = choose(6); bool f = false;
  if (k == 3) { p.eio_after = choose(d.size() + 1); f = true; } else if (k == 4) { p.eintr_pct = range(1, 30); f = true; }
  else if (k == 5) { size_t cut = choose(d.size()); io::put(path, d.substr(0, cut)); fault(F_TRUNCATED, "at %zu of %zu", cut, d.size()); f = true; }
  io::file_policy[path] = p;
  library lib; if (open_xml(path, lib, f, "document")) { check_all(lib, all, "document"); nontrivial(); read_history(lib, all); }
  if (f) { io::file_policy.clear(); io::put(path, d); library l2; if (open_xml(path, l2, false, "document after faults cleared")) check_all(l2, all, "after faults cleared"); nontrivial(); }
  state(mix(mix(cc, all.size()), k));
}
