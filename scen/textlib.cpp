// P01: plain-text method libraries (lightweight, MicroSIRIL, Central Council).
// Real code: litelib, mslib, cclib, library, library_entry, method, change,
// place notation, libstdc++ filebuf.  Simulated: the disk below it.
#include "libgen.h"
#include "simstream.h"
#include <ringing/mslib.h>
#include <ringing/cclib.h>
#include <ringing/library.h>
#include <ringing/peal.h>
#include <memory>
#include <list>
using namespace ref; using namespace sim;
using ringing::library; using ringing::library_entry; using ringing::library_base; using ringing::litelib; using ringing::mslib; using ringing::cclib; using ringing::peal; using ringing::first_tower_peal; using ringing::first_hand_peal; using ringing::rw_ref; using ringing::cc_collection_id;

namespace {
void check_entry(library_entry const& e, Truth const& t, Kind k, const char* where, bool trailing_ok = true) {
  Quiet q;
  SIM_CHECK(!e.null(), "entry.null", "%s: null entry", where);
  SIM_CHECK(e.bells() == t.bells, "entry.bells", "%s: bells %d, file says %d (%s)", where, e.bells(), t.bells, t.name.c_str());
  ringing::method m = e.meth();
  SIM_CHECK(of(m) == t.m, "entry.notation", "%s: %s notation read as %s (from %s), file says %s", where, quote(t.name).c_str(), text(of(m)).c_str(), quote(e.pn()).c_str(), text(t.m).c_str());
  SIM_CHECK(e.name() == t.name, "entry.name", "%s: name %s, file says %s", where, quote(e.name()).c_str(), quote(t.name).c_str());
  if (t.base != "?") {
    SIM_CHECK(e.base_name() == t.base, "entry.base", "%s: base name %s, file says %s (name %s)", where, quote(e.base_name()).c_str(), quote(t.base).c_str(), quote(t.name).c_str());
    string full = to(t.m, t.bells, t.base).fullname();
    SIM_CHECK(e.fullname() == full, "entry.title", "%s: title %s, should be %s", where, quote(e.fullname()).c_str(), quote(full).c_str());
  }
  if (k == LITE) {
    SIM_CHECK(e.has_facet<litelib::payload>(), "entry.facet", "%s: payload facet missing", where);
    SIM_CHECK(e.get_facet<litelib::payload>() == t.payload, "entry.payload", "%s: payload %s, file says %s", where, quote(e.get_facet<litelib::payload>()).c_str(), quote(t.payload).c_str());
  }
  if (k == CC && trailing_ok) {
    SIM_CHECK(e.get_facet<cclib::ref>() == t.no, "entry.ref", "%s: reference number %d, file says %d", where, e.get_facet<cclib::ref>(), t.no);
    auto pl = [&](auto tag, Peal const& p, bool col, const char* what) { typedef decltype(tag) F;
      bool want = col && p.any(); bool has = e.has_facet<F>();
      SIM_CHECK(has == want, "entry.peal", "%s: %s %s peal present=%d, file says %d", where, t.name.c_str(), what, has, want);
      if (want) { peal g = e.get_facet<F>(); SIM_CHECK(g.when().day == p.d && g.when().month == p.m && g.when().year == p.y && g.where() == p.where, "entry.peal", "%s: %s %s peal read as %d.%d.%d %s, file says %d.%d.%d %s", where, t.name.c_str(), what, g.when().day, g.when().month, g.when().year, quote(g.where()).c_str(), p.d, p.m, p.y, quote(p.where).c_str()); } };
    pl(first_tower_peal(peal()), t.tower, t.tower_col, "tower"); pl(first_hand_peal(peal()), t.hand, t.hand_col, "hand");
    SIM_CHECK(e.has_facet<rw_ref>() == !t.rw.empty(), "entry.rwref", "%s: RW reference presence", where);
    if (!t.rw.empty()) SIM_CHECK(e.get_facet<rw_ref>() == t.rw, "entry.rwref", "%s: RW reference %s, file says %s", where, e.get_facet<rw_ref>().c_str(), t.rw.c_str());
    SIM_CHECK(e.has_facet<cc_collection_id>() == !t.ccc.empty(), "entry.ccc", "%s: CCC id presence", where);
    if (!t.ccc.empty()) SIM_CHECK(e.get_facet<cc_collection_id>() == t.ccc, "entry.ccc", "%s: CCC id %s, file says %s", where, e.get_facet<cc_collection_id>().c_str(), t.ccc.c_str());
  }
}

library open_lib(Lib const& L) {
  switch (L.kind) { case LITE: return litelib(L.req_bells, L.path, L.flags); case MS: return mslib(L.path); default: return cclib(L.path); }
}

struct Client {
  std::unique_ptr<library> lib; Lib* L = nullptr;
  library::const_iterator it; bool iterating = false; size_t pos = 0; bool fault_seen = false;
};
struct Held { library_entry e; Truth t; Kind k; };
struct HeldIt { library::const_iterator it; Truth t; Kind k; };

string lower(string s) { for (auto& c : s) c = tolower((unsigned char)c); return s; }
}

// One or more libraries, several clients, interleaved searches and iterations,
// read sizes and read faults decided by the run.
SCENARIO(textlib_history, "P01", 6) {
  int nl = range(1, 3); vector<Lib> libs;
  for (int i = 0; i < nl; ++i) { switch (choose(3)) { case 0: libs.push_back(gen_lite(i)); break; case 1: libs.push_back(gen_ms(i)); break; default: libs.push_back(gen_cc(i)); } io::put(libs[i].path, libs[i].data); event("file", "%s %zu bytes %zu entries %s", libs[i].path.c_str(), libs[i].data.size(), libs[i].all.size(), quote(libs[i].data, 2000).c_str()); }
  io::policy.read_mode = choose(4); if (chance(1, 3)) io::policy.eintr_pct = range(1, 40);
  int nc = range(1, 3); vector<Client> cs(nc); std::list<Held> held; std::list<HeldIt> its;
  auto faulty = [&](Lib* L) { auto i = io::file_policy.find(L->path); return i != io::file_policy.end() && i->second.eio_after >= 0; };
  auto at_end = [&](Client& c) {   // iteration ended after c.pos entries
    if (!c.fault_seen) SIM_CHECK(c.pos == c.L->all.size(), "iter.short", "%s: iteration ended after %zu of %zu entries with no fault", c.L->path.c_str(), c.pos, c.L->all.size());
    else probe("iteration_cut_by_fault"); c.iterating = false; };
  auto look = [&](Client& c) {
    SIM_CHECK(c.pos < c.L->all.size(), "iter.long", "%s: iteration yields more than the file's %zu entries: %s", c.L->path.c_str(), c.L->all.size(), quote(c.it->pn()).c_str());
    check_entry(*c.it, c.L->all[c.pos], c.L->kind, "iteration"); };
  int steps = range(3, 40);
  for (int s = 0; s < steps; ++s) {
    Client& c = cs[choose(nc)];
    if (!c.lib) {
      c.L = &libs[choose(nl)]; if (faulty(c.L)) { io::file_policy.erase(c.L->path); }
      op("open %s", c.L->path.c_str()); c.lib.reset(new library(open_lib(*c.L))); c.iterating = false;
      SIM_CHECK(c.lib->good(), "open.bad", "library %s is not usable after opening an existing file", c.L->path.c_str()); continue; }
    bool f = faulty(c.L); auto& all = c.L->all; size_t n = all.size();
    switch (choose(12)) {
    default: case 0: case 1: case 2: case 3:
      if (!c.iterating) { op("begin %s", c.L->path.c_str()); c.it = c.lib->begin(); c.iterating = true; c.pos = 0; c.fault_seen = f; }
      else { bool post = choose(3) == 2; op("next %s @%zu%s", c.L->path.c_str(), c.pos, post ? " post" : ""); 
        if (post) { library::const_iterator old = c.it++; check_entry(*old, all[c.pos], c.L->kind, "post-increment"); } else ++c.it;
        ++c.pos; if (f) c.fault_seen = true; }
      if (c.it == c.lib->end()) at_end(c); else look(c);
      break;
    case 4: if (c.iterating && c.pos < n) { op("hold @%zu", c.pos); if (choose(2)) held.push_back({ *c.it, all[c.pos], c.L->kind }); else its.push_back({ c.it, all[c.pos], c.L->kind }); } break;
    case 5: { op("scan %s", c.L->path.c_str()); c.iterating = false; size_t k = 0; for (library::const_iterator i = c.lib->begin(), e = c.lib->end(); i != e; ++i, ++k) { SIM_CHECK(k < n, "iter.long", "%s: scan yields more than %zu entries", c.L->path.c_str(), n); check_entry(*i, all[k], c.L->kind, "scan"); }
        if (!f) { SIM_CHECK(k == n, "iter.short", "%s: scan yielded %zu of %zu entries with no fault", c.L->path.c_str(), k, n); nontrivial(); } else probe("scan_under_fault"); break; }
    case 6: if (n) { size_t k = choose(n); string title = to(all[k].m, all[k].bells, all[k].base == "?" ? "" : all[k].base).fullname(); bool amb = false; for (auto& t : all) if (t.base == "?") amb = true; if (amb) break;
        size_t first = n; for (size_t j = 0; j < n && first == n; ++j) if (to(all[j].m, all[j].bells, all[j].base).fullname() == title) first = j;
        op("find-title %s", title.c_str()); c.iterating = false; library_entry e = c.lib->find(title);
        if (e.null()) SIM_CHECK(f, "find.missing", "%s: title %s not found", c.L->path.c_str(), title.c_str()); else check_entry(e, all[first], c.L->kind, "find by title"); } break;
    case 7: if (n) { size_t k = choose(n); size_t first = k; for (size_t j = 0; j < n; ++j) if (all[j].m == all[k].m) { first = j; break; }
        op("find-method #%zu", k); c.iterating = false; library_entry e = c.lib->find(to(all[k].m, all[k].bells, "q"));
        if (e.null()) SIM_CHECK(f, "find.missing", "%s: method %s not found", c.L->path.c_str(), text(all[k].m).c_str()); else check_entry(e, all[first], c.L->kind, "find by notation"); } break;
    case 8: if (n) { size_t k = choose(n); int st = choose(2) ? all[k].bells : 0; string nm = all[k].name; bool up = choose(2); if (up) for (auto& ch : nm) ch = toupper((unsigned char)ch);
        size_t first = n; for (size_t j = 0; j < n && first == n; ++j) if (lower(all[j].name) == lower(nm) && (!st || all[j].bells == st)) first = j;
        op("load %s %d", nm.c_str(), st); c.iterating = false;
        try { ringing::method m = c.lib->load(nm, st); SIM_CHECK(of(m) == all[first].m && m.bells() == all[first].bells, "load.wrong", "%s: load(%s,%d) gave %s, file says %s", c.L->path.c_str(), nm.c_str(), st, text(of(m)).c_str(), text(all[first].m).c_str());
          if (all[first].base != "?") SIM_CHECK(m.name() == all[first].base, "load.name", "load gave name %s, file says %s", m.name(), all[first].base.c_str()); }
        catch (library_base::invalid_name const&) { SIM_CHECK(f, "load.missing", "%s: load(%s,%d) did not find the method", c.L->path.c_str(), nm.c_str(), st); } } break;
    case 9: { op("absent lookups"); c.iterating = false; SIM_CHECK(c.lib->find(string("No Such Method Zzzz Royal")).null(), "find.phantom", "found a title that is not in the file");
        bool thrown = false; try { c.lib->load("no such method at all", choose(2) ? 6 : 0); } catch (library_base::invalid_name const&) { thrown = true; } SIM_CHECK(thrown, "load.phantom", "load of an absent name returned a method"); break; }
    case 10: if (!f && choose(2)) { long off = choose(c.L->data.size() + 1); io::Policy p = io::policy; p.eio_after = off; p.eio_once = choose(3) == 0; io::file_policy[c.L->path] = p; op("arm-eio %s @%ld", c.L->path.c_str(), off); for (auto& o : cs) if (o.L == c.L) o.fault_seen = true; }
             else if (f) { op("heal %s", c.L->path.c_str()); io::file_policy.erase(c.L->path); }
             break;
    case 11: if (choose(3) == 0) { op("close"); c.lib.reset(); c.iterating = false; c.it = library::const_iterator(); }
             else { op("copy-handle"); library other(*c.lib); c.iterating = false; size_t k = 0; for (library::const_iterator i = other.begin(), e = other.end(); i != e; ++i, ++k) { SIM_CHECK(k < n, "iter.long", "copy of handle yields too many"); check_entry(*i, all[k], c.L->kind, "scan of copied handle"); } if (!f) SIM_CHECK(k == n, "iter.short", "%s: copied handle yielded %zu of %zu entries", c.L->path.c_str(), k, n); }
             break;
    }
    if (!held.empty() && choose(3) == 0) { for (auto& h : held) check_entry(h.e, h.t, h.k, "entry kept from earlier"); for (auto& h : its) check_entry(*h.it, h.t, h.k, "iterator kept from earlier"); }
    uint64_t h = 0; for (auto& x : cs) h = mix(h, (x.lib ? 1 : 0) | x.iterating << 1 | (x.lib && faulty(x.L) ? 4 : 0) | (x.lib ? x.L->kind << 3 : 0) | std::min<size_t>(x.pos, 7) << 6); state(h);
  }
  // once faults stop, everything is readable again
  io::file_policy.clear(); io::policy.eintr_pct = 0; op("final scan after faults cleared");
  for (auto& c : cs) if (c.lib) { size_t k = 0; for (library::const_iterator i = c.lib->begin(), e = c.lib->end(); i != e; ++i, ++k) { SIM_CHECK(k < c.L->all.size(), "iter.long", "final scan too long"); check_entry(*i, c.L->all[k], c.L->kind, "final scan"); } SIM_CHECK(k == c.L->all.size(), "recover.short", "%s: after the fault cleared a fresh scan yields %zu of %zu entries", c.L->path.c_str(), k, c.L->all.size()); nontrivial(); }
  for (auto& h : held) check_entry(h.e, h.t, h.k, "entry kept to the end");
  for (auto& c : cs) c.lib.reset();
  for (auto& h : held) check_entry(h.e, h.t, h.k, "entry outliving its library");
}

// Files cut at an arbitrary byte (a crash while the file was being written).
SCENARIO(textlib_truncated, "P01", 3) {
  Lib L; switch (choose(3)) { case 0: L = gen_lite(0); break; case 1: L = gen_ms(0); break; default: L = gen_cc(0); }
  size_t cut = choose(L.data.size() + 1); io::put(L.path, L.data.substr(0, cut)); fault(F_TRUNCATED, "%s cut to %zu of %zu bytes", L.path.c_str(), cut, L.data.size());
  event("file", "%s", quote(L.data.substr(0, cut), 2000).c_str());
  io::policy.read_mode = choose(4); if (chance(1, 3)) io::policy.eintr_pct = range(1, 40);
  size_t whole = 0; while (whole < L.all.size() && L.all[whole].end <= cut) ++whole;
  op("scan truncated"); library lib = open_lib(L); 
  for (int pass = 0; pass < 2; ++pass) {
    size_t k = 0; vector<library_entry> es;
    for (library::const_iterator i = lib.begin(), e = lib.end(); i != e; ++i, ++k) { SIM_CHECK(k <= whole, "trunc.invented", "file cut after %zu complete entries yields %zu", whole, k + 1); if (k < whole) check_entry(*i, L.all[k], L.kind, "scan of truncated file"); }
    SIM_CHECK(k >= whole, "trunc.lost", "file cut at %zu holds %zu complete entries but %zu were read", cut, whole, k);
    if (L.kind == CC && cut < 12) break;
  }
  if (whole) nontrivial();
  state(mix(mix(L.kind, whole), cut == L.data.size()));
}

// A lightweight library read from a stream that is a pipe: any chunking, any
// early end or failure.
SCENARIO(litelib_stream, "P01", 3) {
  Lib L = gen_lite(0); SourceBuf::Plan p; p.data = L.data; p.mode = choose(4);
  int fk = choose(4); size_t cut = L.data.size();
  if (fk == 1) { cut = choose(L.data.size() + 1); p.data.resize(cut); fault(F_TRUNCATED, "stream ends at %zu of %zu", cut, L.data.size()); }
  else if (fk == 2) { cut = choose(L.data.size() + 1); p.fail_at = cut; }
  event("stream", "%s", quote(L.data, 2000).c_str());
  SourceBuf sb(p); std::istream is(&sb); op("read stream"); litelib lib(L.req_bells, is, L.flags);
  size_t whole = 0; while (whole < L.all.size() && L.all[whole].end <= cut) ++whole;
  if (fk == 2 && whole && L.all[whole - 1].end == cut && L.data[cut - 1] != '\n') --whole;  // an unterminated last line is not known to be complete when the stream fails
  size_t k = 0; std::list<Held> held;
  for (library::const_iterator i = lib.begin(), e = lib.end(); i != e; ++i, ++k) {
    SIM_CHECK(k < whole + (fk == 1), "stream.invented", "stream cut after %zu complete entries yields more: %s", whole, quote(i->pn()).c_str());
    if (k < whole) { check_entry(*i, L.all[k], LITE, "stream"); if (choose(3) == 0) held.push_back({ *i, L.all[k], LITE }); } }
  SIM_CHECK(k >= whole, "stream.lost", "stream holds %zu complete entries but %zu were read", whole, k);
  for (auto& h : held) check_entry(h.e, h.t, h.k, "entry kept from the stream");
  if (whole) nontrivial(); state(mix(fk, whole));
}
