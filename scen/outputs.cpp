// P03: method output streams, multi-output and in-memory method sets.
// P04: finding libraries by name: registry of formats, search path, import.
#include "libmodel.h"
#include "simstream.h"
#include <ringing/litelib.h>
#include <ringing/mslib.h>
#include <ringing/cclib.h>
#include <ringing/xmllib.h>
#include <ringing/xmlout.h>
#include <ringing/libout.h>
#include <ringing/method_stream.h>
#include <ringing/methodset.h>
#include <ringing/peal.h>
#include <iostream>
#include <sstream>
#include <memory>
#include <list>
using namespace ref; using namespace sim;
using ringing::library; using ringing::library_entry; using ringing::library_base; using ringing::litelib; using ringing::mslib; using ringing::cclib; using ringing::xmllib; using ringing::xmlout; using ringing::methodset; using ringing::method_stream; using ringing::multilibout; using ringing::libout; using ringing::peal; using ringing::first_tower_peal; using ringing::first_hand_peal; using ringing::rw_ref; using ringing::cc_collection_id; using ringing::shared_pointer; using ringing::library_facet_base; using ringing::library_facet_id;

namespace {
struct Truth { string name, pn, title, payload, rw, ccc; bool has_payload = false; int bells = 0; Method m; };
struct SrcEntry : library_entry::impl {
  Truth t; explicit SrcEntry(Truth const& t) : t(t) {}
  impl* clone() const { return new SrcEntry(*this); }
  string name() const { return t.name; } string base_name() const { return t.name; } string pn() const { return t.pn; } int bells() const { return t.bells; }
  ringing::method meth() const { return to(t.m, t.bells, t.name); }
  bool readentry(library_base&) { return false; }
  shared_pointer<library_facet_base> get_facet(library_facet_id const& id) const {
    shared_pointer<library_facet_base> r;
    if (id == litelib::payload::id && t.has_payload) r.reset(new litelib::payload(t.payload));
    else if (id == rw_ref::id && !t.rw.empty()) r.reset(new rw_ref(t.rw));
    else if (id == cc_collection_id::id && !t.ccc.empty()) r.reset(new cc_collection_id(t.ccc));
    return r; }
};
Truth gen(int bells) { Truth t; t.bells = bells; GenMethod g = gen_method(bells, 8); t.m = g.m; t.pn = g.pn; if (choose(8)) t.name = gen_name(); Quiet q; t.title = to(t.m, bells, t.name).fullname(); t.has_payload = choose(2); if (t.has_payload) t.payload = gen_name(); if (choose(2)) t.rw = "R" + t.name; if (choose(2)) t.ccc = "C" + t.pn; return t; }
string line(Truth const& t, bool inc, method_stream::name_form f) {
  string s; if (inc) s += sim::fmt("%d:", t.bells); s += t.pn; if (f != method_stream::none) s += "\t";
  if (f == method_stream::payload || f == method_stream::payload_or_name) { if (t.has_payload) s += t.payload; else if (f == method_stream::payload_or_name) s += t.name; }
  else if (f == method_stream::name) s += t.name; else if (f == method_stream::full_title) s += t.title;
  return s + "\n";
}
struct CoutTo { std::streambuf* old; CoutTo(std::streambuf* b) { old = std::cout.rdbuf(b); std::cout.clear(); } ~CoutTo() { std::cout.rdbuf(old); std::cout.clear(); } };

// Reference for a method set: methods in order, first one in wins, chosen facets copied.
struct SetModel {
  struct E { Truth t; string rw, ccc, payload; bool has_payload = false; };
  std::map<Method, E> m;
};
void check_set_entry(library_entry const& e, SetModel::E const& w, const char* where) {
  Quiet q; SIM_CHECK(!e.null(), "set.null", "%s: null entry", where);
  SIM_CHECK(of(e.meth()) == w.t.m, "set.method", "%s: method %s, should be %s", where, text(of(e.meth())).c_str(), text(w.t.m).c_str());
  SIM_CHECK(of(ringing::method(e.pn(), e.bells())) == w.t.m, "set.pn", "%s: notation %s does not give %s", where, e.pn().c_str(), text(w.t.m).c_str());
  SIM_CHECK(e.bells() == w.t.bells && e.name() == w.t.name && e.base_name() == w.t.name && e.fullname() == w.t.title, "set.name", "%s: name %s title %s, should be %s, %s", where, quote(e.name()).c_str(), quote(e.fullname()).c_str(), quote(w.t.name).c_str(), quote(w.t.title).c_str());
  SIM_CHECK(e.has_facet<rw_ref>() == !w.rw.empty() && (w.rw.empty() || e.get_facet<rw_ref>() == w.rw), "set.facet", "%s: %s RW reference differs (want %s)", where, w.t.name.c_str(), w.rw.c_str());
  SIM_CHECK(e.has_facet<cc_collection_id>() == !w.ccc.empty() && (w.ccc.empty() || e.get_facet<cc_collection_id>() == w.ccc), "set.facet", "%s: %s collection id differs (want %s)", where, w.t.name.c_str(), w.ccc.c_str());
  SIM_CHECK(e.has_facet<litelib::payload>() == w.has_payload && (!w.has_payload || e.get_facet<litelib::payload>() == w.payload), "set.facet", "%s: %s payload differs", where, w.t.name.c_str());
}
}

// Streamed methods under a failing terminal, pipe or disk, through any tree of outputs.
SCENARIO(method_streams, "P03", 4) {
  bool inc = choose(2); auto form = (method_stream::name_form)choose(5); int fixed = range(4, 12); int n = choose(chance(1, 8) ? 40 : 8);
  vector<Truth> all; for (int i = 0; i < n; ++i) all.push_back(gen(inc ? range(4, 12) : fixed));
  string want; vector<size_t> ends; for (auto& t : all) { want += line(t, inc, form); ends.push_back(want.size()); }
  SinkBuf sink; sink.mode = choose(3); int fk = choose(4); if (fk == 1) { sink.fail_at = choose(want.size() + 1); } else if (fk == 2) { sink.fail_at = choose(want.size() + 1); sink.throws = true; } else if (fk == 3) sink.fail_sync = 1 + choose(n + 1);
  bool tree = choose(2); methodset ms1, ms2; bool failed; const string xpath = "/sim/multi.xml"; bool with_xml = false;
  {
    CoutTo redir(&sink); std::unique_ptr<libout> o; int before = 0;
    if (!tree) { op("method_stream inc=%d form=%d", inc, form); o.reset(new method_stream(inc, form)); }
    else {
      auto* m = new multilibout; o.reset(m); SIM_CHECK(m->empty(), "multi.empty", "a new multilibout is not empty");
      before = choose(3); with_xml = choose(3) == 2; op("multilibout method_stream at %d xml %d", before, with_xml);
      auto set = [&](methodset& s) { m->add(new methodset(s)); };
      if (before > 0) set(ms1); 
      if (before > 1) { auto* inner = new multilibout; inner->add(new methodset(ms2)); inner->add(new method_stream(inc, form)); m->add(inner); } else { m->add(new method_stream(inc, form)); set(ms2); }
      if (with_xml) m->add(new xmlout(xpath));
      SIM_CHECK(!m->empty(), "multi.empty", "multilibout with outputs says it is empty");
    }
    vector<library_entry> src; for (auto& t : all) src.push_back(library_entry(new SrcEntry(t)));
    op("append %d", n);
    switch (choose(3)) { case 0: for (auto& e : src) o->append(e); break; case 1: for (auto& e : src) o->push_back(e); break; default: o->append(src.begin(), src.end()); }
    op("flush"); o->flush(); failed = !std::cout; o.reset();
  }
  event("sink", "%s", quote(sink.data, 2000).c_str());
  if (!sink.failed) { SIM_CHECK(sink.data == want, "stream.content", "output is %s, should be %s", quote(sink.data, 600).c_str(), quote(want, 600).c_str()); SIM_CHECK(!failed, "stream.spurious", "the stream reports a failure that did not happen"); }
  else { SIM_CHECK(failed, "stream.hidden", "the output device failed after %zu bytes but the stream is still good", sink.data.size()); SIM_CHECK(want.compare(0, sink.data.size(), sink.data) == 0, "stream.notprefix", "after a failure the output %s is not a prefix of %s", quote(sink.data, 600).c_str(), quote(want, 600).c_str()); probe("sink_failed"); }
  if (tree) {   // every other output has everything, whatever became of the terminal
    std::map<Method, Truth> uniq; for (auto& t : all) uniq.insert({ t.m, t });
    if (with_xml) { library x(xmllib(xmllib::filename, xpath)); size_t k = 0; for (library::const_iterator i = x.begin(), e = x.end(); i != e; ++i, ++k) { SIM_CHECK(k < all.size() && of(i->meth()) == all[k].m && i->base_name() == all[k].name, "multi.order", "XML output of a multiple output: entry %zu differs", k); } SIM_CHECK(k == all.size(), "multi.missing", "XML output of a multiple output has %zu of %zu", k, all.size()); }
    for (methodset* s : { &ms1, &ms2 }) { if (s == &ms1 && ms1.size() == 0 && !uniq.empty()) continue; SIM_CHECK(s->size() == uniq.size(), "multi.missing", "a method set in a multiple output holds %zu of %zu methods", s->size(), uniq.size()); for (auto& u : uniq) SIM_CHECK(!s->find(to(u.first, u.second.bells, "z")).null(), "multi.missing", "a method set in a multiple output lacks %s", text(u.first).c_str()); }
  }
  // what reached the device can be read back: whole lines are whole methods
  if (form == method_stream::payload_or_name || form == method_stream::name || form == method_stream::full_title) {
    std::istringstream is(sink.data); op("read back"); litelib lib(inc ? 0 : fixed, is, litelib::payload_is_name); size_t whole = 0; while (whole < ends.size() && ends[whole] <= sink.data.size()) ++whole;
    size_t k = 0; for (library::const_iterator i = lib.begin(), e = lib.end(); i != e && k < whole; ++i, ++k) { SIM_CHECK(of(i->meth()) == all[k].m && i->bells() == all[k].bells, "stream.readback", "line %zu reads back as %s on %d, should be %s on %d", k, text(of(i->meth())).c_str(), i->bells(), text(all[k].m).c_str(), all[k].bells);
      string nm = form == method_stream::name ? all[k].name : form == method_stream::full_title ? all[k].title : all[k].has_payload ? all[k].payload : all[k].name; SIM_CHECK(i->name() == nm, "stream.readback", "line %zu reads back with name %s, should be %s", k, quote(i->name()).c_str(), quote(nm).c_str()); }
    SIM_CHECK(k == whole, "stream.readback", "%zu complete lines read back as %zu methods", whole, k);
  }
  if (n) nontrivial(); state(mix(mix(fk, form), mix(tree, std::min(n, 5)))); 
}

// Random histories of method sets and the entries and iterators taken from them.
SCENARIO(methodset_history, "P03", 4) {
  int ns = range(1, 3); vector<methodset> s(ns); vector<SetModel> mod(ns); vector<std::set<int>> stored(ns); int bells = range(4, 8);
  vector<Truth> pool; int np = range(1, 8); for (int i = 0; i < np; ++i) pool.push_back(gen(chance(1, 5) ? range(4, 8) : bells));
  if (np > 1 && choose(2)) { pool[1] = pool[0]; pool[1].name = "Other"; Quiet q; pool[1].title = to(pool[1].m, pool[1].bells, "Other").fullname(); pool[1].rw = "other"; }
  struct Held { library_entry e; int k; Method m; }; std::list<Held> held; struct It { library::const_iterator i; int k; Method at; bool on = true; }; std::list<It> its;
  auto put = [&](int k, Truth const& t, bool facets) { SetModel::E e; e.t = t; if (facets) { if (stored[k].count(0)) e.rw = t.rw; if (stored[k].count(1)) e.ccc = t.ccc; if (stored[k].count(2) && t.has_payload) { e.has_payload = true; e.payload = t.payload; } } mod[k].m.insert({ t.m, e }); };
  auto scan = [&](int k, const char* where) { SIM_CHECK(s[k].size() == mod[k].m.size(), "set.size", "%s: size %zu, should be %zu", where, s[k].size(), mod[k].m.size()); SIM_CHECK(s[k].empty() == mod[k].m.empty(), "set.size", "%s: empty() is wrong", where);
    std::set<Method> seen; ringing::method last; bool first = true; for (methodset::const_iterator i = s[k].begin(), e = s[k].end(); i != e; ++i) { ringing::method m = i->meth(); Method r = of(m); SIM_CHECK(seen.insert(r).second, "set.repeat", "%s: %s comes up twice", where, text(r).c_str()); auto w = mod[k].m.find(r); SIM_CHECK(w != mod[k].m.end(), "set.phantom", "%s: %s was never added", where, text(r).c_str()); check_set_entry(*i, w->second, where); if (!first) SIM_CHECK(last < m, "set.order", "%s: iteration is not in order", where); last = m; first = false; }
    SIM_CHECK(seen.size() == mod[k].m.size(), "set.missing", "%s: iteration gave %zu of %zu", where, seen.size(), mod[k].m.size()); };
  int steps = range(3, 40);
  for (int st = 0; st < steps; ++st) {
    int k = choose(ns); Truth const& t = pool[choose(pool.size())];
    switch (choose(11)) {
    case 0: case 1: op("append entry"); s[k].append(library_entry(new SrcEntry(t))); put(k, t, true); break;
    case 2: op("append method"); s[k].append(to(t.m, t.bells, t.name)); put(k, t, false); break;
    case 3: { op("append range"); vector<library_entry> v; int c = choose(4); for (int i = 0; i < c; ++i) { Truth const& u = pool[choose(pool.size())]; v.push_back(library_entry(new SrcEntry(u))); put(k, u, true); } size_t got = s[k].append(v.begin(), v.end()); SIM_CHECK(got == (size_t)c, "set.count", "append of %d entries returned %zu", c, got); break; }
    case 4: { op("store facet"); int f = choose(3); if (f == 0) s[k].store_facet<rw_ref>(); else if (f == 1) s[k].store_facet<cc_collection_id>(); else s[k].store_facet<litelib::payload>(); stored[k].insert(f); break; }
    case 5: { op("find"); library_entry e = choose(2) ? s[k].find(to(t.m, t.bells, "x")) : s[k].find(t.title); auto w = mod[k].m.find(t.m); if (w == mod[k].m.end()) { if (!e.null() && e.fullname() == t.title) break; SIM_CHECK(e.null(), "set.phantom", "found %s which is not in the set", t.title.c_str()); } else if (!e.null()) { if (of(e.meth()) == t.m) { check_set_entry(e, w->second, "find"); held.push_back({ e, k, t.m }); } } else SIM_CHECK(w->second.t.title != t.title, "set.lost", "%s is in the set but was not found", t.title.c_str()); break; }
    case 6: { op("begin"); It i; i.k = k; i.i = s[k].begin(); if (i.i == s[k].end()) { SIM_CHECK(mod[k].m.empty(), "set.missing", "begin of a non-empty set is its end"); break; } i.at = of(i.i->meth()); its.push_back(i); break; }
    case 7: if (!its.empty()) { op("advance"); It& i = *std::next(its.begin(), choose(its.size())); if (!i.on) break; ++i.i; if (i.i == s[i.k].end()) i.on = false; else i.at = of(i.i->meth()); } break;
    case 8: if (!held.empty()) { op("set facet"); Held& h = *std::next(held.begin(), choose(held.size())); auto& w = mod[h.k].m.find(h.m)->second; string v = sim::fmt("v%d", st); if (choose(2)) { h.e.set_facet<rw_ref>(v); w.rw = v; } else { h.e.set_facet<litelib::payload>(v); w.payload = v; w.has_payload = true; } } break;
    case 9: if (choose(3) == 2) { op("clear"); for (auto i = held.begin(); i != held.end();) i = i->k == k ? held.erase(i) : std::next(i); for (auto i = its.begin(); i != its.end();) i = i->k == k ? its.erase(i) : std::next(i); s[k].clear(); mod[k].m.clear(); } else { op("copy between sets"); int j = choose(ns); if (j == k) break; vector<SetModel::E> v; for (auto& e : mod[j].m) v.push_back(e.second); s[k].append(s[j].begin(), s[j].end()); for (auto& e : v) { SetModel::E n; n.t = e.t; if (stored[k].count(0)) n.rw = e.rw; if (stored[k].count(1)) n.ccc = e.ccc; if (stored[k].count(2)) { n.has_payload = e.has_payload; n.payload = e.payload; } mod[k].m.insert({ e.t.m, n }); } } break;
    case 10: { op("load"); string nm = t.name; if (choose(2)) for (auto& c : nm) c = toupper((unsigned char)c); int stg = choose(2) ? t.bells : 0; std::set<Method> cand; for (auto& e : mod[k].m) { string a = e.second.t.name, b = nm; for (auto& c : a) c = tolower((unsigned char)c); for (auto& c : b) c = tolower((unsigned char)c); if (a == b && (!stg || e.second.t.bells == stg)) cand.insert(e.first); }
        try { ringing::method m = s[k].load(nm, stg); SIM_CHECK(cand.count(of(m)), "set.load", "load of %s gave %s", quote(nm).c_str(), text(of(m)).c_str()); } catch (library_base::invalid_name const&) { SIM_CHECK(cand.empty(), "set.load", "load of %s did not find it", quote(nm).c_str()); } break; }
    }
    if (choose(3) == 0) scan(k, "scan");
    for (auto& h : held) check_set_entry(h.e, mod[h.k].m.find(h.m)->second, "entry kept");
    for (auto& i : its) if (i.on) check_set_entry(*i.i, mod[i.k].m.find(i.at)->second, "iterator kept");
    uint64_t h = its.size(); for (int j = 0; j < ns; ++j) h = mix(h, std::min<size_t>(mod[j].m.size(), 4) | stored[j].size() << 3); state(mix(h, std::min<size_t>(held.size(), 3)));
  }
  for (int k = 0; k < ns; ++k) scan(k, "final scan");
  if (its.size() || held.size()) nontrivial();
}

namespace {
enum Fmt { CC, XML, MS, JUNK, EMPTY };
struct LibFile { string path; Fmt f; vector<string> names; vector<Method> m; string data; bool missing = false, unreadable = false; long eio = -1; };
string padr(string s, size_t w) { s.resize(std::max(w, s.size() + 1), ' '); return s; }
LibFile make(string const& path, int id) {
  LibFile L; L.path = path; L.f = (Fmt)choose(5); int n = range(1, 4); int b = range(4, 8);
  for (int i = 0; i < n; ++i) { L.names.push_back(sim::fmt("L%dM%d", id, i)); Method m; int len = range(1, 5); for (int k = 0; k < len; ++k) m.push_back(gen_change(b)); L.m.push_back(m); }
  if (L.f == CC) { L.data = "Copyright Central Council of Church Bell Ringers\n\n" + string(stage_name(b)) + " principles\n\n" + padr(" No.", 5) + padr("Name", 20) + padr("Notation", 50) + "lh\n"; for (int i = 0; i < n; ++i) L.data += padr(padr(sim::fmt("%4d", i + 1), 5) + L.names[i], 25) + padr(join_pn(L.m[i]), 50) + "b\n"; }
  else if (L.f == XML) { L.data = "<methods>\n"; for (int i = 0; i < n; ++i) L.data += sim::fmt("<method><name>%s</name><title>%s</title><stage>%d</stage><pn><block>%s</block></pn></method>\n", L.names[i].c_str(), L.names[i].c_str(), b, join_pn(L.m[i]).c_str()); L.data += "</methods>\n"; }
  else if (L.f == MS) { L.data = sim::fmt("*** S%d\n", b); for (int i = 0; i < n; ++i) L.data += L.names[i] + " b +" + join_pn(L.m[i]) + "\n"; }
  else if (L.f == JUNK) L.data = choose(2) ? "this is not a method library at all\n" : "<?xml version=\"1.0\"?>\n<html/>\n";
  if (L.f >= JUNK) { L.names.clear(); L.m.clear(); }
  switch (choose(8)) { case 4: case 5: L.missing = true; break; case 6: L.unreadable = true; fault(F_OPEN_FAIL, "%s EACCES", path.c_str()); break; case 7: L.eio = choose(L.data.size() + 1); break; default: break; }
  if (!L.missing) { io::put(path, L.data); if (L.unreadable) io::file(path)->unreadable = true; if (L.eio >= 0) { io::Policy p = io::policy; p.eio_after = L.eio; io::file_policy[path] = p; } event("file", "%s fmt=%d %s%s", path.c_str(), L.f, L.unreadable ? "unreadable " : "", L.eio >= 0 ? "faulty" : ""); }
  return L;
}
}

SCENARIO(library_search, "P04", 4) {
  io::policy.read_mode = choose(4);
  // formats are registered in the order every program of the suite uses; any subset
  std::set<int> reg; if (choose(5)) { cclib::registerlib(); reg.insert(CC); } if (choose(5)) { xmllib::registerlib(); reg.insert(XML); } if (choose(5)) { mslib::registerlib(); reg.insert(MS); }
  static const char* dirs[] = { "/sim/a", "/sim/b/c", "/sim/d" }; static const char* base[] = { "simrel-x.txt", "simrel-y8.lib", "simrel-z" };
  std::map<string, LibFile> files; int id = 0; for (auto d : { "/sim/cwd", "/sim/a", "/sim/b/c", "/sim/d" }) for (auto b : base) if (choose(3)) { string p = string(d) + "/" + b; files[p] = make(p, id++); }
  vector<string> path; auto set_path = [&] { path.clear(); string p; int n = choose(4); for (int i = 0; i < n; ++i) { string d = choose(6) == 5 ? "/sim/absent" : dirs[choose(3)]; path.push_back(d); if (i) p += ":"; p += d; } 
    int how = choose(4); op("path %s how=%d", p.c_str(), how);
    if (how <= 1) library::setpath(p);
    else { unsetenv("METHOD_LIBRARY_PATH"); unsetenv("METHLIBPATH"); if (how == 2) { setenv("METHOD_LIBRARY_PATH", p.c_str(), 1); if (choose(2)) setenv("METHLIBPATH", "/sim/absent", 1); } else setenv("METHLIBPATH", p.c_str(), 1); library::setpath_from_env(); } };
  set_path();
  auto expect = [&](string const& name, vector<LibFile*>& cand) { auto add = [&](string const& p) { auto i = files.find(p); if (i != files.end() && !i->second.missing && !i->second.unreadable) cand.push_back(&i->second); }; if (name[0] == '/') add(name); else { add("/sim/cwd/" + name); for (auto& d : path) add(d + "/" + name); } };
  struct Opened { std::unique_ptr<library> l; LibFile* f; bool faulted; }; std::list<Opened> open;
  auto check = [&](library const& l, LibFile const& f, bool faulted, const char* where) { size_t k = 0; for (library::const_iterator i = l.begin(), e = l.end(); i != e; ++i, ++k) { SIM_CHECK(k < f.names.size(), "search.extra", "%s: %s has only %zu methods", where, f.path.c_str(), f.names.size()); SIM_CHECK(i->base_name() == f.names[k] && of(i->meth()) == f.m[k], "search.content", "%s: entry %zu of %s is %s %s, should be %s %s", where, k, f.path.c_str(), i->base_name().c_str(), text(of(i->meth())).c_str(), f.names[k].c_str(), text(f.m[k]).c_str()); } SIM_CHECK(k == f.names.size() || faulted, "search.short", "%s: %zu of %zu methods of %s", where, k, f.names.size(), f.path.c_str()); };
  // which file must be used: the first candidate in a registered format (earlier faulty ones may or may not be)
  auto locate = [&](string const& name, LibFile*& sure, vector<LibFile*>& maybe) { vector<LibFile*> c; expect(name, c); sure = nullptr; for (auto* f : c) { if (!reg.count(f->f)) continue; if (f->eio >= 0) { maybe.push_back(f); continue; } sure = f; break; } };
  int steps = range(2, 12);
  for (int st = 0; st < steps; ++st) {
    int o = choose(8);
    if (o == 6) { set_path(); continue; }
    if (o == 7 && !files.empty()) {   // a file comes, goes or is repaired behind the program's back
      LibFile& f = std::next(files.begin(), choose(files.size()))->second; bool used = false; for (auto& w : open) used |= w.f == &f; if (used) continue;
      if (choose(2) && !f.missing) { op("file goes %s", f.path.c_str()); io::remove(f.path); f.missing = true; } else { op("file good %s", f.path.c_str()); f.missing = f.unreadable = false; f.eio = -1; io::file_policy.erase(f.path); io::put(f.path, f.data); io::file(f.path)->unreadable = false; probe("late_file"); }
      continue; }
    if (o == 5 && !open.empty()) { Opened& w = *std::next(open.begin(), choose(open.size())); op("re-read"); check(*w.l, *w.f, w.faulted, "library still open"); continue; }
    string name; if (choose(4) == 3) name = string(pick(vector<string>{ "/sim/cwd", "/sim/a", "/sim/b/c", "/sim/d" })) + "/" + base[choose(3)]; else name = base[choose(3)];
    LibFile* sure; vector<LibFile*> maybe; locate(name, sure, maybe);
    if (o == 4) {
      op("import %s", name.c_str()); methodset ms; bool env = choose(2); size_t n = 0; bool threw = false; vector<LibFile*> want; bool any_maybe = !maybe.empty(), miss = !sure;
      if (sure) want.push_back(sure);
      try { if (env) { string v = name; string second = base[choose(3)]; bool two = choose(2); if (two) { LibFile* s2; vector<LibFile*> m2; locate(second, s2, m2); if (s2) want.push_back(s2); else miss = true; any_maybe |= !m2.empty(); v += ":" + second; } setenv("METHOD_LIBRARY", v.c_str(), 1); n = ms.import_libraries_from_env(); } else n = ms.import_library(name); }
      catch (std::runtime_error const&) { threw = true; }
      if (any_maybe) { probe("import_under_fault"); continue; }
      SIM_CHECK(threw == miss, "import.verdict", "import of %s %s although %s", name.c_str(), threw ? "failed" : "succeeded", miss ? "a library is missing" : "every library is there");
      if (!threw) { size_t tot = 0; std::set<Method> u; for (auto* f : want) { tot += f->names.size(); u.insert(f->m.begin(), f->m.end()); } SIM_CHECK(n == tot, "import.count", "import of %s reports %zu methods, the files hold %zu", name.c_str(), n, tot); SIM_CHECK(ms.size() == u.size(), "import.size", "import of %s stored %zu methods, should be %zu", name.c_str(), ms.size(), u.size()); for (auto* f : want) for (size_t i = 0; i < f->m.size(); ++i) SIM_CHECK(!ms.find(to(f->m[i], f->m[i][0].n, "q")).null(), "import.lost", "imported set lacks %s", f->names[i].c_str()); nontrivial(); }
      continue; }
    op("open %s", name.c_str()); std::unique_ptr<library> l(new library(name)); bool good = l->good();
    if (!good) { SIM_CHECK(!sure, "search.missed", "%s was not found although %s is a readable library in a registered format", name.c_str(), sure->path.c_str()); SIM_CHECK(l->begin() == l->end() && l->empty(), "search.notempty", "an unusable library is not empty"); continue; }
    string first; { library::const_iterator i = l->begin(); if (i != l->end()) first = i->base_name(); }
    LibFile* got = nullptr; for (auto* f : maybe) if (!f->names.empty() && f->names[0] == first) got = f; bool faulted = got; if (!got) got = sure;
    if (!got && !maybe.empty()) { probe("fault_hid_library"); continue; }
    SIM_CHECK(got, "search.phantom", "%s opened although no file on the path is a library in a registered format", name.c_str());
    check(*l, *got, faulted, "just opened"); nontrivial(); open.push_back({ std::move(l), got, faulted });
    state(mix(mix(got->f, path.size()), mix(open.size(), faulted)));
  }
  for (auto& w : open) check(*w.l, *w.f, w.faulted, "library still open");
}
