// P18: values edited in place, walked and tabulated over long histories equal freshly built ones.
#include "libmodel.h"
#include <ringing/group.h>
#include <ringing/extent.h>
#include <ringing/multtab.h>
#include <ringing/falseness.h>
#include <ringing/mathutils.h>
#include <memory>
#include <numeric>
using namespace ref; using namespace sim;

namespace {
Row rev_compose(Row const& a, Row const& b) { return compose(a, b); }
Row pad(Row r, int n) { while ((int)r.size() < n) r.push_back(r.size()); return r; }
Row mul(Row a, Row b) { int n = std::max(a.size(), b.size()); return compose(pad(a, n), pad(b, n)); }
Row inv(Row const& a) { Row r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[a[i]] = i; return r; }
Row quot(Row a, Row b) { int n = std::max(a.size(), b.size()); return mul(pad(a, n), inv(pad(b, n))); }
int order(Row r) { int o = 1; vector<bool> d(r.size()); for (size_t i = 0; i < r.size(); ++i) { int k = 0; for (size_t j = i; !d[j]; j = r[j]) d[j] = true, ++k; if (k) o = std::lcm(o, k); } return o; }
Row gen_row(int n) { Row r = rounds(n); for (int i = n - 1; i > 0; --i) std::swap(r[i], r[choose(i + 1)]); return r; }
void check(ringing::change const& c, Change const& m, const char* w) {
  Quiet q; SIM_CHECK(c.bells() == m.n, "change.bells", "%s: on %d bells, should be %d", w, c.bells(), m.n);
  for (int i = 0; i < m.n; ++i) { SIM_CHECK(c.findswap(i) == (std::find(m.sw.begin(), m.sw.end(), i) != m.sw.end()), "change.findswap", "%s: findswap(%d) of %s", w, i, m.pn().c_str()); vector<int> p = m.places(); SIM_CHECK(c.findplace(i) == (std::find(p.begin(), p.end(), i) != p.end()), "change.findplace", "%s: findplace(%d) of %s", w, i, m.pn().c_str()); }
  vector<int> pl; for (auto b : c.places()) pl.push_back(int(b)); SIM_CHECK(pl == m.places() && c.count_places() == (int)pl.size(), "change.places", "%s: wrong places of %s", w, m.pn().c_str());
  if (m.n) SIM_CHECK(c.print() == m.pn(), "change.print", "%s: prints %s, should print %s", w, c.print().c_str(), m.pn().c_str());
  SIM_CHECK(c.sign() == (m.sw.size() % 2 ? -1 : 1), "change.sign", "%s: sign of %s", w, m.pn().c_str());
  bool in = false; if (m.n >= 3) for (int p : m.places()) in |= p != 0 && p != m.n - 1; SIM_CHECK(c.internal() == in, "change.internal", "%s: internal() of %s", w, m.pn().c_str());
  vector<ringing::bell> pv; for (int p : m.places()) pv.push_back(p); ringing::change fresh(m.n, pv); SIM_CHECK(c == fresh && !(c < fresh) && !(fresh < c), "change.equal", "%s: differs from a fresh %s", w, m.pn().c_str());
}
void check(ringing::row const& r, Row const& m, const char* w) { Quiet q; Row g = of(r); SIM_CHECK(g == m, "row.value", "%s: row %s, should be %s", w, str(g).c_str(), str(m).c_str()); }
void check(ringing::method const& x, Method const& m, int bells, string const& name, const char* w) {
  Quiet q; SIM_CHECK((int)m.size() == x.length(), "method.length", "%s: length %d, should be %zu", w, x.length(), m.size()); SIM_CHECK(x.bells() == bells, "method.bells", "%s: on %d bells, should be %d", w, x.bells(), bells);
  SIM_CHECK(of(x) == m, "method.changes", "%s: is %s, should be %s", w, text(of(x)).c_str(), text(m).c_str()); SIM_CHECK(name == x.name(), "method.name", "%s: named %s, should be %s", w, x.name(), name.c_str());
  if (m.empty()) return; for (auto& c : m) if (c.n != bells) return;
  Row lh = rounds(bells); for (auto& c : m) lh = ref::apply(lh, c); check(x.lh(), lh, w); SIM_CHECK(x.leads() == order(lh), "method.leads", "%s: %d leads, should be %d", w, x.leads(), order(lh));
  int hb = 0; for (int i = 0; i < bells; ++i) hb += lh[i] == i; SIM_CHECK(x.huntbells() == hb, "method.hunts", "%s: %d hunt bells, should be %d", w, x.huntbells(), hb);
  ringing::method f = to(m, bells, name);
  SIM_CHECK(x.format(ringing::method::M_DASH | ringing::method::M_SYMMETRY) == f.format(ringing::method::M_DASH | ringing::method::M_SYMMETRY), "method.format", "%s: formatted differently from a fresh %s", w, text(m).c_str());
  SIM_CHECK(x.methclass() == f.methclass() && x.issym() == f.issym() && x.isdouble() == f.isdouble() && x.symmetry_point() == f.symmetry_point() && x.maxblows() == f.maxblows(), "method.class", "%s: classified differently from a fresh %s", w, text(m).c_str());
  if (bells <= 22) SIM_CHECK(x.fullname() == f.fullname(), "method.fullname", "%s: called %s, a fresh one %s", w, x.fullname().c_str(), f.fullname().c_str());
  bool pal = false; int n = m.size(); for (int i = 0; n % 2 == 0 && i < n && !pal; ++i) { pal = true; for (int k = 1; k < n && pal; ++k) pal = m[(i + k) % n] == m[((i - k) % n + n) % n]; } SIM_CHECK(x.ispalindromic() == pal, "method.palindrome", "%s: %s is %sa palindrome", w, text(m).c_str(), pal ? "" : "not ");
}
void toggle(Change& c, int p, bool& swapped) {   // swap or unswap a pair, dropping what it overlaps
  auto i = std::find(c.sw.begin(), c.sw.end(), p); if (i != c.sw.end()) { c.sw.erase(i); swapped = false; return; }
  c.sw.erase(std::remove_if(c.sw.begin(), c.sw.end(), [&](int x) { return x == p - 1 || x == p + 1; }), c.sw.end()); c.sw.push_back(p); std::sort(c.sw.begin(), c.sw.end()); swapped = true;
}
}

SCENARIO(edit_changes, "P18", 2) {
  struct E { ringing::change c; Change m; }; vector<E> es; int n = 2 + choose(12);
  auto make = [&] { E e; e.m = gen_change(n, true); int k = choose(4); op("make %s how=%d", e.m.pn().c_str(), k); if (k == 0) e.c = ringing::change(n, e.m.pn()); else if (k == 1) { vector<ringing::bell> p; for (int x : e.m.places()) p.push_back(x); e.c = ringing::change(n, p); } else if (k == 2) { e.c = to(e.m); } else { e.m = Change(); e.m.n = n; e.c = ringing::change(n); } es.push_back(e); };
  make(); make(); size_t steps = 4 + choose(60);
  for (size_t s = 0; s < steps; ++s) {
    size_t id = choose(es.size()); E& e = es[id]; int w = choose(16);
    if (w < 8) { int p = choose(e.m.n ? e.m.n : 1); op("swappair %d of %s", p, e.m.pn().c_str()); if (p + 2 > e.m.n) { bool t = false; try { e.c.swappair(p); } catch (ringing::change::out_of_range&) { t = true; } SIM_CHECK(t, "change.range", "swappair(%d) accepted on %d bells", p, e.m.n); } else { bool want; toggle(e.m, p, want); bool got = e.c.swappair(p); SIM_CHECK(got == want, "change.swappair", "swappair(%d) says %d, leaving %s", p, got, e.m.pn().c_str()); nontrivial(); } }
    else if (w == 8) { op("reverse"); e.c = e.c.reverse(); for (int& x : e.m.sw) x = e.m.n - 2 - x; std::sort(e.m.sw.begin(), e.m.sw.end()); }
    else if (w == 9) { Change c = gen_change(2 + choose(12)); op("set %s", c.pn().c_str()); e.c.set(c.n, c.pn()); e.m = c; }
    else if (w == 10) { size_t o = choose(es.size()); op("swap %zu %zu", id, o); if (choose(2)) e.c.swap(es[o].c); else std::swap(e.c, es[o].c); std::swap(e.m, es[o].m); check(es[o].c, es[o].m, "swapped"); }
    else if (w == 11) { size_t o = choose(es.size()); op("assign %zu from %zu", id, o); e.c = es[o].c; e.m = es[o].m; }
    else if (w == 12) { static const char* bad[] = { "13", "21", "1Z", "99", "2", "" }; string b = bad[choose(6)]; if (e.m.n == 0) continue; bool ok = false; if (b == "2") ok = true; if (b == "13" ) ok = false; op("set bad %s", b.c_str()); bool t = false; ringing::change before = e.c; try { e.c.set(e.m.n, b); } catch (std::exception&) { t = true; } if (ok) { e.m = of(e.c); } else { SIM_CHECK(t, "change.accepts", "notation '%s' accepted on %d bells", b.c_str(), e.m.n); SIM_CHECK(e.c == before, "change.strong", "a refused notation changed the change"); } }
    else if (w == 13) { Row r = gen_row(e.m.n); ringing::row x = to(r); op("apply"); x *= e.c; check(x, ref::apply(r, e.m), "row times change"); ringing::row y = to(r) * e.c; check(y, ref::apply(r, e.m), "row times change"); if (e.m.n) { int b = choose(e.m.n); Row k = ref::apply(rounds(e.m.n), e.m); int want = std::find(k.begin(), k.end(), b) - k.begin(); ringing::bell bb = ringing::bell(b) * e.c; SIM_CHECK(int(bb) == want, "change.bell", "bell %d goes to %d, should go to %d", b, int(bb), want); } }
    else if (w == 14 && es.size() < 6) make();
    else { op("self"); e.c = *&e.c; e.c.swap(e.c); }
    check(es[id].c, es[id].m, "edited"); size_t o = choose(es.size()); check(es[o].c, es[o].m, "other"); state(mix(es[id].m.n, hash(es[id].m.pn())));
  }
}

SCENARIO(edit_rows, "P18", 1) {
  struct E { ringing::row r; Row m; }; vector<E> es; int n = 1 + choose(12);
  auto make = [&] { E e; int k = choose(5); e.m = gen_row(choose(4) ? n : 1 + choose(12)); if (k == 4) e.m = rounds(e.m.size()); op("make %s how=%d", str(e.m).c_str(), k); if (k == 0) e.r = ringing::row(str(e.m)); else if (k == 1) e.r = str(e.m).c_str(); else if (k == 4) e.r = ringing::row(e.m.size()); else e.r = to(e.m); es.push_back(e); };
  make(); make(); make(); size_t steps = 4 + choose(50);
  for (size_t s = 0; s < steps; ++s) {
    size_t id = choose(es.size()), o = choose(3) ? choose(es.size()) : id; E& e = es[id]; E& f = es[o]; int w = choose(18);
    switch (w) {
    case 0: case 1: op("%zu *= %zu", id, o); e.r *= f.r; e.m = mul(e.m, Row(f.m)); nontrivial(); break;
    case 2: case 3: op("%zu /= %zu", id, o); e.r /= f.r; e.m = quot(e.m, Row(f.m)); nontrivial(); break;
    case 4: { Change c = gen_change(choose(3) ? e.m.size() : 2 + choose(12), true); op("%zu *= change %s", id, c.pn().c_str()); e.r *= to(c); e.m = ref::apply(pad(e.m, c.n), c); break; }
    case 5: { int i = choose(e.m.size()), j = choose(e.m.size()); op("swap places %d %d", i, j); e.r.swap(i, j); std::swap(e.m[i], e.m[j]); break; }
    case 6: { int b = 1 + choose(14); op("resize %zu to %d", id, b); bool can = true; for (int i = 0; i < (int)e.m.size() && i < b; ++i) can &= e.m[i] < b; bool t = false; try { e.r.resize(b); } catch (ringing::row::invalid&) { t = true; } SIM_CHECK(t == !can, "row.resize", "resizing %s to %d was %s", str(e.m).c_str(), b, t ? "refused" : "accepted"); if (can) { e.m.resize(std::min<size_t>(b, e.m.size())); e.m = pad(e.m, b); } break; }
    case 7: op("inverse"); e.r = e.r.inverse(); e.m = inv(e.m); break;
    case 8: { int k = int(choose(40)) - 20; if (choose(4) == 0) k *= 37; op("power %d", k); Row b = k < 0 ? inv(e.m) : e.m; Row a = rounds(e.m.size()); int t = abs(k) % order(b); for (int i = 0; i < t; ++i) a = mul(a, b); e.r = e.r.power(k); e.m = a; break; }
    case 9: op("swap %zu %zu", id, o); if (choose(2)) e.r.swap(f.r); else std::swap(e.r, f.r); std::swap(e.m, f.m); check(es[o].r, es[o].m, "swapped"); break;
    case 10: op("assign"); e.r = f.r; e.m = f.m; break;
    case 11: op("rounds"); e.r.rounds(); e.m = rounds(e.m.size()); break;
    case 12: { op("conjugate %zu by %zu", id, o); if (e.m.size() != f.m.size()) break; e.r = e.r.conjugate(f.r); e.m = mul(mul(inv(f.m), e.m), f.m); break; }
    case 13: { vector<ringing::bell> v; Row nm = gen_row(e.m.size()); for (int b : nm) v.push_back(b); bool bad = choose(2) && nm.size() > 1; if (bad) v[0] = v[1]; op("swap in a vector%s", bad ? " (invalid)" : ""); if (bad) { ringing::row t = e.r; bool th = false; try { t.swap(v); } catch (ringing::row::invalid&) { th = true; } SIM_CHECK(th, "row.accepts", "an impossible row was accepted"); } else { e.r.swap(v); e.m = nm; } break; }
    case 14: { static const char* bad[] = { "11", "13", "1234567893", "Z" }; op("assign bad"); bool t = false; try { e.r = bad[choose(4)]; } catch (std::exception&) { t = true; } SIM_CHECK(t, "row.accepts", "an impossible row was accepted"); break; }
    case 15: { ringing::row keep = e.r; op("permuter"); ringing::row_permuter p = ringing::permute(e.r); size_t k = choose(6); for (size_t i = 0; i < k; ++i) { Change c = gen_change(e.m.size(), true); if (choose(2)) { p(to(c)); e.m = ref::apply(e.m, c); } else { Row x = gen_row(e.m.size()); p(to(x)); e.m = mul(e.m, x); } check(e.r, e.m, "permuted"); } break; }
    case 16: { op("find"); for (size_t i = 0; i < e.m.size(); ++i) SIM_CHECK(e.r.find(e.m[i]) == (int)i, "row.find", "bell %d is not found in %s", e.m[i], str(e.m).c_str()); SIM_CHECK(e.r.order() == order(e.m) && e.r.sign() == sign(e.m), "row.order", "order or sign of %s", str(e.m).c_str()); break; }
    default: if (es.size() < 6) make(); }
    check(es[id].r, es[id].m, "edited"); for (auto& x : es) check(x.r, x.m, "other"); SIM_CHECK(es[id].r.hash() == to(es[id].m).hash() && es[id].r.print() == str(es[id].m), "row.hash", "hash or text of an edited row differ from a fresh one"); state(hash(str(es[id].m)));
  }
}

SCENARIO(edit_methods, "P18", 2) {
  struct E { ringing::method x; Method m; int n; string name; }; vector<E> es;
  auto make = [&] { E e; e.n = 3 + choose(6); e.name = gen_name(); int k = choose(4); GenMethod g = gen_method(e.n); e.m = g.m; op("make %s how=%d", g.pn.c_str(), k); if (k == 0) e.x = ringing::method(g.pn, e.n, e.name); else if (k == 1) e.x = to(g.m, e.n, e.name); else if (k == 2) { e.x = ringing::method(0, e.n, e.name.c_str()); for (auto& c : g.m) { if (choose(2)) e.x.push_back(to(c)); else e.x.push_back(c.pn()); } } else { e.m.clear(); size_t l = choose(5); for (size_t i = 0; i < l; ++i) { Change c; c.n = e.n; e.m.push_back(c); } e.x = ringing::method(l, e.n, e.name.c_str()); } es.push_back(e); };
  make(); make(); size_t steps = 3 + choose(30);
  for (size_t s = 0; s < steps; ++s) {
    size_t id = choose(es.size()), o = choose(es.size()); E& e = es[id]; E& f = es[o]; int w = choose(15);
    switch (w) {
    case 0: { Change c = gen_change(e.n); op("push %s", c.pn().c_str()); if (choose(2)) e.x.push_back(to(c)); else e.x.push_back(c.pn()); e.m.push_back(c); break; }
    case 1: if (e.m.size()) { op("pop"); e.x.pop_back(); e.m.pop_back(); } break;
    case 2: case 3: if (e.m.size()) { int i = choose(e.m.size()), p = choose(e.n - 1); op("swappair %d in change %d", p, i); bool z; toggle(e.m[i], p, z); e.x[i].swappair(p); nontrivial(); } break;
    case 4: if (e.m.size()) { int i = choose(e.m.size()); op("erase %d", i); e.x.erase(e.x.begin() + i); e.m.erase(e.m.begin() + i); } break;
    case 5: { int i = choose(e.m.size() + 1); Change c = gen_change(e.n); op("insert %d", i); e.x.insert(e.x.begin() + i, to(c)); e.m.insert(e.m.begin() + i, c); break; }
    case 6: if (e.m.size()) { int k = choose(e.m.size()); op("rotate %d", k); std::rotate(e.x.begin(), e.x.begin() + k, e.x.end()); std::rotate(e.m.begin(), e.m.begin() + k, e.m.end()); } break;
    case 7: op("reverse"); std::reverse(e.x.begin(), e.x.end()); std::reverse(e.m.begin(), e.m.end()); break;
    case 8: op("swap %zu %zu", id, o); if (choose(2)) e.x.swap(f.x); else std::swap(e.x, f.x); std::swap(e.m, f.m); std::swap(e.n, f.n); std::swap(e.name, f.name); break;
    case 9: op("assign"); e.x = f.x; e.m = f.m; e.n = f.n; e.name = f.name; break;
    case 10: e.name = gen_name(); op("name %s", e.name.c_str()); e.x.name(e.name); break;
    case 11: { string pn = e.x.format(ringing::method::M_LCROSS); op("from its own notation %s", pn.c_str()); if (e.m.empty()) break; e.x = ringing::method(pn, e.n, e.name); break; }
    case 12: { op("row block"); if (e.m.empty()) break; int fl = choose(4); Row st = gen_row(e.n); ringing::row_block rb(e.x, to(st), fl); size_t sz = (fl & 2 ? e.m.size() / 2 : e.m.size()) + (fl & 1 ? 0 : 1);
        SIM_CHECK(rb.size() == sz, "block.size", "%zu rows, should be %zu", rb.size(), sz); vector<Row> m; Row r = st; for (size_t i = 0; i < sz; ++i) { m.push_back(r); if (i < e.m.size()) r = ref::apply(r, e.m[i]); }
        for (size_t i = 0; i < sz; ++i) check(rb[i], m[i], "block");
        for (size_t k = choose(4); k-- && sz;) { if (choose(2)) { Row t = gen_row(e.n); rb.set_start(to(t)); m[0] = t; } else { size_t i = choose(sz); Row t = gen_row(e.n); rb[i] = to(t); m[i] = t; }
          size_t from = choose(sz); if (choose(2) && sz > 1 && e.m.size()) { size_t ci = choose(std::min(e.m.size(), sz - 1)); int p = choose(e.n - 1); bool z; toggle(e.m[ci], p, z); e.x[ci].swappair(p); from = std::min(from, ci); }   // the block follows its changes
          op("recalculate %zu", from); rb.recalculate(from); for (size_t i = from; i + 1 < sz; ++i) m[i + 1] = ref::apply(m[i], e.m[i]); for (size_t i = 0; i < sz; ++i) check(rb[i], m[i], "recalculated"); } break; }
    case 13: { op("rotated by pushing"); size_t i = e.m.size() ? choose(e.m.size()) : 0; if (e.m.empty()) break; e.x.push_back(e.x[i]); e.m.push_back(e.m[i]); break; }   // its own element
    default: if (es.size() < 5) make(); }
    E& g = es[id]; check(g.x, g.m, g.n, g.name, "edited"); E& h = es[o]; check(h.x, h.m, h.n, h.name, "other"); state(hash(text(g.m)));
  }
}

SCENARIO(extent_walk, "P18", 1) {
  unsigned nw = choose(6), nh = choose(3), nt = nw + nh + choose(3); if (!nt) discard();
  vector<Row> all; { Row r = rounds(nt); do all.push_back(r); while (std::next_permutation(r.begin() + nh, r.begin() + nh + nw)); } size_t N = all.size();
  op("extent %u %u %u", nw, nh, nt); ringing::extent ex(nw, nh, nt); SIM_CHECK(ex.size() == N, "extent.size", "%zu rows, should be %zu", ex.size(), N);
  struct W { ringing::extent_iterator i; size_t p; }; vector<W> ws; ws.push_back({ ex.begin(), 0 }); ws.push_back({ ex.end(), N }); if (choose(2)) ws.push_back({ ringing::extent_iterator(nw, nh, nt), 0 });
  size_t steps = 5 + choose(60);
  for (size_t s = 0; s < steps; ++s) {
    size_t id = choose(ws.size()); W& w = ws[id]; int k = choose(10);
    if (k < 4) { if (w.p == N) { if (!w.p) continue; op("back from the end"); if (choose(2)) --w.i; else w.i--; --w.p; nontrivial(); } else { op("on"); ringing::row was; if (choose(2)) { was = *w.i; ringing::extent_iterator t = w.i++; check(*t, all[w.p], "postfix"); } else ++w.i; ++w.p; } }
    else if (k < 7) { if (!w.p) continue; op("back"); if (choose(2)) --w.i; else { ringing::extent_iterator t = w.i--; if (w.p < N) check(*t, all[w.p], "postfix"); } --w.p; }
    else if (k == 7) { size_t o = choose(ws.size()); op("copy"); ws[o] = w; }
    else if (k == 8 && ws.size() < 5) { op("again"); ws.push_back({ ex.begin(), 0 }); }
    else { size_t n = choose(N); op("nth %zu", n); check(ex[n], all[n], "nth"); SIM_CHECK(ex[to(all[n])] == n, "extent.position", "%s is at %zu, should be at %zu", str(all[n]).c_str(), ex[to(all[n])], n); SIM_CHECK(ringing::sign_of_nth_row_of_extent(n) == sign(all[n]), "extent.sign", "sign of row %zu", n); }
    W& x = ws[id]; SIM_CHECK(x.i.is_end() == (x.p == N), "extent.end", "at %zu of %zu, says it is %sat the end", x.p, N, x.i.is_end() ? "" : "not "); if (x.p < N) check(*x.i, all[x.p], "walk");
    for (auto& y : ws) { SIM_CHECK((x.i == y.i) == (x.p == y.p), "extent.equal", "iterators at %zu and %zu compare wrongly", x.p, y.p); SIM_CHECK((x.i < y.i) == (x.p < y.p), "extent.less", "iterators at %zu and %zu compare wrongly", x.p, y.p); } state(mix(x.p, N)); }
  vector<Row> even; for (auto& r : all) if (sign(r) > 0) even.push_back(r);
  if (nw >= 2) { op("in-course"); size_t k = 0; for (ringing::incourse_extent_iterator i(nw, nh, nt), e; i != e; ++i, ++k) { SIM_CHECK(k < even.size(), "incourse.many", "too many in-course rows"); check(*i, even[k], "in-course"); SIM_CHECK(ringing::position_in_incourse_extent(*i, nw, nh, nt) == k, "incourse.position", "in-course row %zu has another position", k); check(ringing::nth_row_of_incourse_extent(k, nw, nh, nt), even[k], "nth in-course"); } SIM_CHECK(k == even.size(), "incourse.few", "%zu in-course rows, should be %zu", k, even.size()); }
  { op("changes"); std::set<Change> want; std::function<void(int, Change)> go = [&](int i, Change c) { if (i + 1 >= int(nh + nw)) { if (!c.sw.empty()) want.insert(c); return; } go(i + 1, c); c.sw.push_back(i); go(i + 2, c); }; Change z; z.n = nt; go(nh, z); std::set<Change> got; size_t k = 0;
    for (ringing::changes_iterator i(nw, nh, nt), e; i != e; ++i, ++k) { Change c = of(*i); SIM_CHECK(c.n == (int)nt, "changes.bells", "a change on %d bells", c.n); SIM_CHECK(got.insert(c).second, "changes.twice", "%s comes twice", c.pn().c_str()); SIM_CHECK(k < 2000, "changes.endless", "changes never end"); check(*i, c, "iterated"); if (!c.sw.empty()) SIM_CHECK(want.count(c), "changes.wrong", "%s is not a change of these bells", c.pn().c_str()); }
    got.erase(z); SIM_CHECK(got == want, "changes.all", "%zu changes, should be %zu", got.size(), want.size()); }
}

namespace {
typedef std::set<Row> Set;
Set closure(vector<Row> const& gens, int n) { Set s{ rounds(n) }; vector<Row> q{ rounds(n) }; while (!q.empty()) { Row r = q.back(); q.pop_back(); for (auto& g : gens) { Row x = mul(r, pad(g, n)); if (s.insert(x).second) q.push_back(x); } } return s; }
Set conj(Set const& s, Row const& r) { Set o; for (auto& x : s) o.insert(mul(mul(inv(r), x), r)); return o; }
void check(ringing::group const& g, Set const& m, int n, const char* w) {
  Quiet q; SIM_CHECK((int)g.bells() == n, "group.bells", "%s: on %zu bells, should be %d", w, g.bells(), n); SIM_CHECK(g.size() == m.size(), "group.size", "%s: order %zu, should be %zu", w, g.size(), m.size()); auto k = m.begin(); for (auto& r : g) { SIM_CHECK(of(r) == *k, "group.elements", "%s: element %s, should be %s", w, str(of(r)).c_str(), str(*k).c_str()); ++k; }
  vector<int> fix; for (int b = 0; b < n; ++b) { bool f = true; for (auto& x : m) f &= x[b] == b; if (f) fix.push_back(b); } vector<int> got; for (auto b : g.invariants()) got.push_back(int(b)); SIM_CHECK(got == fix, "group.invariants", "%s: %zu invariant bells, should be %zu", w, got.size(), fix.size());
}
}
SCENARIO(group_history, "P18", 1) {
  struct E { ringing::group g; Set m; int n; }; vector<E> es; int n = 3 + choose(3);
  auto make = [&] { E e; e.n = n; int k = choose(9); vector<Row> gs; op("make %d", k); int nw = 1 + choose(n), nh = choose(n - nw + 1);
    auto emb = [&](Row const& w, int nwk, int h) { Row r = rounds(n); for (int i = 0; i < nwk; ++i) r[h + i] = w[i] + h; return r; };
    auto rot = [&](int m) { Row r; for (int i = 0; i < m; ++i) r.push_back((i + 1) % m); return r; };
    switch (k) {
    case 0: gs = { gen_row(n) }; e.g = ringing::group(to(gs[0])); break;
    case 1: case 2: gs = { gen_row(n), gen_row(n) }; e.g = ringing::group(to(gs[0]), to(gs[1])); break;
    case 3: { size_t c = 1 + choose(3); vector<ringing::row> v; for (size_t i = 0; i < c; ++i) { gs.push_back(gen_row(choose(3) ? n : 1 + choose(n))); v.push_back(to(gs.back())); } gs.push_back(rounds(n)); v.push_back(to(gs.back())); e.g = ringing::group(v); break; }
    case 4: case 5: { e.g = k == 4 ? ringing::group::symmetric(nw, nh, n) : ringing::group::alternating(nw, nh, n); Row r = rounds(nw); do if (k == 4 || sign(r) > 0) e.m.insert(emb(r, nw, nh)); while (std::next_permutation(r.begin(), r.end())); break; }
    case 6: { e.g = ringing::group::cyclic_c(nw, nh, n); gs = { emb(rot(nw), nw, nh) }; break; }
    case 7: { e.g = ringing::group::dihedral_c(nw, nh, n); Row rv; for (int i = nw; i--;) rv.push_back(i); gs = { emb(rot(nw), nw, nh), emb(rv, nw, nh) }; break; }
    default: e.g = ringing::group::trivial(n); gs = { rounds(n) }; }
    if (e.m.empty()) e.m = closure(gs, n); check(e.g, e.m, e.n, "made"); es.push_back(e); };
  make(); make(); size_t steps = 3 + choose(15);
  for (size_t s = 0; s < steps; ++s) {
    size_t id = choose(es.size()), o = choose(es.size()); E& e = es[id]; E& f = es[o]; int w = choose(10);
    switch (w) {
    case 0: case 1: { Row r = gen_row(e.n); op("conjugate %s", str(r).c_str()); e.g = e.g.conjugate(to(r)); e.m = conj(e.m, r); nontrivial(); break; }
    case 2: { op("even"); e.g = e.g.even_subgroup(); Set t; for (auto& x : e.m) if (sign(x) > 0) t.insert(x); e.m = t; break; }
    case 3: op("swap"); if (choose(2)) e.g.swap(f.g); else std::swap(e.g, f.g); std::swap(e.m, f.m); std::swap(e.n, f.n); break;
    case 4: op("assign"); e.g = f.g; e.m = f.m; e.n = f.n; break;
    case 5: { if (e.n + f.n > 8 || e.m.size() * f.m.size() > 500) break; op("product"); ringing::group p = ringing::group::direct_product(e.g, f.g); Set m; for (auto& a : e.m) for (auto& b : f.m) { Row r = a; for (int x : b) r.push_back(x + e.n); m.insert(r); } check(p, m, e.n + f.n, "product"); break; }
    case 6: case 7: { int rn = chance(1, 3) ? 1 + choose(8) : e.n, top = std::max(rn, e.n); Row r = gen_row(rn), r0 = r; while ((int)r.size() < top) r.push_back(r.size()); auto pad = [&](Row x) { while ((int)x.size() < top) x.push_back(x.size()); return x; }; op("labels of %s", str(r0).c_str()); Row rl, ll; bool first = true; for (auto& x : e.m) { Row a = mul(pad(x), r), b = mul(r, pad(x)); if (first) rl = a, ll = b, first = false; rl = std::min(rl, a); ll = std::min(ll, b); } ringing::row whole = to(rounds(top)); check(whole * e.g.rcoset_label(to(r0)), rl, "right coset"); check(whole * e.g.lcoset_label(to(r0)), ll, "left coset"); if (rn != e.n) probe("coset of a row on other bells"); nontrivial(); break; }
    case 8: { op("compare"); bool eq = e.n == f.n && e.m == f.m; SIM_CHECK((e.g == f.g) == eq && (e.g != f.g) == !eq && (e.g < f.g) == (f.g > e.g) && !(e.g < f.g && f.g < e.g) && (eq || e.g < f.g || f.g < e.g), "group.compare", "groups compare wrongly"); break; }
    default: if (es.size() < 5) make(); }
    check(es[id].g, es[id].m, es[id].n, "edited"); check(es[o].g, es[o].m, es[o].n, "other"); state(mix(es[id].m.size(), es[id].n)); }
}

SCENARIO(multtab_history, "P18", 1) {
  using ringing::multtab; unsigned nw = 3 + choose(3), nh = choose(2); int n = nw + nh; bool part = choose(2); vector<Row> gens; if (part) { Row r = gen_row(nw), g = rounds(n); for (unsigned i = 0; i < nw; ++i) g[nh + i] = r[i] + nh; gens.push_back(g); }
  Set P = closure(gens, n); vector<Row> all; { Row r = rounds(n); do all.push_back(r); while (std::next_permutation(r.begin() + nh, r.end())); }
  struct T { std::shared_ptr<multtab> t; vector<std::pair<Row, multtab::post_col_t>> post; vector<std::pair<Row, multtab::pre_col_t>> pre; }; vector<T> ts; ts.reserve(4);
  auto make = [&] { T t; op("table %u %u part=%zu", nw, nh, P.size()); ringing::extent_iterator a(nw, nh), b; if (part) { if (choose(2)) t.t = std::make_shared<multtab>(a, b, to(gens[0])); else t.t = std::make_shared<multtab>(a, b, ringing::group(to(gens[0]))); } else t.t = std::make_shared<multtab>(a, b); ts.push_back(t); };
  auto coset = [&](Row const& r) { Row m = r; for (auto& p : P) m = std::min(m, mul(p, r)); return m; };
  make(); size_t steps = 3 + choose(20);
  for (size_t s = 0; s < steps; ++s) {
    size_t id = choose(ts.size()); T& t = ts[id]; int w = choose(12); auto inrow = [&] { return all[choose(all.size())]; };
    if (w < 3) { Row r = choose(3) || t.post.empty() ? inrow() : t.post[choose(t.post.size())].first; op("post %s", str(r).c_str()); bool had = false; for (auto& k : t.post) had |= k.first == r; size_t before = 0; (void)before; multtab::post_col_t c = t.t->compute_post_mult(to(r)); for (auto& k : t.post) if (k.first == r) SIM_CHECK(k.second == c, "table.column", "the same column was computed twice"); if (!had) t.post.push_back({ r, c }); }
    else if (w < 5) { Row r = inrow(); bool comm = true; for (auto& p : P) comm &= mul(r, p) == mul(p, r); op("pre %s", str(r).c_str()); bool thrown = false; try { multtab::pre_col_t c = t.t->compute_pre_mult(to(r)); t.pre.push_back({ r, c }); } catch (std::logic_error&) { thrown = true; } SIM_CHECK(thrown == !comm, "table.commute", "premultiplication by %s was %s", str(r).c_str(), thrown ? "refused" : "accepted"); }
    else if (w == 5 && ts.size() < 3) { op("copy"); T u; u.t = std::make_shared<multtab>(*t.t); ts.push_back(u); }   // columns belong to the table that computed them
    else if (w == 6) { if (ts.size() < 2) continue; op("drop %zu", id); ts.erase(ts.begin() + id); continue; }
    else if (w == 7) { Change c = gen_change(n); bool ok = true; for (int x : c.sw) ok &= x >= (int)nh; if (!ok) continue; Row r = ref::apply(rounds(n), c); op("change %s", c.pn().c_str()); multtab::post_col_t k = t.t->compute_post_mult(to(c)); t.post.push_back({ r, k }); }
    else { multtab::row_t p = t.t->find(to(inrow())); Row r = of(t.t->find(p)); op("walk"); for (size_t k = 1 + choose(6); k--;) { if (!t.post.empty() && (choose(3) || t.pre.empty())) { auto& c = t.post[choose(t.post.size())]; p = p * c.second; r = coset(mul(r, c.first)); } else if (!t.pre.empty()) { auto& c = t.pre[choose(t.pre.size())]; p = c.second * p; r = coset(mul(c.first, r)); } Row g = of(t.t->find(p)); SIM_CHECK(coset(g) == r, "table.product", "table says %s, should be %s (or its coset)", str(g).c_str(), str(r).c_str()); SIM_CHECK(t.t->find(to(r)) == p, "table.find", "a row is found elsewhere than its product"); nontrivial(); } }
    SIM_CHECK(ts.empty() || ts[0].t->size() == all.size() / P.size(), "table.size", "%zu rows, should be %zu", ts[0].t->size(), all.size() / P.size()); state(mix(t.post.size(), mix(t.pre.size(), P.size())));
  }
}

SCENARIO(falseness_history, "P18", 1) {
  size_t steps = 1 + choose(6);
  for (size_t s = 0; s < steps; ++s) {
    int n = 4 + choose(3); GenMethod a = gen_method(n, 8), b = gen_method(n, 8); ringing::method A = to(a.m, n, "A"), B = to(b.m, n, "B"); bool two = choose(2); int fl = choose(16); if ((fl & 1) && (fl & 8)) fl &= ~8; op("falseness of %s%s flags=%d", a.pn.c_str(), two ? (" and " + b.pn).c_str() : "", fl);
    auto rows = [&](Method const& m) { vector<Row> v; Row r = rounds(n); size_t k = fl & 4 ? m.size() / 2 : m.size(); for (size_t i = 0; i < k; ++i) { v.push_back(r); r = ref::apply(r, m[i]); } return v; };
    vector<Row> ra = rows(a.m), rb = rows(two ? b.m : a.m); Set want; for (auto& x : ra) for (auto& y : rb) { Row f = quot(x, y); if (!(fl & 2) && f[0] != 0) continue; if ((fl & 1) && sign(f) < 0) continue; if ((fl & 8) && sign(f) > 0) continue; want.insert(f); }
    ringing::falseness_table ft = two ? ringing::falseness_table(A, B, fl) : ringing::falseness_table(A, fl); if (choose(3) == 0) { ringing::falseness_table o(B, 0); o.swap(ft); ft.swap(o); }
    Set got; for (auto& r : ft) got.insert(of(r)); SIM_CHECK(got == want && ft.size() == want.size(), "falseness.table", "%zu false lead heads of %s, should be %zu", got.size(), a.pn.c_str(), want.size()); if (want.size() > 1) nontrivial(); state(mix(want.size(), fl));
    if (!want.empty() && choose(2)) { vector<Row> gs(want.begin(), want.end()); if (fl & 8) { vector<Row> t; for (auto& x : gs) for (auto& y : gs) t.push_back(quot(x, y)); gs = t; } check(ft.generate_group(), closure(gs, n), n, "generated"); }
    if (choose(3) == 0) { static const int st[] = { 0, 6, 8, 10 }; int o = st[choose(4)]; op("optimise %d", o); ringing::false_courses::optimise(o); }
    if (choose(2)) { static const char* pl[] = { "&-5-4.5-5.36.4-4.5-4-1,8", "&-36-14-12-36.14-14.36,12", "&X38X14X1258X36X14X58X16X78,12", "&X5X4.5X5.36.4X4.5X4X1,8", "&X1X1X1X1,2" }; int k = choose(5); int cf = choose(2) | 2; ringing::method m(pl[k], 8, "M"); if (!m.lh().ispblh()) continue; op("courses %s", pl[k]); ringing::false_courses fc(m, cf); string now = fc.symbols(); string kept; { ringing::false_courses::optimise(0); kept = fc.symbols(); } SIM_CHECK(now == kept, "falseness.symbols", "falseness %s with the cache and %s without", now.c_str(), kept.c_str()); probe("symbols compared"); }
  }
}
