// P07: provers over histories of adding, undoing and branching.
#include "libmodel.h"
#include <ringing/proof.h>
#include <ringing/touch.h>
#include <sstream>
#include <list>
#include <memory>
using namespace ref; using namespace sim;
using ringing::prover; using ringing::proof; using ringing::linedetail; using ringing::shared_pointer;

namespace {
typedef std::map<Row, vector<int>> Lines;      // row -> lines it occurs on
struct Model { vector<Row> rows; };           // everything since the start, ancestors included
Lines lines(vector<Row> const& v) { Lines l; for (size_t i = 0; i < v.size(); ++i) l[v[i]].push_back(i + 1); return l; }
struct Node {
  shared_pointer<prover> p; vector<Row> rows; size_t own = 0;  // own: how many of rows belong to this prover
  int parent = -1, kids = 0; bool dead = false;
  int max = 1; bool off = false; bool off_truth = true;        // proving disabled: verdict frozen
  std::shared_ptr<prover::failinfo> fi; bool fi_stale = false;
};
bool truth(Node const& n) { if (n.off) return n.off_truth; if (n.max == -1) return true; for (auto& k : lines(n.rows)) if ((int)k.second.size() > n.max) return false; return true; }
size_t dups(vector<Row> const& v) { size_t d = 0; for (auto& k : lines(v)) d += k.second.size() - 1; return d; }
string show(vector<int> const& v) { string s; for (int i : v) s += sim::fmt("%d ", i); return s; }
void check_fi(prover::failinfo const& fi, vector<Row> const& rows, int max, const char* where) {
  Lines want; for (auto& k : lines(rows)) if (max != -1 && (int)k.second.size() > max) want.insert(k);
  Lines got; for (auto& d : fi) { Row r = of(d._row); SIM_CHECK(!got.count(r), "report.twice", "%s: row %s reported twice", where, str(r).c_str()); got[r] = vector<int>(d._lines.begin(), d._lines.end()); }
  for (auto& k : want) { SIM_CHECK(got.count(k.first), "report.missing", "%s: row %s on lines %sis not reported", where, str(k.first).c_str(), show(k.second).c_str());
    SIM_CHECK(got[k.first] == k.second, "report.lines", "%s: row %s reported on lines %s, it is on lines %s", where, str(k.first).c_str(), show(got[k.first]).c_str(), show(k.second).c_str()); }
  for (auto& k : got) SIM_CHECK(want.count(k.first), "report.extra", "%s: row %s reported (lines %s) but does not occur too often", where, str(k.first).c_str(), show(k.second).c_str());
}
void check(Node const& n, int id, vector<Row> const& universe) {
  Quiet q; bool t = truth(n);
  SIM_CHECK(n.p->truth() == t, "prover.truth", "prover %d says %s after %zu rows, should say %s", id, n.p->truth() ? "true" : "false", n.rows.size(), t ? "true" : "false");
  SIM_CHECK(n.p->size() == n.rows.size(), "prover.size", "prover %d has %zu rows, should have %zu", id, n.p->size(), n.rows.size());
  SIM_CHECK(n.p->duplicates() == dups(n.rows), "prover.duplicates", "prover %d counts %zu duplicates, should be %zu", id, n.p->duplicates(), dups(n.rows));
  for (auto& u : universe) { size_t c = std::count(n.rows.begin(), n.rows.end(), u); SIM_CHECK(n.p->count_row(to(u)) == c, "prover.count", "prover %d counts %s %zu times, should be %zu", id, str(u).c_str(), n.p->count_row(to(u)), c); }
  if (n.fi && !n.fi_stale && !n.off && !n.kids) check_fi(*n.fi, n.rows, n.max, "report");
}
}

SCENARIO(prover_history, "P07", 3) {
  int bells = 3 + choose(4); vector<Row> uni; { Row r = rounds(bells); size_t nu = 1 + choose(6); for (size_t i = 0; i < nu; ++i) { uni.push_back(r); r = ref::apply(r, gen_change(bells)); if (choose(3) == 0) r = ref::apply(r, gen_change(bells)); } std::sort(uni.begin(), uni.end()); uni.erase(std::unique(uni.begin(), uni.end()), uni.end()); }
  vector<Node> ns;
  auto make = [&] { Node n; int k = choose(8); n.max = k < 4 ? 1 : k < 6 ? 2 : k == 6 ? 3 : -1; bool rep = choose(3) != 0; op("new max=%d report=%d", n.max, rep);
    if (rep) { n.fi = std::make_shared<prover::failinfo>(); n.p.reset(new prover(*n.fi, n.max)); } else if (n.max == 1 && choose(2)) n.p.reset(new prover); else n.p.reset(new prover(n.max));
    ns.push_back(n); };
  make(); if (choose(3) == 0) make();
  size_t steps = 5 + choose(60); uint64_t h = 0; bool fails = false, undo = false;
  for (size_t s = 0; s < steps; ++s) {
    vector<int> live; for (size_t i = 0; i < ns.size(); ++i) if (!ns[i].dead && !ns[i].kids) live.push_back(i);
    if (live.empty()) { make(); continue; }
    int id = pick(live); Node* n = &ns[id]; int w = choose(20);
    if (w < 11) {
      Row r = pick(uni); long c = std::count(n->rows.begin(), n->rows.end(), r) + 1; bool armed = choose(12) == 0; long k = armed ? 1 + choose(6) : 0;
      op("add %s to %d%s", str(r).c_str(), id, armed ? sim::fmt(" (allocation %ld fails)", k).c_str() : "");
      ringing::row rr = to(r); bool res = false, thrown = false;
      if (armed) { long f0 = alloc::fired; try { alloc::Armed a(k); res = n->p->add_row(rr); } catch (std::bad_alloc&) { thrown = true; }
        if (alloc::fired > f0) { fault(F_ALLOC_FAIL, "add_row"); SIM_CHECK(thrown, "nomem.swallowed", "adding a row ran out of memory and did not say so"); probe("alloc failure in add_row"); } }
      else res = n->p->add_row(rr);
      if (thrown) {   // the row is in or not, and every count agrees with that
        size_t sz = n->p->size(); SIM_CHECK(sz == n->rows.size() || sz == n->rows.size() + 1, "nomem.size", "prover %d has %zu rows after adding a row failed for lack of memory, had %zu", id, sz, n->rows.size());
        if (sz > n->rows.size()) { n->rows.push_back(r); n->own++; n->fi_stale = true; probe("row kept when its report failed"); } }
      else { n->rows.push_back(r); n->own++; bool t = truth(*n); SIM_CHECK(res == t, "prover.add", "adding %s for the %ldth time (limit %d) returned %s, should be %s", str(r).c_str(), c, n->max, res ? "true" : "false", t ? "true" : "false"); if (!t) { fails = true; probe("false touch"); } }
    } else if (w < 15 && n->own) {
      Row r = n->rows.back(); op("undo %s on %d", str(r).c_str(), id); bool was = truth(*n); n->p->remove_row(to(r)); n->rows.pop_back(); n->own--; undo = true; if (!was && truth(*n)) probe("undo made it true again");
      if (n->off) {}
    } else if (w == 15) {   // undoing what is not there is refused and changes nothing
      Row r = pick(uni); vector<Row> mine(n->rows.end() - n->own, n->rows.end()); if (std::count(mine.begin(), mine.end(), r)) continue;
      op("undo missing %s on %d", str(r).c_str(), id); bool thrown = false; try { n->p->remove_row(to(r)); } catch (std::logic_error&) { thrown = true; } SIM_CHECK(thrown, "prover.undo_missing", "removing row %s that prover %d never added was accepted", str(r).c_str(), id);
    } else if (w < 18 && ns.size() < 6) {
      if (choose(4) == 0) { vector<int> c; for (size_t i = 0; i < ns.size(); ++i) if (!ns[i].dead && !ns[i].fi) c.push_back(i); if (!c.empty()) { id = pick(c); n = &ns[id]; if (n->kids) probe("second branch of one prover"); } }
      op("branch %d", id); Node b; b.p = prover::create_branch(n->p); b.rows = n->rows; b.parent = id; b.max = n->max; b.off = n->off; b.off_truth = n->off_truth; b.fi = n->fi; b.fi_stale = n->fi_stale; ns[id].kids++; ns.push_back(b); n = &ns.back(); id = ns.size() - 1; probe("branch"); if (!truth(b)) probe("branch of a false touch");
    } else if (w == 18 && n->parent >= 0) {
      op("drop branch %d", id); if (n->fi && !truth(*n)) ns[n->parent].fi_stale = true; if (n->fi_stale) ns[n->parent].fi_stale = true; n->p = shared_pointer<prover>(); n->dead = true; ns[n->parent].kids--; id = n->parent; n = &ns[id];
    } else if (w == 19 && n->parent >= 0 && !n->own && choose(2)) { op("disable proving on %d", id); n->off_truth = truth(*n); n->off = true; n->p->disable_proving(); }
    check(ns[id], id, uni); h = mix(h, ns[id].rows.size() * 8 + ns[id].kids); state(mix(hash(string()), dups(ns[id].rows) * 100 + ns[id].rows.size()));
  }
  for (size_t i = 0; i < ns.size(); ++i) if (!ns[i].dead) check(ns[i], i, uni);
  if (fails || undo) nontrivial();
}

// A whole proof, and its printed report; and touches, which expand to their tree of blocks.
SCENARIO(proof_report, "P07", 1) {
  int bells = 3 + choose(4); size_t n = choose(30); vector<Row> v; Row r = rounds(bells); for (size_t i = 0; i < n; ++i) { r = ref::apply(r, gen_change(bells)); if (!v.empty() && choose(4) == 0) r = pick(v); v.push_back(r); }
  int max = 1 + choose(3); size_t cut = n ? choose(n + 1) : 0; bool qp = choose(4) == 0; int form = choose(3);
  vector<ringing::row> rr; for (auto& x : v) rr.push_back(to(x)); typedef vector<ringing::row>::const_iterator It; It b = rr.begin(), e = rr.end();
  op("proof rows=%zu max=%d quick=%d form=%d split=%zu", n, max, qp, form, cut);
  proof<It> p; if (form == 0) { if (max == 1) p = proof<It>(b, e, qp); else p = proof<It>(b, e, max, qp); } else if (form == 1) { if (max == 1) p = proof<It>(b, b + cut, b + cut, e, qp); else p = proof<It>(b, b + cut, b + cut, e, max, qp); } else { bool t = max == 1 ? p.prove(b, e, qp) : p.prove(b, b + cut, b + cut, e, max, qp); SIM_CHECK(t == bool(p), "proof.result", "prove() and its verdict differ"); }
  Lines want; for (auto& k : lines(v)) if ((int)k.second.size() > max) want.insert(k);
  SIM_CHECK(bool(p) == want.empty() && !p == !want.empty(), "proof.truth", "proof of %zu rows says %s, should say %s", n, bool(p) ? "true" : "false", want.empty() ? "true" : "false");
  if (!qp) {
    check_fi(p.failed(), v, max, "proof");
    std::ostringstream os; os << p; std::istringstream is(os.str()); string l; std::getline(is, l); SIM_CHECK(l == (want.empty() ? "True" : "False"), "proof.print", "report starts %s", quote(l).c_str());
    Lines got; while (std::getline(is, l)) { std::istringstream ls(l); string a, row, c, d, f, g; ls >> a >> row >> c >> d >> f >> g; int x; SIM_CHECK(a == "Row" && c == "is" && d == "repeated" && f == "on" && g == "lines", "proof.print", "report line %s", quote(l).c_str()); vector<int> ln; while (ls >> x) ln.push_back(x); Row q; { Quiet qq; q = of(ringing::row(row)); } got[q] = ln; }
    SIM_CHECK(got == want, "proof.print", "printed report %s is not the failing rows and lines", quote(os.str()).c_str());
  }
  if (!want.empty()) nontrivial();
}

SCENARIO(touch_blocks, "P07", 1) {
  using ringing::touch; using ringing::touch_changes; using ringing::touch_child_list; using ringing::touch_node;
  int bells = 3 + choose(4); touch* t = new touch; size_t n = 1 + choose(6); vector<vector<Change>> flat; vector<touch_node*> nodes;
  struct Shape { bool leaf; vector<std::pair<int, int>> kids; vector<Change> c; }; vector<Shape> sh;
  std::function<vector<Change>(int)> expand = [&](int i) { if (sh[i].leaf) return sh[i].c; vector<Change> r; for (auto& k : sh[i].kids) { auto x = expand(k.second); for (int j = 0; j < k.first; ++j) r.insert(r.end(), x.begin(), x.end()); } return r; };
  for (size_t i = 0; i < n; ++i) {
    Shape s; s.leaf = i == 0 || choose(2); touch_node* node;
    if (s.leaf) { size_t k = 1 + choose(4); for (size_t j = 0; j < k; ++j) s.c.push_back(gen_change(bells)); vector<ringing::change> cv; for (auto& c : s.c) cv.push_back(to(c));
      int how = choose(3); if (how == 0) node = new touch_changes(cv); else if (how == 1) node = new touch_changes(cv.begin(), cv.end()); else { auto* tc = new touch_changes; for (auto& c : cv) tc->push_back(c); node = tc; } }
    else { auto* cl = new touch_child_list; size_t k = 1 + choose(4); for (size_t j = 0; j < k; ++j) { int times = 1 + choose(3), kid = choose(i); s.kids.push_back({times, kid}); cl->push_back(times, nodes[kid]); } if (choose(4) == 0) { cl->push_back(1 + choose(2), nodes[0]); cl->pop_back(); } node = cl; }
    sh.push_back(s); nodes.push_back(node); long live0 = alloc::live; (void)live0;
    if (choose(10) == 0) {   // running out of memory while handing the node over loses the node, not the touch
      bool thrown = false; long f0 = alloc::fired; try { alloc::Armed a(1 + choose(2)); t->push_back(node); } catch (std::bad_alloc&) { thrown = true; }
      if (alloc::fired > f0) { fault(F_ALLOC_FAIL, "touch::push_back"); SIM_CHECK(thrown, "nomem.swallowed", "push_back ran out of memory silently"); sh.pop_back(); nodes.pop_back(); if (i == 0) { delete t; return; } probe("node lost to allocation failure"); n = i; break; }
    } else t->push_back(node);
  }
  op("touch nodes=%zu", nodes.size()); int head = choose(nodes.size()); t->set_head(nodes[head]);
  auto check = [&](touch const& x, int hd, const char* w) { vector<Change> want = expand(hd); size_t i = 0; for (touch::const_iterator it = x.begin(), e = x.end(); it != e; ++it, ++i) { SIM_CHECK(i < want.size(), "touch.long", "%s: more than %zu changes", w, want.size()); Quiet q; Change g = of(*it); SIM_CHECK(g == want[i], "touch.change", "%s: change %zu is %s, should be %s", w, i, g.pn().c_str(), want[i].pn().c_str()); } SIM_CHECK(i == want.size(), "touch.short", "%s: %zu changes, should be %zu", w, i, want.size()); };
  check(*t, head, "touch"); touch copy(*t); int head2 = choose(nodes.size()); t->set_head(nodes[head2]);
  // two walks at once, and a copied iterator goes on by itself
  { vector<Change> want = expand(head), want2 = expand(head2); touch::const_iterator a = copy.begin(), b = t->begin(), ae = copy.end(), be = t->end(), saved; size_t i = 0, j = 0, si = 0; bool have = false;
    while (a != ae || b != be) { if (b == be || (a != ae && choose(2))) { Quiet q; SIM_CHECK(i < want.size() && of(*a) == want[i], "touch.change", "interleaved walk: change %zu differs", i); if (choose(4) == 0) { saved = a; si = i; have = true; } if (choose(2)) ++a; else { touch::const_iterator old = a++; SIM_CHECK(of(*old) == want[i], "touch.postinc", "a++ gave the wrong change"); } ++i; } else { Quiet q; SIM_CHECK(j < want2.size() && of(*b) == want2[j] , "touch.change", "interleaved walk: change %zu differs", j); ++b; ++j; } }
    SIM_CHECK(i == want.size() && j == want2.size(), "touch.short", "interleaved walks gave %zu and %zu changes, should be %zu and %zu", i, j, want.size(), want2.size());
    if (have) for (; saved != ae; ++saved, ++si) { Quiet q; SIM_CHECK(si < want.size() && of(*saved) == want[si], "touch.saved", "saved iterator: change %zu differs", si); } }
  delete t; check(copy, head, "copy after the original is gone"); nontrivial();
}
