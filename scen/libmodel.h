// Bridges between the reference model and the real library types.
#ifndef VERIF_LIBMODEL_H
#define VERIF_LIBMODEL_H
#include "common.h"
#include <ringing/method.h>
#include <ringing/change.h>
#include <ringing/row.h>
namespace ref {
inline Change of(ringing::change const& c) { Change r; r.n = c.bells(); for (int i = 0; i + 1 < r.n; ++i) if (c.findswap(i)) r.sw.push_back(i); return r; }
inline Method of(ringing::method const& m) { Method r; for (size_t i = 0; i < m.size(); ++i) r.push_back(of(m[i])); return r; }
inline Row of(ringing::row const& w) { Row r; for (int i = 0; i < w.bells(); ++i) r.push_back(int(w[i])); return r; }
inline ringing::change to(Change const& c) { ringing::change r(c.n); for (int i : c.sw) r.swappair(i); return r; }
inline ringing::row to(Row const& w) { std::vector<ringing::bell> b; for (int x : w) b.push_back(ringing::bell(x)); return ringing::row(b); }
inline ringing::method to(Method const& m, int n, string const& name) { std::vector<ringing::change> v; for (auto& c : m) v.push_back(to(c)); ringing::method r(v, name); return r; }
inline string text(Method const& m) { string s; for (auto& c : m) { if (!s.empty()) s += '.'; s += c.pn(); } return s; }
}
#endif
