// ringmethod: rows made into sound. What is heard is checked against bells listened to one at a time.
#include "libmodel.h"
#include "simapp.h"
#include <cmath>
#include <cstring>
using namespace ref; using namespace sim;
int app_main(int, char**);
static int entry(int c, char** v) { return app_main(c, v); }
static void ran(AppRun& r) { run_app(r, entry); SIM_CHECK(r.threw.empty() || r.alloc_fired, "escape", "%s escaped from %s", r.threw.c_str(), show_args(r).c_str()); SIM_CHECK(!r.aborted || r.alloc_fired, "abort", "%s aborted", show_args(r).c_str()); }
static void val(AppRun& r, const char* s, const char* l, string const& v) { if (*s && chance(1, 3)) r.args.push_back(fmt("-%s%s", s, v.c_str())); else if (*s && chance(1, 2) && v[0] != '-') { r.args.push_back(fmt("-%s", s)); r.args.push_back(v); } else r.args.push_back(fmt("--%s=%s", l, v.c_str())); }
namespace {
typedef vector<int> Sound;
struct Tower { int n, rate, freq; vector<Sound> bell; };
struct Strike { long t; int bell; };
struct Off { double h = 0, b = 0, dh = -1, db = -1; };
unsigned u32(string const& s, size_t i) { return (unsigned char)s[i] | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2] << 16 | (unsigned)(unsigned char)s[i + 3] << 24; }
Sound samples(string const& s) { Sound v; for (size_t i = 44; i + 1 < s.size(); i += 2) v.push_back((short)((unsigned char)s[i] | (unsigned char)s[i + 1] << 8)); return v; }
void header(AppRun& r, int rate) {
  string const& s = r.out; if (s.size() < 44 && r.out_failed) return;
  SIM_CHECK(s.size() >= 44 && s.compare(0, 4, "RIFF") == 0 && s.compare(8, 8, "WAVEfmt ") == 0 && s.compare(36, 4, "data") == 0, "wav.header", "%s: no header of a wave file", show_args(r).c_str());
  SIM_CHECK(u32(s, 16) == 16 && u32(s, 20) == 0x10001 && u32(s, 32) == 0x100002, "wav.format", "%s: not one channel of 16 bits", show_args(r).c_str());
  SIM_CHECK(u32(s, 24) == (unsigned)rate && u32(s, 28) == 2u * rate, "wav.rate", "%s: header says %u samples and %u bytes a second, should be %d and %d", show_args(r).c_str(), u32(s, 24), u32(s, 28), rate, 2 * rate);
  for (int i : { 4, 40 }) SIM_CHECK(u32(s, i) == 0xFFFFFFFFu || u32(s, i) == s.size() - i - 4, "wav.length", "%s: header gives a wrong length", show_args(r).c_str());
}
double sep(int n, int speed) { return speed * 60 / 2500.0 / (n * 2 + 1); }
bool odd_time(double x) { double f = x - std::floor(x); return x > 0 && (f < 1e-6 || f > 1 - 1e-6); }
// each bell struck once in a long silence
Tower listen(int n, int rate, int freq, double secs) {
  Tower w{n, rate, freq, {}}; int speed = (int)std::ceil(secs * 2500 * (2 * n + 1) / 60); for (bool odd = true; odd; ++speed) { if (speed > 100000) discard(); odd = false; for (int b = 1; b <= n; ++b) odd |= odd_time(b * sep(n, speed) * rate); if (!odd) break; }
  AppRun r; r.args = { "ringmethod", fmt("-b%d", n), fmt("-s%d", speed), fmt("-r%d", rate), fmt("-f%d", freq) }; r.in.data = str(rounds(n)) + "\n" + str(rounds(n)) + "\n"; ran(r);
  SIM_CHECK(r.code == 0, "ring.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str()); header(r, rate); Sound s = samples(r.out); double step = sep(n, speed) * rate;
  for (int b = 0; b < n; ++b) { size_t at = (size_t)(b * step), to = (size_t)((b + 1) * step); SIM_CHECK(to < s.size(), "ring.short", "%s: ended before bell %d", show_args(r).c_str(), b + 1); Sound x(s.begin() + at, s.begin() + to);
    if (b) for (size_t i = at > 20 ? at - 20 : 0; i < at; ++i) SIM_CHECK(std::abs(s[i]) <= 2, "ring.noise", "%s: sound before bell %d strikes", show_args(r).c_str(), b + 1);
    int loud = 0; for (size_t i = 0; i < std::min<size_t>(x.size(), rate); ++i) loud = std::max(loud, std::abs(x[i])); SIM_CHECK(loud > 300, "ring.silent", "%s: bell %d is not heard", show_args(r).c_str(), b + 1); w.bell.push_back(x); }
  return w;
}
string time_text(int m) { switch (choose(5)) { case 0: return fmt("%d", m); case 1: return fmt("%dm", m); case 2: return m % 60 == 0 ? fmt("%dh", m / 60) : fmt("%dh%d", m / 60, m % 60); case 3: return fmt("%d:%02d", m / 60, m % 60); default: return fmt("%dh%dm", m / 60, m % 60); } }
string rows_text(vector<Row> const& rows, int n) { string s; for (auto& x : rows) { string t = str(x); if (chance(1, 8)) while (t.size() > 1 && t.back() == bell_char((int)t.size() - 1)) t.pop_back(); if (chance(1, 12)) s += chance(1, 2) ? " " : "\n"; s += t; s += chance(1, 8) ? " " : chance(1, 10) ? "\r\n" : "\n"; } if (!s.empty() && chance(1, 4)) s.pop_back(); return s; }
vector<Row> gen_rows(int n, int k) { vector<Row> v; Row x = rounds(n); for (int i = 0; i < k; ++i) { if (n > 1) x = chance(3, 4) ? ref::apply(x, gen_change(n)) : x; v.push_back(x); } return v; }
string num(double d) { return fmt("%g", d); }
void faults(AppRun& r, string const& data, size_t est) { r.in.data = data; r.in.mode = choose(4); unsigned f = choose(8); if (f == 1) r.in.fail_at = choose(data.size() + 1); if (f == 2) r.out_fail_at = choose(est + 1); if (f == 3) r.out_fail_sync = 1; if (f == 4) r.alloc_fail = 1 + choose(chance(1, 2) ? 60 : 400); }
bool outcome(AppRun& r) {
  if (!r.threw.empty() || r.aborted) return false;
  if (r.code == 0) { SIM_CHECK(!r.out_failed, "ring.output", "%s: exit status 0 though the output could not be written", show_args(r).c_str()); SIM_CHECK(!r.in_failed, "ring.input", "%s: exit status 0 though the input could not be read", show_args(r).c_str()); return true; }
  SIM_CHECK(r.in_failed || r.out_failed || r.alloc_fired, "ring.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str()); if (!r.alloc_fired) SIM_CHECK(!r.err.empty(), "ring.mute", "%s: exit status %d and not a word", show_args(r).c_str(), r.code); probe("ring.failed"); return false;
}
// Only the sound of the latest strike of each bell is left.
double heard(Tower const& w, vector<long> const& last, long t) { double x = 0; for (int b = 0; b < w.n; ++b) if (last[b] >= 0 && t - last[b] < (long)w.bell[b].size()) x += w.bell[b][t - last[b]]; return x; }
int bound(double x) { return x > 32767 ? 32767 : x < -32768 ? -32768 : (int)x; }
void judge(AppRun& r, Tower const& w, vector<Strike> st, bool whole) {
  std::stable_sort(st.begin(), st.end(), [](Strike const& a, Strike const& b) { return a.t < b.t; }); Sound s = samples(r.out); long end = st.empty() ? 0 : st.back().t;
  if (whole) { SIM_CHECK(r.out.size() % 2 == 0, "ring.half", "%s: half a sample", show_args(r).c_str()); SIM_CHECK(st.empty() || (long)s.size() >= end + w.rate, "ring.cut", "%s: the sound ends %ld samples after the last bell at %ld", show_args(r).c_str(), (long)s.size() - end, end); SIM_CHECK((long)s.size() <= end + 20L * w.rate, "ring.endless", "%s: the sound goes on for %ld samples after the last bell at %ld", show_args(r).c_str(), (long)s.size() - end, end); }
  vector<long> last(w.n, -1); size_t k = 0; double tol = w.n + 2; for (long t = 0; t < (long)s.size(); ++t) { while (k < st.size() && st[k].t == t) { last[st[k].bell] = t; ++k; } if (k == st.size() && t > end + 4L * w.rate) break; double e = heard(w, last, t); int lo = bound(e - tol), hi = bound(e + tol);
    if (s[t] < lo || s[t] > hi) { string near; for (auto& x : st) if (std::labs(x.t - t) < 200 && near.size() < 80) near += fmt(" %c@%ld", bell_char(x.bell), x.t); violation("ring.wrong", "%s: sample %ld is %d, should be %d; bells near it:%s", show_args(r).c_str(), t, s[t], bound(e), near.c_str()); } }
}
int pick_odd(int lo, int hi) { int x; do x = range(lo, hi); while (x % 5 == 0); return x; }
}
SCENARIO(ring_times, "P20", 5) {
  int n = chance(1, 6) ? range(1, 3) : range(4, chance(1, 8) ? 14 : 8), rate = pick_odd(90, 700), freq = 10 + choose(300), speed = pick_odd(60, 400); bool dflt = chance(1, 4); if (dflt) speed = 180; double d = sep(n, speed) * rate; if (d < 2.2) discard();
  double lead = 1; static const double leads[] = { 0, 0.5, 1.5, 2, 3, 0.25 }; bool has_lead = chance(1, 3); if (has_lead) lead = leads[choose(6)]; vector<Off> off(n); AppRun r; r.args = { "ringmethod", chance(1, 2) ? fmt("-b%d", n) : fmt("--bells=%d", n) };
  val(r, "r", "sample-rate", fmt("%d", rate)); val(r, "f", "frequency", fmt("%d", freq)); if (!dflt) val(r, "s", "peal-speed", time_text(speed)); if (has_lead) val(r, "h", "handstroke-lead", num(lead)); if (chance(1, 4)) val(r, "", "seed", fmt("%d", choose(100))); if (chance(1, 8)) val(r, "d", "deviation", "0");
  bool far = false; if (n >= 4 && chance(1, 2)) { int k = 1 + choose(3); for (int i = 0; i < k; ++i) { int b = choose(n); auto v = [&] { double x = ((int)choose(301) - 150) / 100.0; return x; }; Off& o = off[b]; string name = chance(1, 2) ? string(1, bell_char(b)) : fmt("%d", b + 1), x; if (b == 9 && name.size() == 1 && name != "0") name = "10"; auto one = [&](double& p) { string s; if (chance(7, 8)) { p = v(); s = num(p); } if (s.empty() || chance(1, 4)) s += ",0"; return s; }; if (name == "1" || name.size() == 1 || b >= 9 || true) ; x = one(o.h); if (chance(1, 3)) x += ";" + one(o.b); else o.b = o.h; val(r, "o", "offset", name + "=" + x); } }
  if (n >= 4 && chance(1, 10)) { int b = choose(n); off[b].h = off[b].b = -(double)range(5, 40); r.args.push_back(fmt("-o%d=%g", b + 1, off[b].h)); if (b + 1 < 10 || n < 10) far = true; else far = true; }   // as early as can be
  // a bell numbered with one digit is named by its symbol
  vector<Row> rows = gen_rows(n, choose(chance(1, 6) ? 40 : 12)); Tower w = listen(n, rate, freq, 25); vector<Strike> st; for (size_t k = 0; k < rows.size(); ++k) for (int i = 0; i < n; ++i) { int b = rows[k][i]; double p = i + k * n + (double)(k / 2) * lead + (k % 2 ? off[b].b : off[b].h), x = p * sep(n, speed) * rate; if (odd_time(x)) discard(); st.push_back({ x < 0 ? 0 : (long)x, b }); }
  string data = rows_text(rows, n); if (st.size() > (size_t)n) nontrivial(); state(mix(hash(fmt("%d %d %g %d %d", n, speed / 40, lead, has_lead, far)), rows.size())); long est = 44; for (auto& x : st) est = std::max(est, 2 * x.t); op("rows %s", quote(data).c_str());
  faults(r, data, est); ran(r); advance((unsigned long long)(r.out.size() / 2 * 1000 / rate)); bool ok = outcome(r); if (!ok && !r.out_failed) return; header(r, rate); if (far) { if (ok) { Sound s = samples(r.out); long end = 0; for (auto& x : st) end = std::max(end, x.t); SIM_CHECK((long)s.size() <= end + 20L * rate + (long)(30 * n * d), "ring.endless", "%s: %zu samples", show_args(r).c_str(), s.size()); probe("bells called far too early"); } return; }
  judge(r, w, st, ok); if (ok) probe("rows rung");
}
SCENARIO(ring_deviation, "P20", 2) {
  int n = range(4, 6), rate = pick_odd(300, 600), freq = 20 + choose(60), speed = pick_odd(240, 400); double d = sep(n, speed) * rate; double dh = 0.01 * range(2, 6), db = chance(1, 2) ? dh : 0.01 * range(2, 6), mh = 0, mb = 0; int seed = choose(10000); AppRun r; r.args = { "ringmethod", fmt("-b%d", n), fmt("-r%d", rate), fmt("-f%d", freq), fmt("-s%d", speed), fmt("--seed=%d", seed) };
  int how = choose(3); if (how == 0) { db = dh; val(r, "d", "deviation", num(dh)); } else for (int b = 0; b < n; ++b) { if (how == 2) { if (b == 0) { mh = 0.05 * choose(4); mb = -0.05 * (int)choose(4); } } string a = (mh ? num(mh) : "") + "," + num(dh), c = (mb ? num(mb) : "") + "," + num(db); val(r, "o", "offset", string(1, bell_char(b)) + "=" + (dh == db && mh == mb && chance(1, 2) ? a : a + ";" + c)); }
  vector<Row> rows = gen_rows(n, 2 * range(14, 20)); Tower w = listen(n, rate, freq, 25); string data = rows_text(rows, n); r.in.data = data; r.in.mode = choose(4); ran(r); SIM_CHECK(r.code == 0, "ring.refused", "%s: exit status %d (%s)", show_args(r).c_str(), r.code, quote(r.err).c_str()); header(r, rate); nontrivial(); state(hash(fmt("dev %d %d %g %g %d", n, how, dh, db, (int)rows.size()))); advance((unsigned long long)(r.out.size() / 2 * 1000 / rate));
  Sound s = samples(r.out); vector<long> last(n, -1); double tol = n + 2; vector<double> dev[2];
  for (size_t k = 0; k < rows.size(); ++k) for (int i = 0; i < n; ++i) {
    int b = rows[k][i]; double sd = k % 2 ? db : dh, p = i + k * n + k / 2 + (k % 2 ? mb : mh); long lo = (long)((p - 7 * sd) * d) - 1, hi = (long)((p + 7 * sd) * d) + 1; if (lo < 0) lo = 0; long best = -1; double err = 1e9; SIM_CHECK(hi + 2 < (long)s.size(), "ring.cut", "%s: no sound where bell %d of row %zu strikes", show_args(r).c_str(), b + 1, k + 1);
    for (long t = lo; t <= hi; ++t) { double e = 0; vector<long> l2 = last; for (long q = lo; q <= hi + 2; ++q) { if (q == t) l2[b] = t; e = std::max(e, std::fabs(s[q] - heard(w, l2, q))); if (e > err) break; } if (e < err) { err = e; best = t; } }
    SIM_CHECK(err <= tol, "ring.stray", "%s: bell %c of row %zu is not heard once within 7 deviations of its time (sample %ld to %ld)", show_args(r).c_str(), bell_char(b), k + 1, lo, hi); last[b] = best; if (best > 0) dev[k % 2].push_back((best + 0.5) / d - p); }
  for (int h = 0; h < 2; ++h) { double sd = h ? db : dh, m = 0, v = 0; size_t N = dev[h].size(); for (double x : dev[h]) m += x; m /= N; for (double x : dev[h]) v += (x - m) * (x - m); v = std::sqrt(v / N); if (N < 50 || sd * d < 2) continue; SIM_CHECK(v > 0.5 * sd && v < 1.8 * sd, "ring.spread", "%s: deviation of %g at %s, should be %g", show_args(r).c_str(), v, h ? "backstroke" : "handstroke", sd); SIM_CHECK(std::fabs(m) < 8 * sd / std::sqrt((double)N) + 1 / d, "ring.mean", "%s: bells are %g late at %s", show_args(r).c_str(), m, h ? "backstroke" : "handstroke"); }
  AppRun q; q.args = r.args; q.in.data = data; q.in.mode = choose(4); ran(q); SIM_CHECK(q.out == r.out, "ring.seed", "%s: the same seed gives another sound", show_args(r).c_str()); probe("rows with random striking");
}
SCENARIO(ring_pitch, "P20", 1) {
  int n = range(1, 16), freq = range(60, 160), rate = 8 * freq * (n > 8 ? 4 : 2); Tower w = listen(n, rate, freq, 14); static const int scale[] = { 0, 2, 4, 5, 7, 9, 11 }; nontrivial(); state(hash(fmt("pitch %d", n)));
  auto note = [&](int up) { return freq * std::pow(2.0, (scale[up % 7] + 12 * (up / 7)) / 12.0); };
  for (int b = 0; b < n; ++b) { vector<double> e; size_t L = std::min<size_t>(w.bell[b].size(), (size_t)(1.2 * rate)); for (int u = 0; u < n + 7; ++u) { double re = 0, im = 0, f = 2 * M_PI * note(u) / rate; for (size_t i = 0; i < L; ++i) { double h = 0.5 - 0.5 * std::cos(2 * M_PI * i / L); re += h * w.bell[b][i] * std::cos(f * i); im += h * w.bell[b][i] * std::sin(f * i); } e.push_back(re * re + im * im); }
    int top = -1; double mx = *std::max_element(e.begin(), e.end()); for (size_t u = 0; u < e.size(); ++u) if (e[u] > 0.1 * mx) top = u; SIM_CHECK(top == n - 1 - b, "ring.pitch", "%d bells, tenor %d Hz: bell %d has its nominal %d notes above the tenor", n, freq, b + 1, top); }
  probe("bells in tune");
}
SCENARIO(ring_bad, "P20", 1) {
  struct Bad { vector<string> a; string in; }; static const vector<Bad> bad = { { {}, "1234\n" }, { {"-b0"}, "" }, { {"-b-2"}, "12\n" }, { {"-b99"}, "" }, { {"-b6", "-r0"}, "123456\n" }, { {"-b6", "-r-1"}, "123456\n" }, { {"-b6", "-r5"}, "123456\n" }, { {"-b6", "-s0"}, "123456\n" }, { {"-b6", "-sx"}, "123456\n" }, { {"-b6", "-f-3"}, "123456\n" }, { {"-b6", "-d-1"}, "123456\n" }, { {"-b6", "-dq"}, "123456\n" }, { {"-b6", "-o1"}, "123456\n" }, { {"-b6", "-o?=1"}, "123456\n" }, { {"-b6", "-o1=x"}, "123456\n" }, { {"-b6", "-o1=,x"}, "123456\n" }, { {"-b6", "-o1=,-1"}, "123456\n" }, { {"-b6", "-hz"}, "123456\n" }, { {"-b6", "--nosuch"}, "123456\n" }, { {"-b6", "-r400"}, "123456\n1234567\n" }, { {"-b6", "-r400"}, "123456\n12a?\n" }, { {"-b6", "-r400"}, "123456\n112345\n123456\n" }, { {"-b6", "-r400"}, "1?\n" } };
  Bad const& x = bad[choose(bad.size())]; AppRun r; r.args = { "ringmethod" }; for (auto& a : x.a) r.args.push_back(a); r.in.data = x.in; r.in.mode = choose(4); nontrivial(); ran(r); SIM_CHECK(r.code == 1 && !r.err.empty(), "ring.bad", "%s < %s: exit status %d", show_args(r).c_str(), quote(x.in).c_str(), r.code);
}
