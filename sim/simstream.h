// Simulated stream peers for code that takes an istream or an ostream.
#ifndef VERIF_SIMSTREAM_H
#define VERIF_SIMSTREAM_H
#include "sim.h"
#include <streambuf>
#include <istream>
#include <ostream>
#include <string>
#include <stdexcept>
#include <cstring>
namespace sim {
// Delivers bytes in pieces whose sizes the run decides; can end early or fail.
class SourceBuf : public std::streambuf {
public:
  struct Plan { std::string data; int mode = 0; long fail_at = -1; bool fail_throws = true; };
  explicit SourceBuf(Plan const& p) : p(p) {}
  size_t consumed() const { return off - (egptr() - gptr()); }
protected:
  int_type underflow() override {
    Quiet q;
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (p.fail_at >= 0 && (long)off >= p.fail_at) { fault(F_SOURCE_FAIL, "@%zu", off); if (p.fail_throws) throw std::runtime_error("simulated read failure"); return traits_type::eof(); }
    size_t lim = p.fail_at >= 0 && (size_t)p.fail_at < p.data.size() ? p.fail_at : p.data.size();
    if (off >= lim) { event("eof", "@%zu", off); return traits_type::eof(); }
    size_t k = lim - off; size_t full = k;
    if (p.mode == 1) k = 1 + choose(k > 64 && chance(1, 2) ? 64 : k); else if (p.mode == 2) k = 1; else if (p.mode == 3) k = 1 + choose(k > 8 ? 8 : k); else if (k > sizeof buf) k = sizeof buf;
    if (k > sizeof buf) k = sizeof buf;
    if (k < full) R->faults[F_SHORT_READ]++;
    memcpy(buf, p.data.data() + off, k); off += k; event("chunk", "%zu", k);
    setg(buf, buf, buf + k); return traits_type::to_int_type(*gptr());
  }
private:
  Plan p; size_t off = 0; char buf[4096];
};
// Accepts bytes in pieces; can refuse from some offset on.
class SinkBuf : public std::streambuf {
public:
  std::string data; long fail_at = -1; bool throws = false; int mode = 0; bool failed = false; int fail_sync = 0; int syncs = 0;   // fail_sync: the nth sync fails
  size_t buffered = 0; size_t bufsize = 0;
protected:
  bool room() { if (fail_at >= 0 && (long)data.size() >= fail_at) { Quiet q; if (!failed) { fault(F_SINK_FAIL, "@%zu", data.size()); } failed = true; if (throws) throw std::runtime_error("simulated write failure"); return false; } return true; }
  int_type overflow(int_type c) override { if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c); if (!room()) return traits_type::eof(); Quiet q; data += (char)c; return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    std::streamsize k = n; if (mode == 1 && n > 1) { Quiet q; k = n; }
    if (fail_at >= 0 && (long)data.size() + k > fail_at) { k = fail_at > (long)data.size() ? fail_at - data.size() : 0; }
    { Quiet q; data.append(s, k); }
    if (k < n) { room(); return k; }
    return n;
  }
  int sync() override { ++syncs; if (fail_sync && syncs >= fail_sync) { Quiet q; if (!failed) fault(F_SINK_FAIL, "sync %d", syncs); failed = true; return -1; } return 0; }
};
}
#endif
