#include "simapp.h"
#include <csetjmp>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <dlfcn.h>
#include <cstdio>
#include <cerrno>
#include <ext/stdio_sync_filebuf.h>
namespace sim {
// A program that runs out of memory where it cannot say so is ended by the runtime: that too ends the simulated process.
static void on_terminate(); static bool aborted;
static jmp_buf back; static bool in_app = false; static int exit_code;
std::string show_args(AppRun const& r) { std::string s; for (auto& a : r.args) { if (!s.empty()) s += ' '; s += quote(a, 400); } return s; }
// Standard input keeps its real layers: cin's own kind of buffer over a stdio stream, whose reads the run decides.
struct Stdin { SourceBuf::Plan p; size_t off = 0; bool failed = false; };
static ssize_t stdin_read(void* v, char* b, size_t n) {
  Quiet q; Stdin& s = *(Stdin*)v; size_t lim = s.p.fail_at >= 0 && (size_t)s.p.fail_at < s.p.data.size() ? s.p.fail_at : s.p.data.size();
  if (s.off >= lim) { if (s.p.fail_at >= 0 && s.off >= (size_t)s.p.fail_at) { s.failed = true; fault(F_SOURCE_FAIL, "stdin @%zu", s.off); errno = EIO; return -1; } event("eof", "stdin @%zu", s.off); return 0; }
  size_t k = std::min(n, lim - s.off), full = k; if (s.p.mode == 1) k = 1 + choose(k); else if (s.p.mode == 2) k = 1; else if (s.p.mode == 3) k = 1 + choose(k > 8 ? 8 : k);
  if (k < full) R->faults[F_SHORT_READ]++;
  memcpy(b, s.p.data.data() + s.off, k); s.off += k; event("chunk", "stdin %zu", k); return k;
}
void run_app(AppRun& r, std::function<int(int, char**)> const& entry) {
  Stdin in; FILE* f; FILE* of; __gnu_cxx::stdio_sync_filebuf<char>* ib; SinkBuf *out, *err; std::vector<char*> av; std::streambuf *oi, *oo, *oe; long f0;
  { Quiet q; in.p = r.in; cookie_io_functions_t io = { stdin_read, nullptr, nullptr, nullptr }; f = fopencookie(&in, "r", io); of = stdin; stdin = f; ib = new __gnu_cxx::stdio_sync_filebuf<char>(f); out = new SinkBuf; err = new SinkBuf; out->fail_at = r.out_fail_at; out->throws = r.out_throws; out->fail_sync = r.out_fail_sync;
    for (auto& a : r.args) av.push_back(strdup(a.c_str())); av.push_back(nullptr);
    oi = std::cin.rdbuf(ib); oo = std::cout.rdbuf(out); oe = std::cerr.rdbuf(err); std::cin.clear(); std::cout.clear(); std::cerr.clear(); f0 = alloc::fired;
    event("exec", "%s", show_args(r).c_str()); }
  aborted = false; std::set_terminate(on_terminate);
  in_app = true; int qd = quiet_depth;
  if (setjmp(back) == 0) {
    try { if (r.alloc_fail) alloc::arm(r.alloc_fail, r.alloc_k); r.code = entry((int)av.size() - 1, av.data()); alloc::disarm(); }
    catch (std::exception& e) { alloc::disarm(); Quiet q; r.threw = e.what(); if (r.threw.empty()) r.threw = "?"; }
    catch (...) { alloc::disarm(); Quiet q; r.threw = "something"; }
  } else { r.exited = true; r.code = exit_code; r.aborted = aborted; alloc::disarm(); }
  in_app = false; quiet_depth = qd;
  // what a process does as it ends
  try { std::cout.flush(); } catch (...) {}
  Quiet q; r.out = out->data; r.err = err->data; r.out_failed = out->failed; r.consumed = in.off; r.in_failed = in.failed; stdin = of; fclose(f); r.alloc_fired = alloc::fired > f0;
  std::cin.rdbuf(oi); std::cout.rdbuf(oo); std::cerr.rdbuf(oe); std::cin.clear(); std::cout.clear(); std::cerr.clear();
  event("exit", "%d %zu %zu", r.code, r.out.size(), r.err.size());
}
}
namespace sim { static void on_terminate() { if (in_app && alloc::fired) { in_app = false; aborted = true; exit_code = 134; longjmp(back, 1); } abort(); } }
extern "C" __attribute__((visibility("default"), noreturn)) void exit(int c) {
  if (sim::in_app) { sim::in_app = false; sim::exit_code = c; longjmp(sim::back, 1); }
  static void (*real)(int); if (!real) real = (void (*)(int))dlsym(RTLD_NEXT, "exit"); real(c); __builtin_unreachable();
}
