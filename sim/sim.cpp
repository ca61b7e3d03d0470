#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <time.h>
#include <sys/personality.h>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

namespace sim {

const char* const fault_names[F_NKINDS] = {
  "short_read", "read_eintr", "read_eio", "truncated_input", "open_fail",
  "short_write", "write_eintr", "write_eio", "enospc", "close_fail",
  "alloc_fail", "clock_jump", "child_killed_by_signal", "child_exit_nonzero", "spawn_fail",
  "pipe_fail", "wait_eintr", "slow_peer", "cancel", "sink_fail", "source_fail",
  "foreign_child_exit", "state_pollution", "file_appears_late", "biased_generator", "crash", "torn_write"
};

Result* R = nullptr;
bool thorough = false, active = false;
uint64_t clock_us = 1000000000ull * 1000000ull;
int quiet_depth = 0;

static uint64_t rng_s[2];
static bool replaying = false;
static const uint32_t* replay_tape = nullptr; static uint32_t replay_len = 0;
static uint32_t max_steps = 4000000;

static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t rng_next() { // xoroshiro128+
  uint64_t s0 = rng_s[0], s1 = rng_s[1], r = s0 + s1; s1 ^= s0;
  rng_s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16); rng_s[1] = (s1 << 37) | (s1 >> 27); return r;
}

uint64_t hash(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

uint32_t choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v, pos = R->tape_len;
  if (replaying) { v = pos < replay_len ? replay_tape[pos] : 0; if (v >= n) v %= n; }
  else v = (uint32_t)((__uint128_t)(rng_next() >> 32) * n >> 32);
  if (pos < TAPE_MAX) R->tape[pos] = v; else { R->tape_overflow = true; v = 0; }
  R->tape_len = pos + 1;
  return v;
}
uint64_t choose64() { uint64_t a = choose(0xffffffffu), b = choose(0xffffffffu); return a << 32 | b; }

static void rec(const char* kind, const char* text, bool shape) {
  if (++R->steps > max_steps) violation("liveness.steps", "run did not finish within %u simulated steps (last: %s)", max_steps, R->last_op);
  uint64_t h = R->log_hash; h = hash(kind, strlen(kind), h); h = hash(text, strlen(text) + 1, h); R->log_hash = h;
  if (shape) R->shape_hash = hash(kind, strlen(kind) + 1, R->shape_hash);
  size_t need = strlen(kind) + strlen(text) + 3;
  if (R->log_len + need < LOG_MAX) {
    int k = snprintf(R->log + R->log_len, LOG_MAX - R->log_len, "%s %s\n", kind, text); if (k > 0) R->log_len += k;
  } else R->log_truncated = true;
}
static char ebuf[16384];
#define VFMT() va_list ap; va_start(ap, f); vsnprintf(ebuf, sizeof ebuf, f, ap); va_end(ap); \
  for (char* c_ = ebuf; *c_; ++c_) if (*c_ == '\n') *c_ = '|';
void event(const char* kind, const char* f, ...) { Quiet q; VFMT(); rec(kind, ebuf, true); }
void op(const char* f, ...) { Quiet q; VFMT(); snprintf(R->last_op, sizeof R->last_op, "%s", ebuf);
  // the shape records only the leading word, so that it measures interleavings and not data
  char k[64]; size_t n = strcspn(ebuf, " ("); if (n > 60) n = 60; memcpy(k, ebuf, n); k[n] = 0;
  R->shape_hash = hash(k, n + 1, R->shape_hash);
  rec("OP", ebuf, false); }
void fault(fault_kind k, const char* f, ...) { Quiet q; VFMT(); R->faults[k]++; char b[64]; snprintf(b, sizeof b, "FAULT:%s", fault_names[k]); std::string t(ebuf); rec(b, t.c_str(), true); }
void state(uint64_t h) { if (R->nstates < STATES_MAX) R->states[R->nstates++] = h; }
void probe(const char* raw, uint64_t n) {
  char name[sizeof R->probes[0].name]; snprintf(name, sizeof name, "%s", raw); for (char* c = name; *c; ++c) if (*c == ' ') *c = '_';
  for (uint32_t i = 0; i < R->nprobes; ++i) if (!strcmp(R->probes[i].name, name)) { R->probes[i].count += n; return; }
  if (R->nprobes < PROBES_MAX) { Probe& p = R->probes[R->nprobes++]; memcpy(p.name, name, sizeof name); p.count = n; }
}
void nontrivial() { R->nontrivial = 1; }
void advance(uint64_t us) { clock_us += us; R->sim_us += us; }

void violation(const char* sig, const char* f, ...) {
  quiet_depth++; alloc::countdown = -1;
  va_list ap; va_start(ap, f); vsnprintf(R->msg, sizeof R->msg, f, ap); va_end(ap);
  for (char* c = R->msg; *c; ++c) if (*c == '\n') *c = '|';
  snprintf(R->sig, sizeof R->sig, "%s", sig);
  R->log_hash = hash(R->msg, strlen(R->msg), R->log_hash);
  R->status = ST_VIOLATION; _exit(0);
}
void harness_error(const char* f, ...) { quiet_depth++; va_list ap; va_start(ap, f); vsnprintf(R->msg, sizeof R->msg, f, ap); va_end(ap); snprintf(R->sig, sizeof R->sig, "harness"); R->status = ST_HARNESS_ERROR; _exit(0); }
void finish_ok() { R->status = ST_OK; _exit(0); }
void discard() { R->status = ST_DISCARD; _exit(0); }

std::string quote(std::string const& s, size_t max) {
  std::string r = "\""; size_t i = 0;
  for (; i < s.size() && i < max; ++i) { unsigned char c = s[i];
    if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; }
  r += '"'; if (i < s.size()) r += fmt("...(%zu bytes)", s.size()); return r;
}
std::string fmt(const char* f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ------------------------------------------------------------------ scenarios
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
Register::Register(const char* n, const char* p, void (*fn)(), int w, bool t) { scenarios().push_back({n, p, fn, w, t}); }

// --------------------------------------------------------------- running one
#ifdef __SANITIZE_ADDRESS__
static const int CPU_LIMIT_S = 60;
#else
static const int CPU_LIMIT_S = 20;
#endif
static char crash_file[256];

static pid_t raw_fork() { return fork(); }

static void child_setup(uint64_t seed) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = { (rlim_t)CPU_LIMIT_S, (rlim_t)CPU_LIMIT_S + 1 }; setrlimit(RLIMIT_CPU, &rl);
  struct rlimit fs = { 64u << 20, 64u << 20 }; setrlimit(RLIMIT_FSIZE, &fs);
#ifndef SIM_ASAN
  struct rlimit as = { 4ull << 30, 4ull << 30 }; setrlimit(RLIMIT_AS, &as);
#endif
  struct rlimit core = { 0, 0 }; setrlimit(RLIMIT_CORE, &core);
  int fd = syscall(SYS_open, crash_file, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2(fd, 2); if (fd != 2) syscall(SYS_close, fd); }
  int nul = syscall(SYS_open, "/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); if (nul > 2) syscall(SYS_close, nul);
  uint64_t x = seed; rng_s[0] = splitmix(x); rng_s[1] = splitmix(x);
  mallopt(M_PERTURB, 0xA5);
}

// Parent-visible reset between runs.
static void reset_result() {
  Result* r = R; size_t keep = offsetof(Result, log);
  memset(r, 0, keep); r->log[0] = 0; r->log_hash = 1469598103934665603ull; r->shape_hash = r->log_hash;
}

static std::string read_crash_head() {
  std::string s; FILE* f = fopen(crash_file, "r"); if (!f) return s; char b[4096]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; s = b; fclose(f);
  return s;
}

static void run_one(Scenario const& sc, uint64_t seed, const uint32_t* tape, uint32_t tlen) {
  reset_result();
  fflush(stdout);
  pid_t p = raw_fork();
  if (p < 0) { R->status = ST_HARNESS_ERROR; snprintf(R->msg, sizeof R->msg, "fork: %s", strerror(errno)); return; }
  if (p == 0) {
    replaying = tape != nullptr; replay_tape = tape; replay_len = tlen;
    child_setup(seed ^ hash(sc.name, strlen(sc.name)));
    active = true;
    try { sc.fn(); }
    catch (std::exception const& e) { int st; char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); violation("exception.escaped", "exception %s escaped: %s (in: %s)", n ? n : "?", e.what(), R->last_op); }
    catch (...) { violation("exception.escaped", "unknown exception escaped (in: %s)", R->last_op); }
    finish_ok();
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (R->tape_len > TAPE_MAX) R->tape_len = TAPE_MAX;
  if (R->status == ST_RUNNING) {
    // died without reporting
    std::string head = read_crash_head();
    char first[32]; size_t n = strcspn(R->last_op, " ("); if (n > 30) n = 30; memcpy(first, R->last_op, n); first[n] = 0;
    if (WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      if (sg == SIGXCPU || sg == SIGKILL) { snprintf(R->sig, sizeof R->sig, "hang.%s", first); snprintf(R->msg, sizeof R->msg, "did not terminate within %d s of CPU during: %s", CPU_LIMIT_S, R->last_op); }
      else { snprintf(R->sig, sizeof R->sig, "crash.%s", first); snprintf(R->msg, sizeof R->msg, "killed by signal %d during: %s", sg, R->last_op); }
      // first informative stderr line (sanitizer or assertion)
      std::string l; size_t a = 0; while (a < head.size()) { size_t e = head.find('\n', a); if (e == std::string::npos) e = head.size(); std::string ln = head.substr(a, e - a); if (ln.find("ERROR") != std::string::npos || ln.find("Assert") != std::string::npos || ln.find("assert") != std::string::npos || ln.find("runtime error") != std::string::npos || ln.find("terminate") != std::string::npos) { l = ln; break; } a = e + 1; }
      if (!l.empty()) { // strip addresses/pids to keep the message repeatable
        std::string o; for (size_t i = 0; i < l.size();) { if (l.compare(i, 2, "0x") == 0) { i += 2; while (i < l.size() && isxdigit((unsigned char)l[i])) ++i; o += "0x?"; } else if (l.compare(i, 2, "==") == 0) { i += 2; while (i < l.size() && isdigit((unsigned char)l[i])) ++i; } else o += l[i++]; }
        size_t m = strlen(R->msg); snprintf(R->msg + m, sizeof R->msg - m, " [%s]", o.c_str()); }
      R->status = ST_VIOLATION;
    } else {
      int ec = WEXITSTATUS(st);
      snprintf(R->sig, sizeof R->sig, "exit.%s", first); snprintf(R->msg, sizeof R->msg, "process exited with status %d without finishing during: %s", ec, R->last_op);
      R->status = ST_VIOLATION;
    }
    R->log_hash = hash(R->msg, strlen(R->msg), R->log_hash);
  }
}

struct Saved { int status; std::string sig, msg, log; std::vector<uint32_t> tape; uint64_t lh; };
static Saved save() { Saved s; s.status = R->status; s.sig = R->sig; s.msg = R->msg; s.log.assign(R->log, R->log_len); s.tape.assign(R->tape, R->tape + R->tape_len); s.lh = R->log_hash; return s; }

static double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ----------------------------------------------------------------- minimiser
static Saved minimise(Scenario const& sc, Saved best, double budget_s, unsigned& tries) {
  double t0 = now_s(); tries = 0;
  auto attempt = [&](std::vector<uint32_t> const& t) -> bool {
    if (now_s() - t0 > budget_s) return false;
    ++tries;
    run_one(sc, 0, t.empty() ? (const uint32_t*)"\0\0\0\0" : t.data(), t.size());
    if (R->status == ST_VIOLATION && best.sig == R->sig) {
      Saved s = save(); // the recorded tape is the effective one
      while (!s.tape.empty() && s.tape.back() == 0) s.tape.pop_back();
      bool better = s.tape.size() < best.tape.size();
      if (s.tape.size() == best.tape.size()) better = std::lexicographical_compare(s.tape.begin(), s.tape.end(), best.tape.begin(), best.tape.end());
      if (better) { best = s; return true; }
    }
    return false;
  };
  while (!best.tape.empty() && best.tape.back() == 0) best.tape.pop_back();
  bool progress = true;
  while (progress && now_s() - t0 < budget_s) {
    progress = false;
    // truncate
    for (size_t cut = best.tape.size() / 2; cut >= 1; cut /= 2) {
      while (best.tape.size() > cut) { std::vector<uint32_t> t(best.tape.begin(), best.tape.end() - cut); if (!attempt(t)) break; progress = true; }
      if (now_s() - t0 > budget_s) break; }
    // delete blocks
    for (size_t blk : { 256, 64, 32, 16, 8, 4, 3, 2, 1 }) {
      if (blk > best.tape.size()) continue;
      for (size_t i = 0; i + blk <= best.tape.size() && now_s() - t0 < budget_s;) {
        std::vector<uint32_t> t(best.tape); t.erase(t.begin() + i, t.begin() + i + blk);
        if (attempt(t)) progress = true; else i += blk > 4 ? blk / 2 : 1; } }
    // zero blocks and lower values
    for (size_t blk : { 16, 4, 1 })
      for (size_t i = 0; i < best.tape.size() && now_s() - t0 < budget_s; i += blk) {
        std::vector<uint32_t> t(best.tape); bool nz = false; for (size_t j = i; j < i + blk && j < t.size(); ++j) { nz |= t[j] != 0; t[j] = 0; }
        if (nz && attempt(t)) progress = true; }
    for (size_t i = 0; i < best.tape.size() && now_s() - t0 < budget_s; ++i) {
      uint32_t lo = 0, hi = best.tape[i]; unsigned guard = 0;
      while (hi - lo > 1 && guard++ < 12) { uint32_t mid = lo + (hi - lo) / 2; std::vector<uint32_t> t(best.tape); if (i >= t.size()) break; t[i] = mid; if (attempt(t)) { progress = true; hi = mid; } else lo = mid; }
      if (i < best.tape.size() && best.tape[i]) { std::vector<uint32_t> t(best.tape); t[i]--; if (attempt(t)) progress = true; } }
  }
  return best;
}

static std::string json_str(std::string const& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r + "\""; }

static void write_replay(const char* path, Scenario const& sc, uint64_t seed, Saved const& s, unsigned tries, size_t orig_len) {
  FILE* f = fopen(path, "w"); if (!f) return;
  fprintf(f, "# deterministic-simulation replay file\n# run:  bin/<harness> --replay <this file>\n");
  fprintf(f, "scenario %s\nproperty %s\nseed %llu\nsignature %s\nloghash %016llx\nmessage %s\n", sc.name, sc.property, (unsigned long long)seed, s.sig.c_str(), (unsigned long long)s.lh, s.msg.c_str());
  fprintf(f, "# minimised from %zu to %zu decisions in %u attempts\ntape %zu\n", orig_len, s.tape.size(), tries, s.tape.size());
  for (size_t i = 0; i < s.tape.size(); ++i) fprintf(f, "%u%c", s.tape[i], (i % 32 == 31 || i + 1 == s.tape.size()) ? '\n' : ' ');
  fprintf(f, "# --- minimised schedule and fault trace ---\n");
  std::string l = s.log; size_t a = 0; while (a < l.size()) { size_t e = l.find('\n', a); if (e == std::string::npos) e = l.size(); fprintf(f, "# %s\n", l.substr(a, e - a).c_str()); a = e + 1; }
  fprintf(f, "# VIOLATION %s: %s\n", s.sig.c_str(), s.msg.c_str());
  fclose(f);
}

static int do_replay(const char* path) {
  FILE* f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", path); return 2; }
  char line[16384]; std::string scen, sig; unsigned long long lh = 0; std::vector<uint32_t> tape;
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue; char a[256]; size_t n;
    if (sscanf(line, "scenario %255s", a) == 1) scen = a;
    else if (sscanf(line, "signature %255s", a) == 1) sig = a;
    else if (sscanf(line, "loghash %llx", &lh) == 1) ;
    else if (sscanf(line, "tape %zu", &n) == 1) { for (size_t i = 0; i < n; ++i) { unsigned v; if (fscanf(f, "%u", &v) != 1) { fprintf(stderr, "short tape\n"); return 2; } tape.push_back(v); } }
  }
  fclose(f);
  for (auto& sc : scenarios()) if (scen == sc.name) {
    run_one(sc, 0, tape.empty() ? (const uint32_t*)"\0\0\0\0" : tape.data(), tape.size());
    fwrite(R->log, 1, R->log_len, stdout);
    printf("STATUS %d SIG %s HASH %016llx EXPECT %s %016llx\n%s\n", R->status, R->sig, (unsigned long long)R->log_hash, sig.c_str(), lh, R->msg);
    if (R->status == ST_VIOLATION && sig == R->sig && R->log_hash == lh) { printf("REPLAY exact\n"); return 1; }
    if (R->status == ST_OK) { printf("REPLAY clean (no violation on this tree)\n"); return 0; }
    printf("REPLAY differs\n"); return 3;
  }
  fprintf(stderr, "unknown scenario %s\n", scen.c_str()); return 2;
}

// -------------------------------------------------------------------- search
struct Agg {
  uint64_t runs = 0, discards = 0, nontriv = 0, steps = 0, sim_us = 0, det_checks = 0; uint64_t faults[F_NKINDS] = {0};
  std::set<uint64_t> shapes, states, nt_shapes; std::map<std::string, uint64_t> probes; std::map<std::string, uint64_t> per_scen; std::vector<uint64_t> samples;
};

static void worker(std::vector<Scenario> const& list, uint64_t seed0, int w, int nw, double secs, double maxsecs, uint64_t minruns, uint64_t maxruns, const char* dir, std::vector<std::string> const& known, int maxviol) {
  double t0 = now_s(); Agg a; int nviol = 0; std::set<std::string> seen;
  snprintf(crash_file, sizeof crash_file, "%s/crash.%d", dir, w);
  std::vector<const Scenario*> wheel; for (auto& s : list) if (!s.thorough_only || thorough) for (int i = 0; i < s.weight; ++i) wheel.push_back(&s);
  std::string errs; std::string out; uint64_t n = 0;
  for (uint64_t i = w;; i += nw, ++n) {
    double el = now_s() - t0;
    if (maxruns && n >= maxruns) break;
    if ((el > secs && n >= minruns) || el > maxsecs) break;
    uint64_t x = seed0 * 0x9e3779b97f4a7c15ull + i; uint64_t seed = splitmix(x);
    Scenario const& sc = *wheel[i % wheel.size()];
    run_one(sc, seed, nullptr, 0);
    if (R->status == ST_HARNESS_ERROR || R->tape_overflow) { out += fmt("HARNESS_ERROR %s seed %llu: %s%s\n", sc.name, (unsigned long long)seed, R->msg, R->tape_overflow ? " (tape overflow)" : ""); break; }
    a.runs++; a.per_scen[sc.name]++;
    if (R->status == ST_DISCARD) { a.discards++; continue; }
    a.steps += R->steps; a.sim_us += R->sim_us;
    for (int k = 0; k < F_NKINDS; ++k) a.faults[k] += R->faults[k];
    a.shapes.insert(R->shape_hash); for (uint32_t k = 0; k < R->nstates; ++k) a.states.insert(R->states[k]);
    if (R->nontrivial) { a.nontriv++; a.nt_shapes.insert(R->shape_hash); }
    for (uint32_t k = 0; k < R->nprobes; ++k) a.probes[R->probes[k].name] += R->probes[k].count;
    if (R->status == ST_VIOLATION) {
      std::string key = std::string(sc.name) + "/" + R->sig;
      Saved s = save(); bool isknown = false;
      // known entries are "scenario/signature<TAB>substring of message"
      for (auto& kf : known) { size_t tb = kf.find('\t'); std::string k = kf.substr(0, tb), sub = tb == std::string::npos ? "" : kf.substr(tb + 1); if (k == key && s.msg.find(sub) != std::string::npos) { isknown = true; if (seen.insert("K" + kf).second) out += "KNOWN " + kf + "\n"; } }
      if (isknown) continue;
      if (!seen.insert(key).second) continue;
      // gate: same seed must repeat exactly
      size_t olen = s.tape.size();
      run_one(sc, seed, nullptr, 0);
      if (R->log_hash != s.lh || s.sig != R->sig) { out += fmt("HARNESS_ERROR nondeterministic violation %s %s seed %llu\n", sc.name, s.sig.c_str(), (unsigned long long)seed); out += "  first:  " + s.msg + "\n  second: " + R->msg + "\n"; break; }
      unsigned tries; Saved m = minimise(sc, s, s.sig.compare(0, 5, "hang.") == 0 ? 40 : 25, tries);
      // a minimised trace that turned into a known finding must not hide the new one
      bool mk = false; for (auto& kf : known) { size_t tb = kf.find('\t'); std::string sub = tb == std::string::npos ? "" : kf.substr(tb + 1); if (kf.substr(0, tb) == key && m.msg.find(sub) != std::string::npos) mk = true; }
      if (mk) m = s;
      run_one(sc, 0, m.tape.empty() ? (const uint32_t*)"\0\0\0\0" : m.tape.data(), m.tape.size()); Saved r1 = save();
      run_one(sc, 0, m.tape.empty() ? (const uint32_t*)"\0\0\0\0" : m.tape.data(), m.tape.size());
      if (R->status != ST_VIOLATION || r1.sig != R->sig || r1.lh != R->log_hash || r1.sig != s.sig) { out += fmt("HARNESS_ERROR minimised trace of %s %s does not repeat\n", sc.name, s.sig.c_str()); break; }
      std::string sg = s.sig; for (auto& c : sg) if (!isalnum((unsigned char)c) && c != '.' && c != '_') c = '_';
      std::string rp = fmt("%s/%s.%s.w%d.replay", dir, sc.name, sg.c_str(), w);
      write_replay(rp.c_str(), sc, seed, r1, tries, olen);
      out += "VIOLATION " + rp + "\t" + sc.property + "\t" + key + "\t" + r1.msg + "\n";
      // a hang costs its whole CPU limit every time: one per worker is enough
      if (++nviol >= maxviol || s.sig.compare(0, 5, "hang.") == 0) break;
      continue;
    }
    if (n % 97 == 13) { // determinism self-check
      uint64_t lh = R->log_hash; int st = R->status; run_one(sc, seed, nullptr, 0); a.det_checks++;
      if (R->log_hash != lh || R->status != st) { out += fmt("HARNESS_ERROR run not deterministic: %s seed %llu\n", sc.name, (unsigned long long)seed); break; }
    }
    if (a.samples.size() < 4) { a.samples.push_back(seed); out += fmt("SAMPLE %s seed=%llu steps=%u log=", sc.name, (unsigned long long)seed, R->steps) + json_str(std::string(R->log, std::min<uint32_t>(R->log_len, 1500))) + "\n"; }
  }
  double el = now_s() - t0;
  std::string path = fmt("%s/w%d.out", dir, w); FILE* f = fopen(path.c_str(), "w");
  fputs(out.c_str(), f);
  fprintf(f, "RUNS %llu\nDISCARDS %llu\nNONTRIVIAL %llu\nSTEPS %llu\nSIMUS %llu\nDET %llu\nWALL %.3f\n", (unsigned long long)a.runs, (unsigned long long)a.discards, (unsigned long long)a.nontriv, (unsigned long long)a.steps, (unsigned long long)a.sim_us, (unsigned long long)a.det_checks, el);
  for (int k = 0; k < F_NKINDS; ++k) if (a.faults[k]) fprintf(f, "FAULT %s %llu\n", fault_names[k], (unsigned long long)a.faults[k]);
  for (auto& p : a.probes) fprintf(f, "PROBE %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
  for (auto& p : a.per_scen) fprintf(f, "SCEN %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
  fclose(f);
  auto dump = [&](const char* nm, std::set<uint64_t> const& s) { std::string p = fmt("%s/w%d.%s", dir, w, nm); FILE* g = fopen(p.c_str(), "wb"); std::vector<uint64_t> v(s.begin(), s.end()); if (!v.empty()) fwrite(v.data(), 8, v.size(), g); fclose(g); };
  dump("shapes", a.shapes); dump("states", a.states); dump("ntshapes", a.nt_shapes);
}

static void merge_count(const char* dir, int nw, const char* nm) {
  std::set<uint64_t> s; for (int w = 0; w < nw; ++w) { FILE* f = fopen(fmt("%s/w%d.%s", dir, w, nm).c_str(), "rb"); if (!f) continue; uint64_t b[1024]; size_t n; while ((n = fread(b, 8, 1024, f)) > 0) s.insert(b, b + n); fclose(f); }
  printf("DISTINCT %s %zu\n", nm, s.size());
}

static Result* map_result() { void* p = mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Result*)p; }

int driver_main(int argc, char** argv) {
  std::string prop, dir = "/tmp/simrun", replay, scen; uint64_t seed = 1, minruns = 0, maxruns = 0; double secs = 10, maxsecs = 0; int jobs = 8, maxviol = 3; std::vector<std::string> known; bool list = false; uint64_t one = 0; bool have_one = false;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = next(); else if (a == "--scenario") scen = next(); else if (a == "--seed") seed = strtoull(next().c_str(), 0, 10); else if (a == "--secs") secs = atof(next().c_str()); else if (a == "--max-secs") maxsecs = atof(next().c_str());
    else if (a == "--min-runs") minruns = strtoull(next().c_str(), 0, 10); else if (a == "--max-runs") maxruns = strtoull(next().c_str(), 0, 10); else if (a == "--jobs") jobs = atoi(next().c_str()); else if (a == "--dir") dir = next(); else if (a == "--replay") replay = next();
    else if (a == "--known") { FILE* f = fopen(next().c_str(), "r"); if (f) { char l[4096]; while (fgets(l, sizeof l, f)) { size_t n = strcspn(l, "\n"); l[n] = 0; if (n) known.push_back(l); } fclose(f); } }
    else if (a == "--thorough") thorough = true; else if (a == "--max-violations") maxviol = atoi(next().c_str()); else if (a == "--list") list = true; else if (a == "--one") { one = strtoull(next().c_str(), 0, 10); have_one = true; } else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; } }
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }   // same addresses in every process: pointer order cannot vary
  // a fixed environment: nothing a run sees may depend on the caller's
  { const char* keep = getenv("SIM_REEXEC"); (void)keep; clearenv(); setenv("SIM_REEXEC", "1", 1); setenv("PATH", "/usr/bin:/bin", 1); setenv("TERM", "dumb", 1); }
  signal(SIGPIPE, SIG_IGN);
  if (list) { for (auto& s : scenarios()) printf("%s %s %d\n", s.property, s.name, s.weight); return 0; }
  mkdir(dir.c_str(), 0700);
  R = map_result(); snprintf(crash_file, sizeof crash_file, "%s/crash.r", dir.c_str());
  if (!replay.empty()) return do_replay(replay.c_str());
  std::vector<Scenario> sel; for (auto& s : scenarios()) if ((prop.empty() || prop == s.property) && (scen.empty() || scen == s.name)) sel.push_back(s);
  if (sel.empty()) { fprintf(stderr, "no scenario for property %s\n", prop.c_str()); return 2; }
  if (have_one) { run_one(sel[0], one, nullptr, 0); fwrite(R->log, 1, R->log_len, stdout); printf("STATUS %d SIG %s HASH %016llx\n%s\n", R->status, R->sig, (unsigned long long)R->log_hash, R->msg); return R->status == ST_VIOLATION; }
  if (maxsecs < secs) maxsecs = secs * 3;
  std::vector<pid_t> ps; double t0 = now_s();
  for (int w = 0; w < jobs; ++w) { fflush(stdout); pid_t p = raw_fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); R = map_result(); worker(sel, seed, w, jobs, secs, maxsecs, (minruns + jobs - 1) / jobs, (maxruns + jobs - 1) / jobs, dir.c_str(), known, maxviol); _exit(0); } ps.push_back(p); }
  bool bad = false; for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
  std::map<std::string, uint64_t> sum; 
  for (int w = 0; w < jobs; ++w) { FILE* f = fopen(fmt("%s/w%d.out", dir.c_str(), w).c_str(), "r"); if (!f) { bad = true; continue; } static char l[65536]; while (fgets(l, sizeof l, f)) {
      char k[64], n[64]; unsigned long long v; 
      if (!strncmp(l, "VIOLATION", 9) || !strncmp(l, "KNOWN", 5) || !strncmp(l, "HARNESS", 7) || !strncmp(l, "SAMPLE", 6) || l[0] == ' ') { fputs(l, stdout); }
      else if (sscanf(l, "%63s %63s %llu", k, n, &v) == 3) sum[std::string(k) + " " + n] += v;
      else if (sscanf(l, "%63s %llu", k, &v) == 2 && strcmp(k, "WALL")) sum[k] += v; } fclose(f); }
  for (auto& s : sum) printf("%s %llu\n", s.first.c_str(), (unsigned long long)s.second);
  merge_count(dir.c_str(), jobs, "shapes"); merge_count(dir.c_str(), jobs, "states"); merge_count(dir.c_str(), jobs, "ntshapes");
  printf("ELAPSED %.2f\nDONE %s\n", now_s() - t0, bad ? "bad" : "ok");
  return bad ? 2 : 0;
}

// ------------------------------------------------------------ allocation seam
namespace alloc {
  long countdown = -1, live = 0, live_bytes = 0, total = 0, fired = 0; int consecutive = 0; size_t biggest = 0;
  void arm(long n, int k) { countdown = n; consecutive = k; }
  void disarm() { countdown = -1; }
}
}

#include <new>
static void* sim_new(size_t n, bool nothrow) {
  using namespace sim;
  if (active && !quiet_depth) {
    alloc::total++;
    if (alloc::countdown >= 0) {
      if (alloc::countdown == 0) {
        if (--alloc::consecutive <= 0) alloc::countdown = -1;
        alloc::fired++; { Quiet q; fault(F_ALLOC_FAIL, "#%ld size=%zu", alloc::total, n); }
        if (nothrow) return nullptr;
        throw std::bad_alloc();
      } else --alloc::countdown;
    }
  }
  if (alloc::biggest && n > alloc::biggest && !quiet_depth) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void* p = malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (active && !quiet_depth) {}
  alloc::live++; alloc::live_bytes += malloc_usable_size(p);
  return p;
}
void* operator new(size_t n) { return sim_new(n, false); }
void* operator new[](size_t n) { return sim_new(n, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { try { return sim_new(n, true); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { try { return sim_new(n, true); } catch (...) { return nullptr; } }
static void sim_del(void* p) { if (!p) return; sim::alloc::live--; sim::alloc::live_bytes -= malloc_usable_size(p); free(p); }
void operator delete(void* p) noexcept { sim_del(p); }
void operator delete[](void* p) noexcept { sim_del(p); }
void operator delete(void* p, size_t) noexcept { sim_del(p); }
void operator delete[](void* p, size_t) noexcept { sim_del(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim_del(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim_del(p); }

#ifndef SIM_NO_MAIN
int main(int argc, char** argv) { return sim::driver_main(argc, argv); }
#endif
