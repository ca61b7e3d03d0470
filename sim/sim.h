// Deterministic simulation core.
//
// One run = one "choice tape".  Every decision a run makes -- workload, file
// contents, scheduling between clients, read/write sizes, which fault fires
// where, the clock -- is drawn from the tape with choose().  In search mode the
// tape is produced by a PRNG from one 64-bit seed; in replay mode it is read
// from a replay file (values past its end are 0, the benign choice).  Each run
// executes in its own forked process started from the same pristine image.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <cstdarg>

namespace sim {

// ---------------------------------------------------------------- fault kinds
enum fault_kind {
  F_SHORT_READ, F_READ_EINTR, F_READ_EIO, F_TRUNCATED, F_OPEN_FAIL,
  F_SHORT_WRITE, F_WRITE_EINTR, F_WRITE_EIO, F_ENOSPC, F_CLOSE_FAIL,
  F_ALLOC_FAIL, F_CLOCK_JUMP, F_CHILD_SIGNAL, F_CHILD_EXIT, F_SPAWN_FAIL,
  F_PIPE_FAIL, F_WAIT_EINTR, F_SLOW_PEER, F_CANCEL, F_SINK_FAIL, F_SOURCE_FAIL,
  F_FOREIGN_CHILD, F_STATE_POLLUTION, F_LATE_FILE, F_BAD_RNG, F_CRASH, F_TORN,
  F_NKINDS
};
extern const char* const fault_names[F_NKINDS];

// ------------------------------------------------------------------- results
enum { TAPE_MAX = 1 << 20, LOG_MAX = 1 << 20, STATES_MAX = 1024, PROBES_MAX = 64 };
enum status_t { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_HARNESS_ERROR = 3, ST_DISCARD = 4 };

struct Probe { char name[48]; uint64_t count; };

struct Result {
  volatile int status;
  uint64_t log_hash;       // hash of the complete event log (bit for bit identity)
  uint64_t shape_hash;     // hash of the event kinds only (distinct interleavings)
  uint64_t sim_us;         // simulated time covered
  uint32_t steps;          // events
  uint32_t faults[F_NKINDS];
  uint32_t nstates; uint64_t states[STATES_MAX];
  uint32_t nprobes; Probe probes[PROBES_MAX];
  char sig[200]; char msg[8192];
  char last_op[200];
  uint32_t log_len; uint32_t tape_len; bool log_truncated; bool tape_overflow;
  uint32_t nontrivial;
  char log[LOG_MAX];
  uint32_t tape[TAPE_MAX];
};
extern Result* R;

// ------------------------------------------------------------------- decisions
uint32_t choose(uint32_t n);                      // 0 .. n-1 (0 = simplest)
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
inline bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
uint64_t choose64();
template <class V> auto pick(V const& v) -> decltype(v[0]) { return v[choose(v.size())]; }

// ---------------------------------------------------------------- event record
void event(const char* kind, const char* fmt = "", ...) __attribute__((format(printf, 2, 3)));
void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));      // workload step; names crashes
void fault(fault_kind k, const char* fmt = "", ...) __attribute__((format(printf, 2, 3)));
void state(uint64_t h);                           // abstract state reached
void probe(const char* name, uint64_t n = 1);     // rare situation reached
void nontrivial();                                // the run really exercised the property
void advance(uint64_t us);                        // simulated time passes

[[noreturn]] void violation(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();
[[noreturn]] void discard();                      // run was vacuous
#define SIM_CHECK(cond, sig, ...) do { if (!(cond)) ::sim::violation(sig, __VA_ARGS__); } while (0)

uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash(std::string const& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t h, uint64_t v) { return hash(&v, sizeof v, h); }
std::string quote(std::string const& s, size_t max = 200);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------------ scenarios
struct Scenario { const char* name; const char* property; void (*fn)(); int weight; bool thorough_only; };
struct Register { Register(const char* name, const char* property, void (*fn)(), int weight = 1, bool thorough_only = false); };
#define SCENARIO(name, prop, weight) \
  static void scen_##name(); \
  static ::sim::Register reg_##name(#name, prop, scen_##name, weight); \
  static void scen_##name()

extern bool thorough;          // tier
extern bool active;            // inside a simulated run
extern uint64_t clock_us;      // simulated clock (microseconds since epoch)

// Quiet section: simulator or oracle code; no fault is injected while inside.
extern int quiet_depth;
struct Quiet { Quiet() { ++quiet_depth; } ~Quiet() { --quiet_depth; } };

int driver_main(int argc, char** argv);

// ------------------------------------------------------------ allocation seam
namespace alloc {
  extern long countdown;       // <0: off; otherwise the number of allocations until one fails
  extern int consecutive;      // how many in a row fail once triggered
  extern long live;            // live operator-new blocks
  extern long live_bytes;
  extern long total;           // allocations requested (outside quiet sections)
  extern long fired;
  extern size_t biggest;       // a single request for more than this fails (0: no limit)
  void arm(long n, int k = 1);
  void disarm();
  struct Armed { Armed(long n, int k = 1) { arm(n, k); } ~Armed() { disarm(); } };
}

}
#endif
