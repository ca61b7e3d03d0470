// Simulated storage.  Paths under /sim/ live in an in-memory disk; every libc
// entry point that libstdc++, libxml2, zlib or the code under test uses to reach
// them (open/fopen/read/write/lseek/stat/close/...) is interposed, so the number
// of bytes each call moves, and whether it fails, is a decision of the run.
#ifndef VERIF_SIMIO_H
#define VERIF_SIMIO_H
#include "sim.h"
#include <memory>
namespace sim { namespace io {

struct File { std::string data; bool unreadable = false, unwritable = false, is_dir = false; std::string durable; };

struct Policy {
  // reads
  int read_mode = 0;             // 0 whole buffer, 1 random sizes, 2 one byte at a time, 3 small random
  unsigned eintr_pct = 0;        // chance of EINTR before a transfer
  long eio_after = -1;           // reads at or past this offset fail with EIO
  bool eio_once = false;         // ... only the first time
  // writes
  int write_mode = 0;            // 0 whole, 1 short
  long disk_free = -1;           // bytes that can still be allocated; then ENOSPC
  long weio_after = -1;          // writes at or past this offset fail with EIO
  int close_errno = 0;           // close() of a written file reports this
  // opens
  int fail_open = 0;             // countdown: the nth open fails (1 = next)
  int open_errno = 2;
};
extern Policy policy;            // applies to every file without its own
extern std::map<std::string, Policy> file_policy;

void put(std::string const& path, std::string const& data);
bool exists(std::string const& path);
std::string get(std::string const& path);
File* file(std::string const& path);
void remove(std::string const& path);
void clear_faults();
void reset();
extern uint64_t opens, reads, writes, read_calls_failed, write_calls_failed; extern int open_handles;
bool any_write_failed();

// Names given to write-open under /sim (created files), in order.
extern std::vector<std::string> created;
}}
#endif
