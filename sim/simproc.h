// Simulated child processes.  The program's own pipe/vfork/dup2/execvp/_exit/wait calls are interposed: the child's half of
// vfork() runs as it would (on the parent's stack), and at execvp() the command is looked up in the scenario's table instead
// of being run; what it writes reaches the parent through a simulated pipe whose every read the run decides.
#ifndef VERIF_SIMPROC_H
#define VERIF_SIMPROC_H
#include "sim.h"
#include <functional>
#include <string>
#include <vector>
namespace sim { namespace proc {
struct Child { std::string out; int exit = 0, sig = 0; bool no_exec = false; };
extern std::function<Child(std::vector<std::string> const& argv)> handler;
struct Plan { int fail_pipe = 0, fail_fork = 0;        // countdown: the nth such call fails
  int read_mode = 0; unsigned eintr_pct = 0; long eio_after = -1; // reads of the pipe
  int wait_eintr = 0; int foreign = 0; int foreign_status = 0; };  // EINTRs before wait(); other children (left by whoever exec'd the program) ending first
extern Plan plan;
extern std::vector<std::string> ran; extern bool eio;
void reset();
int open_fds(); int unreaped();
}}
#endif
