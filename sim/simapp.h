// Runs a whole command line program inside the simulator: its main() is compiled as app_main(), the standard streams
// are simulated peers, files are simulated storage, and exit() comes back here.
#ifndef VERIF_SIMAPP_H
#define VERIF_SIMAPP_H
#include "sim.h"
#include "simio.h"
#include "simstream.h"
#include <string>
#include <vector>
#include <functional>
namespace sim {
struct AppRun {
  std::vector<std::string> args;        // args[0] is the name it is called by
  SourceBuf::Plan in;
  long out_fail_at = -1; bool out_throws = false; int out_fail_sync = 0;
  long alloc_fail = 0; int alloc_k = 1; // the nth allocation fails
  // results
  int code = -1; bool exited = false; std::string out, err, threw; bool out_failed = false, in_failed = false, aborted = false; size_t consumed = 0; bool alloc_fired = false;
};
void run_app(AppRun& r, std::function<int(int, char**)> const& entry);
std::string show_args(AppRun const& r);
}
#endif
