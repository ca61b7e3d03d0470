// Cooperative tasks: the seeded scheduler decides which one runs next.
#ifndef VERIF_FIBER_H
#define VERIF_FIBER_H
#include "sim.h"
#include <ucontext.h>
#include <memory>
#include <cxxabi.h>
#include <cstring>
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace sim {
class Fibers {
  struct F { ucontext_t c; std::unique_ptr<char[]> st; std::function<void()> fn; bool done = false; char eh[32] = {}; };
  std::vector<std::unique_ptr<F>> fs; ucontext_t main; int cur = -1; char meh[32] = {};
  static Fibers*& self() { static Fibers* f; return f; }
  static void entry() { Fibers* m = self(); F* f = m->fs[m->cur].get(); f->fn(); f->done = true; m->leave(); }
  // exceptions in flight belong to the task they are in flight in
  static void swap_eh(char* save, char* load) { char* g = (char*)__cxxabiv1::__cxa_get_globals(); memcpy(save, g, 16); memcpy(g, load, 16); }
  void leave() { F* f = fs[cur].get(); swap_eh(f->eh, meh); swapcontext(&f->c, &main); }
public:
  size_t switches = 0;
  void spawn(std::function<void()> fn) { Quiet q; auto f = std::make_unique<F>(); size_t n = 256 << 10; f->st.reset(new char[n]); f->fn = fn; getcontext(&f->c); f->c.uc_stack.ss_sp = f->st.get(); f->c.uc_stack.ss_size = n; f->c.uc_link = 0; makecontext(&f->c, (void (*)())entry, 0); fs.push_back(std::move(f)); }
  bool inside() const { return cur >= 0; }
  void yield() { if (cur >= 0) leave(); }
  void run() {
    for (;;) { std::vector<int> live; for (size_t i = 0; i < fs.size(); ++i) if (!fs[i]->done) live.push_back(i); if (live.empty()) break;
      self() = this; cur = live[choose(live.size())]; ++switches; F* f = fs[cur].get(); event("switch", "%d", cur); swap_eh(meh, f->eh); swapcontext(&main, &f->c); cur = -1; }
  }
};
}
#endif
