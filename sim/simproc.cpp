#include "simproc.h"
#include <map>
#include <memory>
#include <cerrno>
#include <cstring>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#define EXPORT extern "C" __attribute__((visibility("default")))
extern "C" __attribute__((weak)) void __asan_handle_no_return();
namespace sim { namespace proc {
std::function<Child(std::vector<std::string> const&)> handler; Plan plan; std::vector<std::string> ran; bool eio;
struct Pipe { std::string data; size_t off = 0; int writers = 1; };
struct End { std::shared_ptr<Pipe> p; bool wr; };
static std::map<int, End> fds; static std::map<int, int> kids; static bool child = false; static std::map<int, std::shared_ptr<Pipe>> cfd; static int next_pid = 5000, reads_done;
void reset() { Quiet q; plan = Plan(); ran.clear(); eio = false; for (auto& f : fds) syscall(SYS_close, f.first); fds.clear(); kids.clear(); child = false; next_pid = 5000; handler = nullptr; reads_done = 0; }
int open_fds() { return fds.size(); }
int unreaped() { return kids.size(); }
bool is_pipe(int fd) { return fds.count(fd) || (child && cfd.count(fd)); }
ssize_t pipe_read(int fd, void* b, size_t n) {
  Quiet q; advance(40); auto i = fds.find(fd); if (i == fds.end() || i->second.wr) { errno = EBADF; return -1; } Pipe& p = *i->second.p;
  if (plan.eintr_pct && chance(plan.eintr_pct, 100)) { fault(F_READ_EINTR, "pipe@%zu", p.off); errno = EINTR; return -1; }
  size_t lim = p.data.size(); if (plan.eio_after >= 0 && (size_t)plan.eio_after <= lim) { lim = plan.eio_after; if (p.off >= lim) { eio = true; fault(F_READ_EIO, "pipe@%zu", p.off); errno = EIO; return -1; } }
  if (p.off >= lim) { if (p.writers) violation("proc.hang", "the program waits for ever for output of %s", ran.empty() ? "a command" : quote(ran.back()).c_str()); event("read", "pipe eof"); return 0; }
  size_t k = std::min(n, lim - p.off), full = k;
  if (k > 1) { if (plan.read_mode == 1) k = 1 + choose(k > 64 && chance(1, 2) ? 64 : k); else if (plan.read_mode == 2) k = 1; else if (plan.read_mode == 3) k = 1 + choose(k > 8 ? 8 : k); }
  if (k < full) R->faults[F_SHORT_READ]++;
  memcpy(b, p.data.data() + p.off, k); p.off += k; event("read", "pipe %zu", k); return k;
}
int pipe_close(int fd) {
  Quiet q; if (child) { if (!cfd.erase(fd)) { errno = EBADF; return -1; } return 0; }
  auto i = fds.find(fd); if (i == fds.end()) { errno = EBADF; return -1; } if (i->second.wr) i->second.p->writers--; fds.erase(i); syscall(SYS_close, fd); return 0;
}
}}
using namespace sim; using namespace sim::proc;
extern "C" { __attribute__((visibility("hidden"))) unsigned long sim_vf[8]; __attribute__((visibility("hidden"))) long sim_vfork_enter(); }
extern "C" __attribute__((noreturn, visibility("hidden"))) void sim_vfork_resume(long pid);
// the child's half of vfork() returns 0 through the parent's frame; the parent's half returns later, with the child's pid
asm(R"(
.text
.globl vfork
.type vfork,@function
vfork:
  movq (%rsp), %rax
  movq %rax, sim_vf(%rip)
  leaq 8(%rsp), %rax
  movq %rax, sim_vf+8(%rip)
  movq %rbx, sim_vf+16(%rip)
  movq %rbp, sim_vf+24(%rip)
  movq %r12, sim_vf+32(%rip)
  movq %r13, sim_vf+40(%rip)
  movq %r14, sim_vf+48(%rip)
  movq %r15, sim_vf+56(%rip)
  subq $8, %rsp
  call sim_vfork_enter
  addq $8, %rsp
  ret
.size vfork,.-vfork
.type sim_vfork_resume,@function
.globl sim_vfork_resume
.hidden sim_vfork_resume
sim_vfork_resume:
  movq %rdi, %rax
  movq sim_vf+16(%rip), %rbx
  movq sim_vf+24(%rip), %rbp
  movq sim_vf+32(%rip), %r12
  movq sim_vf+40(%rip), %r13
  movq sim_vf+48(%rip), %r14
  movq sim_vf+56(%rip), %r15
  movq sim_vf+8(%rip), %rsp
  jmp *sim_vf(%rip)
.size sim_vfork_resume,.-sim_vfork_resume
)");
extern "C" long sim_vfork_enter() {
  if (!active) { long r = syscall(SYS_fork); return r; }
  Quiet q; if (plan.fail_fork > 0 && --plan.fail_fork == 0) { fault(F_SPAWN_FAIL, "vfork EAGAIN"); errno = EAGAIN; return -1; }
  child = true; cfd.clear(); for (auto& f : fds) cfd[f.first] = f.second.wr ? f.second.p : nullptr; event("vfork"); return 0;
}
static void child_ends(Child const& c) {
  int pid = next_pid++; kids[pid] = c.sig ? c.sig : (c.exit & 255) << 8; child = false; cfd.clear();
  event("child", "%d %zu bytes, status %d signal %d", pid, c.out.size(), c.exit, c.sig);
  if (__asan_handle_no_return) __asan_handle_no_return(); --quiet_depth; sim_vfork_resume(pid);
}
EXPORT int pipe(int* fd) noexcept {
  if (!active) return syscall(SYS_pipe, fd);
  Quiet q; if (plan.fail_pipe > 0 && --plan.fail_pipe == 0) { fault(F_PIPE_FAIL, "EMFILE"); errno = EMFILE; return -1; }
  auto p = std::make_shared<Pipe>(); for (int i = 0; i < 2; ++i) { fd[i] = syscall(SYS_memfd_create, "simpipe", 0); fds[fd[i]] = End{p, i == 1}; } event("pipe"); return 0;
}
EXPORT int dup2(int a, int b) noexcept { if (active && child) { Quiet q; auto i = cfd.find(a); if (i == cfd.end()) { errno = EBADF; return -1; } cfd[b] = i->second; return b; } return syscall(SYS_dup2, a, b); }
EXPORT int execvp(const char* f, char* const* av) noexcept {
  if (!(active && child)) { errno = ENOSYS; return -1; }
  ++quiet_depth; Child c; { std::vector<std::string> v; v.push_back(f); for (int i = 1; av[i]; ++i) v.push_back(av[i]); ran.push_back(v.back());
    event("execvp", "%s", quote(v.back(), 300).c_str()); if (!handler) harness_error("execvp without a handler"); c = handler(v);
    if (c.no_exec) { fault(F_SPAWN_FAIL, "execvp ENOENT"); --quiet_depth; errno = ENOENT; return -1; }
    if (c.sig) fault(F_CHILD_SIGNAL, "%d", c.sig); else if (c.exit) fault(F_CHILD_EXIT, "%d", c.exit);
    auto o = cfd.find(1); if (o != cfd.end() && o->second) o->second->data += c.out; }
  child_ends(c); return -1;
}
EXPORT __attribute__((noreturn)) void _exit(int c) { if (active && child) { ++quiet_depth; Child k; k.exit = c; child_ends(k); } syscall(SYS_exit_group, c); __builtin_unreachable(); }
static pid_t do_wait(int pid, int* st) {
  Quiet q; advance(200); if (plan.wait_eintr > 0) { --plan.wait_eintr; fault(F_WAIT_EINTR); errno = EINTR; return -1; }
  if (pid == -1 && plan.foreign > 0) { --plan.foreign; fault(F_FOREIGN_CHILD, "status %d", plan.foreign_status); if (st) *st = plan.foreign_status << 8; return 4999; }
  auto i = pid == -1 ? kids.begin() : kids.find(pid); if (i == kids.end()) { errno = ECHILD; return -1; }
  int p = i->first; if (st) *st = i->second; kids.erase(i); event("wait", "%d", p); return p;
}
EXPORT pid_t wait(int* st) { if (active) return do_wait(-1, st); return syscall(SYS_wait4, -1, st, 0, 0); }
EXPORT pid_t waitpid(pid_t p, int* st, int fl) { if (active) return do_wait(p, st); return syscall(SYS_wait4, p, st, fl, 0); }
