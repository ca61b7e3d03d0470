#include "simio.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <dirent.h>
#include <stdarg.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/ioctl.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace sim { namespace io {
Policy policy; std::map<std::string, Policy> file_policy;
static std::map<std::string, std::shared_ptr<File>> disk;
uint64_t opens, reads, writes, read_calls_failed, write_calls_failed; int open_handles;
std::vector<std::string> created;

struct Handle { std::shared_ptr<File> f; std::string path; long off = 0; int flags = 0; bool dirty = false; FILE* fp = nullptr; int fd = -1; bool eio_done = false; };
static std::map<int, std::shared_ptr<Handle>> handles;
static std::map<FILE*, std::shared_ptr<Handle>> streams;

void put(std::string const& p, std::string const& d) { Quiet q; auto f = std::make_shared<File>(); f->data = d; disk[p] = f; }
bool exists(std::string const& p) { return disk.count(p); }
std::string get(std::string const& p) { Quiet q; auto i = disk.find(p); return i == disk.end() ? std::string() : i->second->data; }
File* file(std::string const& p) { auto i = disk.find(p); return i == disk.end() ? nullptr : i->second.get(); }
void remove(std::string const& p) { disk.erase(p); }
void clear_faults() { Quiet q; policy = Policy(); file_policy.clear(); }
void reset() { Quiet q; clear_faults(); disk.clear(); created.clear(); opens = reads = writes = 0; read_calls_failed = write_calls_failed = 0; }
bool any_write_failed() { return write_calls_failed; }

static bool is_sim(const char* p) { return active && p && (!strncmp(p, "/sim/", 5) || !strcmp(p, "/sim") || !strncmp(p, "simrel-", 7)); }   // simrel-*: relative names, in /sim/cwd
static Policy& pol(std::string const& path) { auto i = file_policy.find(path); return i == file_policy.end() ? policy : i->second; }
static std::string norm(const char* p) { std::string r; if (*p != '/') r = "/sim/cwd/"; for (; *p; ++p) { if (*p == '/' && !r.empty() && r.back() == '/') continue; r += *p; } return r; }

static int do_open(const char* path0, int flags, int& err) {
  Quiet q; std::string path = norm(path0); opens++;
  Policy& p = pol(path);
  if (p.fail_open > 0 && --p.fail_open == 0) { fault(F_OPEN_FAIL, "%s errno=%d", path.c_str(), p.open_errno); err = p.open_errno; return -1; }
  auto it = disk.find(path);
  if (it == disk.end()) {
    if (!(flags & O_CREAT)) { event("open", "%s -> ENOENT", path.c_str()); err = ENOENT; return -1; }
    it = disk.insert({path, std::make_shared<File>()}).first; created.push_back(path);
  }
  auto f = it->second;
  if (f->is_dir && (flags & O_ACCMODE) != O_RDONLY) { err = EISDIR; return -1; }
  if (((flags & O_ACCMODE) != O_WRONLY) && f->unreadable) { fault(F_OPEN_FAIL, "%s EACCES", path.c_str()); err = EACCES; return -1; }
  if (((flags & O_ACCMODE) != O_RDONLY) && f->unwritable) { fault(F_OPEN_FAIL, "%s EACCES(write)", path.c_str()); err = EACCES; return -1; }
  if (flags & O_TRUNC) f->data.clear();
  int fd = syscall(SYS_memfd_create, "sim", 0); if (fd < 0) { err = errno; return -1; }
  auto h = std::make_shared<Handle>(); h->f = f; h->path = path; h->flags = flags; h->fd = fd; if (flags & O_APPEND) h->off = f->data.size();
  handles[fd] = h; open_handles++;
  event("open", "%s flags=%o", path.c_str(), flags);
  return fd;
}

static ssize_t do_read(Handle& h, void* buf, size_t n) {
  Quiet q; reads++; advance(60);
  Policy& p = pol(h.path);
  if (h.f->is_dir) { errno = EISDIR; return -1; }
  if (p.eintr_pct && chance(p.eintr_pct, 100)) { fault(F_READ_EINTR, "%s@%ld", h.path.c_str(), h.off); errno = EINTR; return -1; }
  if (p.eio_after >= 0 && h.off >= p.eio_after && !(p.eio_once && h.eio_done)) { h.eio_done = true; read_calls_failed++; fault(F_READ_EIO, "%s@%ld", h.path.c_str(), h.off); errno = EIO; return -1; }
  size_t avail = h.off >= (long)h.f->data.size() ? 0 : h.f->data.size() - h.off;
  size_t k = n < avail ? n : avail;
  if (p.eio_after >= 0 && !(p.eio_once && h.eio_done) && (long)(h.off + k) > p.eio_after) k = p.eio_after - h.off;
  size_t want = k;
  if (k > 1) {
    if (p.read_mode == 1) k = 1 + choose(k > 64 && chance(1, 2) ? 64 : k);
    else if (p.read_mode == 2) k = 1;
    else if (p.read_mode == 3) k = 1 + choose(k > 8 ? 8 : k);
  }
  if (k < want) R->faults[F_SHORT_READ]++;
  memcpy(buf, h.f->data.data() + h.off, k); h.off += k;
  event("read", "%s %zu/%zu", h.path.c_str(), k, n);
  return k;
}

static ssize_t do_write(Handle& h, const void* buf, size_t n) {
  Quiet q; writes++; advance(90);
  Policy& p = pol(h.path);
  if (h.flags & O_APPEND) h.off = h.f->data.size();
  if (n == 0) return 0;
  if (p.eintr_pct && chance(p.eintr_pct, 100)) { fault(F_WRITE_EINTR, "%s@%ld", h.path.c_str(), h.off); errno = EINTR; return -1; }
  size_t k = n;
  if (p.weio_after >= 0) { if (h.off >= p.weio_after) { write_calls_failed++; fault(F_WRITE_EIO, "%s@%ld", h.path.c_str(), h.off); errno = EIO; return -1; } if ((long)(h.off + k) > p.weio_after) k = p.weio_after - h.off; }
  long grow = h.off + (long)k - (long)h.f->data.size(); if (grow < 0) grow = 0;
  if (p.disk_free >= 0 && grow > p.disk_free) { long fit = (long)k - (grow - p.disk_free); if (fit <= 0) { write_calls_failed++; fault(F_ENOSPC, "%s@%ld", h.path.c_str(), h.off); errno = ENOSPC; return -1; } k = fit; }
  if (k > 1 && p.write_mode == 1) { size_t w = k; k = 1 + choose(k > 256 && chance(1, 2) ? 256 : k); if (k < w) fault(F_SHORT_WRITE, "%zu/%zu", k, w); }
  if (h.off > (long)h.f->data.size()) h.f->data.resize(h.off);
  grow = h.off + (long)k - (long)h.f->data.size(); if (grow > 0) { h.f->data.resize(h.off + k); if (p.disk_free >= 0) p.disk_free -= grow; }
  memcpy(&h.f->data[h.off], buf, k); h.off += k; h.dirty = true;
  event("write", "%s %zu/%zu", h.path.c_str(), k, n);
  return k;
}

static long do_seek(Handle& h, long off, int wh) {
  long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? h.off : (long)h.f->data.size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  h.off = base + off; { Quiet q; event("seek", "%s %ld", h.path.c_str(), h.off); } return h.off;
}
static int do_close(std::shared_ptr<Handle> h) {
  Quiet q; handles.erase(h->fd); open_handles--; syscall(SYS_close, h->fd); 
  event("close", "%s", h->path.c_str());
  Policy& p = pol(h->path);
  if (h->dirty && p.close_errno) { write_calls_failed++; fault(F_CLOSE_FAIL, "%s", h->path.c_str()); errno = p.close_errno; return -1; }
  return 0;
}
static void fill_stat(File& f, struct stat64* st) { memset(st, 0, sizeof *st); st->st_mode = (f.is_dir ? S_IFDIR : S_IFREG) | 0644; st->st_size = f.data.size(); st->st_blksize = 4096; st->st_nlink = 1; }
static Handle* hfd(int fd) { if (!active) return nullptr; auto i = handles.find(fd); return i == handles.end() ? nullptr : i->second.get(); }

static ssize_t ck_read(void* c, char* b, size_t n) { return do_read(*(Handle*)c, b, n); }
// as stdio over a descriptor: short writes are continued, an error (EINTR included) is not retried
static ssize_t ck_write(void* c, const char* b, size_t n) { size_t t = 0; while (t < n) { ssize_t r = do_write(*(Handle*)c, b + t, n - t); if (r <= 0) return t; t += r; } return t; }
static int ck_seek(void* c, off64_t* o, int w) { long r = do_seek(*(Handle*)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void*) { return 0; }
static FILE* do_fopen(const char* path, const char* mode) {
  int fl = 0; bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY; else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int e = 0; int fd = do_open(path, fl, e); if (fd < 0) { errno = e; return nullptr; }
  Quiet q; auto h = handles[fd]; cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE* f = fopencookie(h.get(), mode, io); h->fp = f; streams[f] = h; return f;
}
}}
using namespace sim; using namespace sim::io;
#define REAL(ret, name, args) static ret (*real_##name) args; if (!real_##name) real_##name = (ret(*) args)dlsym(RTLD_NEXT, #name)

namespace sim { namespace proc { bool is_pipe(int fd); ssize_t pipe_read(int fd, void* b, size_t n); int pipe_close(int fd); } }
namespace sim { namespace proc { __attribute__((weak)) bool is_pipe(int) { return false; } __attribute__((weak)) ssize_t pipe_read(int, void*, size_t) { return -1; } __attribute__((weak)) int pipe_close(int) { return -1; } } }

EXPORT int open(const char* p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (is_sim(p)) { int e = 0, r = do_open(p, fl, e); if (r < 0) errno = e; return r; } return syscall(SYS_open, p, fl, m); }
EXPORT int open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } if (is_sim(p)) { int e = 0, r = do_open(p, fl, e); if (r < 0) errno = e; return r; } return syscall(SYS_open, p, fl, m); }
EXPORT FILE* fopen(const char* p, const char* m) { if (is_sim(p)) return do_fopen(p, m); REAL(FILE*, fopen, (const char*, const char*)); return real_fopen(p, m); }
EXPORT FILE* fopen64(const char* p, const char* m) { if (is_sim(p)) return do_fopen(p, m); REAL(FILE*, fopen64, (const char*, const char*)); return real_fopen64(p, m); }
EXPORT int fileno(FILE* f) noexcept { if (active) { auto i = streams.find(f); if (i != streams.end()) return i->second->fd; } REAL(int, fileno, (FILE*)); return real_fileno(f); }
EXPORT int fclose(FILE* f) { if (active) { auto i = streams.find(f); if (i != streams.end()) { auto h = i->second; streams.erase(i); REAL(int, fclose, (FILE*)); Quiet q; int r1 = real_fclose(f); int r2 = do_close(h); return r1 ? r1 : r2; } } REAL(int, fclose, (FILE*)); return real_fclose(f); }
EXPORT ssize_t read(int fd, void* b, size_t n) { if (active) { if (Handle* h = hfd(fd)) return do_read(*h, b, n); if (proc::is_pipe(fd)) return proc::pipe_read(fd, b, n); } return syscall(SYS_read, fd, b, n); }
EXPORT ssize_t __read_chk(int fd, void* b, size_t n, size_t m) { if (n > m) abort(); return read(fd, b, n); }
EXPORT ssize_t write(int fd, const void* b, size_t n) { if (Handle* h = hfd(fd)) return do_write(*h, b, n); return syscall(SYS_write, fd, b, n); }
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) { if (Handle* h = hfd(fd)) { ssize_t t = 0; for (int i = 0; i < c; ++i) { ssize_t r = do_write(*h, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; } return syscall(SYS_writev, fd, v, c); }
EXPORT ssize_t readv(int fd, const struct iovec* v, int c) { if (Handle* h = hfd(fd)) { ssize_t t = 0; for (int i = 0; i < c; ++i) { ssize_t r = do_read(*h, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; } return syscall(SYS_readv, fd, v, c); }
EXPORT off_t lseek(int fd, off_t o, int w) noexcept { if (Handle* h = hfd(fd)) return do_seek(*h, o, w); return syscall(SYS_lseek, fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) noexcept { if (Handle* h = hfd(fd)) return do_seek(*h, o, w); return syscall(SYS_lseek, fd, o, w); }
EXPORT int close(int fd) { if (active) { auto i = handles.find(fd); if (i != handles.end()) return do_close(i->second); if (proc::is_pipe(fd)) return proc::pipe_close(fd); } return syscall(SYS_close, fd); }
EXPORT int dup(int fd) noexcept { if (Handle* h = hfd(fd)) { Quiet q; int n = syscall(SYS_memfd_create, "simdup", 0); auto c = std::make_shared<Handle>(*h); c->fd = n; handles[n] = c; open_handles++; return n; } return syscall(SYS_dup, fd); }
static int sim_stat(const char* p, struct stat64* st) { Quiet q; File* f = io::file(norm(p)); if (!f) { errno = ENOENT; return -1; } fill_stat(*f, st); return 0; }
EXPORT int stat64(const char* p, struct stat64* st) noexcept { if (is_sim(p)) return sim_stat(p, st); REAL(int, stat64, (const char*, struct stat64*)); return real_stat64(p, st); }
EXPORT int stat(const char* p, struct stat* st) noexcept { if (is_sim(p)) return sim_stat(p, (struct stat64*)st); REAL(int, stat, (const char*, struct stat*)); return real_stat(p, st); }
EXPORT int access(const char* p, int m) noexcept { if (is_sim(p)) { Quiet q; File* f = io::file(norm(p)); if (!f) { errno = ENOENT; return -1; } if (((m & R_OK) && f->unreadable) || ((m & W_OK) && f->unwritable)) { errno = EACCES; return -1; } return 0; } return syscall(SYS_access, p, m); }
EXPORT int fstat64(int fd, struct stat64* st) noexcept { if (Handle* h = hfd(fd)) { fill_stat(*h->f, st); return 0; } return syscall(SYS_fstat, fd, st); }
EXPORT int fstat(int fd, struct stat* st) noexcept { if (Handle* h = hfd(fd)) { fill_stat(*h->f, (struct stat64*)st); return 0; } return syscall(SYS_fstat, fd, st); }
EXPORT int poll(struct pollfd* f, nfds_t n, int t) { if (n == 1 && hfd(f->fd)) { f->revents = POLLIN; return 1; } return syscall(SYS_poll, f, n, t); }
EXPORT int ftruncate64(int fd, off64_t len) noexcept { if (Handle* h = hfd(fd)) { h->f->data.resize(len); return 0; } return syscall(SYS_ftruncate, fd, len); }
EXPORT int unlink(const char* p) noexcept { if (is_sim(p)) { Quiet q; io::remove(norm(p)); return 0; } return syscall(SYS_unlink, p); }
EXPORT int rename(const char* a, const char* b) noexcept { if (is_sim(a) && is_sim(b)) { Quiet q; auto i = disk.find(norm(a)); if (i == disk.end()) { errno = ENOENT; return -1; } disk[norm(b)] = i->second; disk.erase(norm(a)); return 0; } return syscall(SYS_rename, a, b); }
EXPORT int fsync(int fd) { if (Handle* h = hfd(fd)) { h->f->durable = h->f->data; return 0; } return syscall(SYS_fsync, fd); }
EXPORT DIR* opendir(const char* p) { if (is_sim(p)) { errno = ENOENT; return nullptr; } REAL(DIR*, opendir, (const char*)); return real_opendir(p); }

// simulated clock
#include <time.h>
#include <sys/time.h>
namespace sim { namespace clk { int (*hook)() = nullptr; uint64_t calls; } }
static void clock_tick() { clk::calls++; if (clk::hook) { Quiet q; clk::hook(); } }
EXPORT time_t time(time_t* t) noexcept { time_t v; if (active) { clock_tick(); v = clock_us / 1000000; } else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }
EXPORT int gettimeofday(struct timeval* tv, void*) noexcept { if (active) { clock_tick(); tv->tv_sec = clock_us / 1000000; tv->tv_usec = clock_us % 1000000; return 0; } struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) noexcept { if (active) { clock_tick(); ts->tv_sec = clock_us / 1000000; ts->tv_nsec = clock_us % 1000000 * 1000; return 0; } return syscall(SYS_clock_gettime, c, ts); }
EXPORT clock_t clock() noexcept { if (active) { clock_tick(); return clock_us; } struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
EXPORT pid_t getpid() noexcept { return active ? 4242 : (pid_t)syscall(SYS_getpid); }
