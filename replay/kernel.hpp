// A small fake kernel under the real watcher: the system calls it makes are answered from a
// scenario, everything it does is recorded. Calls about descriptors and paths which are not the
// scenario's go to the real kernel.
#pragma once
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <limits.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <set>
#include <string>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#include <sanitizer/asan_interface.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif

namespace fk {

struct Fd {
  enum Kind { IN, FA, EP, EV, HANDLE } kind;
  bool open = true;
  std::string path;                                  // HANDLE
  uint64_t count = 0;                                // EV
  std::vector<std::pair<int, epoll_event>> want;     // EP
};
struct Fault { std::string fn; int nth; int err; };
struct Mark { std::string path; uint64_t mask; bool ok; int wd; int at; bool start; };

// what one wait reports
struct Item { bool stop = false; };
struct Wake { int err = 0; std::vector<Item> items; bool wants_stop = false; };

struct Kernel {
  std::mutex m; std::condition_variable cv;
  bool on = false;
  std::map<int, Fd> fds; int next = 700; int zero_for = -1;   // which kind gets the number 0
  std::map<int, DIR*> none; std::set<DIR*> dirs; int dirs_open = 0;
  std::vector<Fault> faults; std::map<std::string, int> calls;
  uid_t euid = 1000;
  bool unknown_types = false, hold_thread = false, held = false;
  std::vector<std::pair<std::string, std::string>> bad;       // property, what
  std::vector<std::string> log;
  std::vector<std::string> inits;
  std::vector<Mark> marks; int next_wd = 1; std::map<std::string, int> wd_of;
  unsigned fa_flags = 0;
  std::vector<Wake> script; size_t step = 0;
  bool idle = false, want_stop = false, stop_told = false, over = false;
  int waits_after_stop = 0, waits = 0, told_src = 0; bool left = false;   // left: the last read may have left something
  std::function<std::string(std::string const&, size_t)> link_text;
  int cb_count = 0;
  const char* phase = "start";
  std::string root;                                           // the scratch directory
  std::function<ssize_t(Fd&, char*, size_t)> on_read;         // fills a batch
  std::function<int(std::string const&)> on_handle;           // handle bytes -> path index or -errno
  std::function<std::string(int)> handle_path;
  std::function<int(std::string const&)> link_fails;
  char* poisoned = nullptr; size_t poison_len = 0;
  void fail(char const* p, std::string const& s) { bad.push_back({p, s}); }
  void note(char const* f, ...) {
    char b[1200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); log.push_back(b);
  }
  bool fault(char const* fn) {
    int n = ++calls[fn];
    for (auto& f : faults) if (f.fn == fn && f.nth == n) { note("%s (call %d) fails with errno %d", fn, n, f.err); errno = f.err; return true; }
    return false;
  }
  int alloc(Fd::Kind k) {
    int n = (zero_for == (int)k && !fds.count(0)) ? 0 : next++;
    fds[n] = Fd{k}; return n;
  }
  Fd* get(int fd) { auto i = fds.find(fd); return i == fds.end() ? nullptr : &i->second; }
  // a descriptor in use
  Fd* use(int fd, char const* fn) {
    auto f = get(fd);
    if (f && !f->open) { fail("C10", std::string(fn) + " on descriptor " + std::to_string(fd) + " after it was closed"); errno = EBADF; return nullptr; }
    return f;
  }
  void unpoison() { if (poisoned) { UNPOISON(poisoned, poison_len); poisoned = nullptr; } }
};
inline Kernel& K() { static Kernel* k = new Kernel; return *k; }
using L = std::unique_lock<std::mutex>;
template<class F> F real(char const* n) { return (F)dlsym(RTLD_NEXT, n); }
} // namespace fk

extern "C" {
using namespace fk;
uid_t geteuid(void) noexcept { auto& k = K(); return k.on ? k.euid : (uid_t)syscall(SYS_geteuid); }
uid_t getuid(void) noexcept { auto& k = K(); return k.on ? (k.euid ? 0 : 1000) : (uid_t)syscall(SYS_getuid); }

static int in_init(int fl) {
  auto& k = K(); L l(k.m); k.inits.push_back("inotify");
  if (k.fault("inotify_init")) return -1;
  int n = k.alloc(Fd::IN); k.note("inotify_init -> %d", n); return n;
}
int inotify_init(void) noexcept { return in_init(0); }
int inotify_init1(int fl) noexcept { return in_init(fl); }
int fanotify_init(unsigned fl, unsigned) noexcept {
  auto& k = K(); L l(k.m); k.inits.push_back("fanotify");
  if (k.fault("fanotify_init")) return -1;
  k.fa_flags = fl; int n = k.alloc(Fd::FA); k.note("fanotify_init -> %d", n); return n;
}
int inotify_add_watch(int fd, char const* p, uint32_t mask) noexcept {
  auto& k = K(); L l(k.m);
  auto f = k.use(fd, "inotify_add_watch");
  if (!f || f->kind != Fd::IN) { errno = EBADF; return -1; }
  struct stat s;
  std::string path = p;
  bool flt = k.fault("inotify_add_watch");
  if (flt || stat(p, &s) != 0) { int e = flt ? errno : ENOENT; k.marks.push_back({path, mask, false, -1, k.cb_count, k.waits == 0}); k.note("inotify_add_watch %s -> -1", p); errno = e; return -1; }
  char b[PATH_MAX]; std::string real = realpath(p, b) ? b : p;
  int wd; auto i = k.wd_of.find(real);
  if (i != k.wd_of.end()) wd = i->second; else wd = k.wd_of[real] = k.next_wd++;
  k.marks.push_back({path, mask, true, wd, k.cb_count, k.waits == 0});
  k.note("inotify_add_watch %s -> %d", p, wd);
  return wd;
}
int inotify_rm_watch(int fd, int wd) noexcept { auto& k = K(); L l(k.m); k.use(fd, "inotify_rm_watch"); k.note("inotify_rm_watch %d", wd); for (auto i = k.wd_of.begin(); i != k.wd_of.end(); ++i) if (i->second == wd) { k.wd_of.erase(i); return 0; } errno = EINVAL; return -1; }
int fanotify_mark(int fd, unsigned fl, uint64_t mask, int at, char const* p) noexcept {
  auto& k = K(); L l(k.m);
  auto f = k.use(fd, "fanotify_mark");
  if (!f || f->kind != Fd::FA) { errno = EBADF; return -1; }
  if (!(fl & FAN_MARK_ADD)) return 0;
  struct stat s;
  std::string path = p ? p : "";
  bool flt = k.fault("fanotify_mark");
  if (flt || stat(path.c_str(), &s) != 0) { int e = flt ? errno : ENOENT; k.marks.push_back({path, mask, false, -1, k.cb_count, k.waits == 0}); k.note("fanotify_mark %s -> -1", path.c_str()); errno = e; return -1; }
  k.marks.push_back({path, mask, true, 0, k.cb_count, k.waits == 0}); k.note("fanotify_mark %s -> 0", path.c_str());
  return 0;
}
int epoll_create1(int) noexcept {
  auto& k = K(); L l(k.m);
  if (k.fault("epoll_create")) return -1;
  int n = k.alloc(Fd::EP); k.note("epoll_create -> %d", n); return n;
}
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event* e) noexcept {
  auto& k = K(); L l(k.m);
  auto f = k.use(ep, "epoll_ctl");
  if (!f || f->kind != Fd::EP) { errno = EBADF; return -1; }
  if (k.fault("epoll_ctl")) return -1;
  auto t = k.use(fd, "epoll_ctl");
  if (!t) { errno = EBADF; return -1; }
  for (size_t i = 0; i < f->want.size(); i++) if (f->want[i].first == fd) {
    if (op == EPOLL_CTL_DEL) { f->want.erase(f->want.begin() + i); return 0; }
    if (op == EPOLL_CTL_MOD) { f->want[i].second = *e; if (t->kind != Fd::EV) k.told_src = 0, k.left = false; return 0; }
    errno = EEXIST; return -1;
  }
  if (op != EPOLL_CTL_ADD) { errno = ENOENT; return -1; }
  f->want.push_back({fd, *e}); k.note("epoll_ctl adds %d", fd);
  return 0;
}
int epoll_wait(int ep, epoll_event* out, int max, int ms) {
  auto& k = K(); L l(k.m);
  k.unpoison();
  auto f = k.use(ep, "epoll_wait");
  if (!f || f->kind != Fd::EP) { errno = EBADF; return -1; }
  k.waits++;
  if (max <= 0) { errno = EINVAL; return -1; }
  if (k.stop_told) {
    k.waits_after_stop++;
    if (k.waits_after_stop == 1) k.fail("C03", "the loop waits again after the wake-up which told of the close request");
    if (k.waits_after_stop > 50) { for (auto& b : k.bad) (void)b; k.over = true; k.cv.notify_all(); errno = EBADF; return -1; }
  }
  if (ms >= 0 && k.waits == 1) k.fail("C03", "the loop waits with a time-out of " + std::to_string(ms) + " ms");
  // the descriptors it asked for
  int src = -1, stop = -1; epoll_event se{}, te{};
  for (auto& w : f->want) {
    auto t = k.get(w.first);
    if (!t) continue;
    if (t->kind == Fd::EV) { if (w.second.events & EPOLLIN) stop = w.first, te = w.second; }
    else if (w.second.events & EPOLLIN) src = w.first, se = w.second;
  }
  if (stop < 0 && !k.stop_told) { k.fail("C03", "the loop is not subscribed for the close request"); k.stop_told = true; k.over = true; k.idle = true; k.cv.notify_all(); errno = EBADF; return -1; }
  if (src < 0) { k.fail("C03", "the loop is not subscribed for the event source"); }
  auto stop_now = [&]() {
    k.want_stop = true; k.cv.notify_all();
    if (!k.cv.wait_for(l, std::chrono::seconds(8), [&] { auto t = k.get(stop); return t && t->count > 0; })) { k.fail("C03", "no close request arrived though the watch was closed"); k.over = true; k.cv.notify_all(); return false; }
    return true;
  };
  if (k.step >= k.script.size()) {
    k.idle = true; k.phase = "stop"; k.cv.notify_all();
    if (!stop_now()) { errno = EBADF; return -1; }
    out[0].events = EPOLLIN; out[0].data = te.data; k.stop_told = true; k.note("epoll_wait -> the close request");
    return 1;
  }
  auto w = k.script[k.step++];
  if (w.err) { k.note("epoll_wait fails with errno %d", w.err); errno = w.err; return -1; }
  bool has_stop = false;
  for (auto& i : w.items) if (i.stop) has_stop = true;
  if (has_stop && !stop_now()) { errno = EBADF; return -1; }
  int n = 0;
  std::string s;
  for (auto& i : w.items) {
    if (n >= max) { if (i.stop) has_stop = false; continue; }
    if (i.stop) { out[n].events = EPOLLIN; out[n++].data = te.data; s += " the close request,"; }
    else if (src >= 0) {
      if (se.events & EPOLLET && k.left) k.fail("C03", "the event source is subscribed edge-triggered and is not read until it is empty: what a read leaves behind is not told again");
      if (se.events & EPOLLONESHOT && k.told_src) k.fail("C03", "the event source is subscribed for one notification only: what comes later is not told");
      k.told_src++; out[n].events = EPOLLIN; out[n++].data = se.data; s += " the event source,"; }
  }
  bool told = false; for (int j = 0, q = 0; j < (int)w.items.size() && q < n; j++) { if (w.items[j].stop) told = true; if (w.items[j].stop || src >= 0) q++; }
  if (told) k.stop_told = true;
  k.phase = "turn";
  k.note("epoll_wait ->%s", s.empty() ? " nothing" : s.c_str());
  return n;
}
int epoll_pwait(int ep, epoll_event* out, int max, int ms, sigset_t const*) { return epoll_wait(ep, out, max, ms); }
int eventfd(unsigned c, int) noexcept {
  auto& k = K(); if (!k.on) return syscall(SYS_eventfd2, c, 0);
  L l(k.m); int n = k.alloc(Fd::EV); k.fds[n].count = c; k.note("eventfd -> %d", n); return n;
}
static ssize_t ev_write(int fd, uint64_t v) {
  auto& k = K(); L l(k.m); auto f = k.use(fd, "eventfd_write");
  if (!f || f->kind != Fd::EV) { errno = EBADF; return -1; }
  f->count += v; k.note("close request posted"); k.cv.notify_all(); return 8;
}
static ssize_t ev_read(int fd, uint64_t* v) {
  auto& k = K(); L l(k.m); auto f = k.use(fd, "eventfd_read");
  if (!f || f->kind != Fd::EV) { errno = EBADF; return -1; }
  if (!f->count) { errno = EAGAIN; return -1; }
  *v = 1; f->count--; return 8;
}
int eventfd_write(int fd, eventfd_t v) { return ev_write(fd, v) == 8 ? 0 : -1; }
int eventfd_read(int fd, eventfd_t* v) { return ev_read(fd, v) == 8 ? 0 : -1; }
ssize_t write(int fd, void const* p, size_t n) {
  auto& k = K();
  if (k.on) { bool ev; { L l(k.m); auto f = k.get(fd); ev = f && f->kind == Fd::EV; } if (ev && n == 8) { uint64_t v; memcpy(&v, p, 8); return ev_write(fd, v); } }
  return syscall(SYS_write, fd, p, n);
}
ssize_t read(int fd, void* p, size_t n) {
  auto& k = K();
  if (!k.on) return syscall(SYS_read, fd, p, n);
  { L l(k.m); auto f = k.get(fd);
    if (!f) return syscall(SYS_read, fd, p, n);
    if (f->kind == Fd::EV) { l.unlock(); uint64_t v; auto r = ev_read(fd, &v); if (r == 8) memcpy(p, &v, 8); return r; }
    if (!k.use(fd, "read")) return -1;
    k.unpoison();
    k.phase = "decode";
    auto r = k.on_read(*f, (char*)p, n);
    int e = errno;
    k.left = r > 0;
    if (r >= 0 && (size_t)r < n) { k.poisoned = (char*)p + r; k.poison_len = n - r; POISON(k.poisoned, k.poison_len); }
    errno = e;
    return r;
  }
}
int close(int fd) {
  auto& k = K();
  if (!k.on) return syscall(SYS_close, fd);
  L l(k.m);
  auto f = k.get(fd);
  if (!f) { if (fd >= 0) { if (fd < 3 || fd >= 600) k.fail("C10", "closes descriptor " + std::to_string(fd) + ", which it never opened"); else return syscall(SYS_close, fd); } errno = EBADF; return -1; }
  if (!f->open) { k.fail("C10", "closes descriptor " + std::to_string(fd) + " twice"); errno = EBADF; return -1; }
  f->open = false; k.note("close %d", fd); return 0;
}
int open_by_handle_at(int, file_handle* h, int) {
  auto& k = K(); L l(k.m);
  if (k.fault("open_by_handle_at")) return -1;
  int r = k.on_handle(std::string((char*)h->f_handle, h->handle_bytes));
  if (r < 0) { k.note("open_by_handle_at fails with errno %d", -r); errno = -r; return -1; }
  int n = k.alloc(Fd::HANDLE); k.fds[n].path = k.handle_path(r);
  k.note("open_by_handle_at -> %d (%s)", n, k.fds[n].path.c_str());
  return n;
}
static ssize_t link_of(char const* p, char* b, size_t n, bool& mine) {
  auto& k = K(); mine = false;
  if (!k.on || strncmp(p, "/proc/self/fd/", 14)) return -1;
  L l(k.m); auto f = k.get(atoi(p + 14)); if (!f) return -1;
  mine = true;
  if (!k.use(atoi(p + 14), "readlink")) return -1;
  if (int e = k.link_fails(f->path)) { k.note("readlink fails with errno %d", e); errno = e; return -1; }
  if (k.fault("readlink")) return -1;
  std::string t = k.link_text ? k.link_text(f->path, n) : f->path;
  size_t c = t.size() < n ? t.size() : n; memcpy(b, t.data(), c); return c;
}
ssize_t readlink(char const* p, char* b, size_t n) noexcept { bool mine; auto r = link_of(p, b, n, mine); return mine ? r : syscall(SYS_readlink, p, b, n); }
ssize_t readlinkat(int d, char const* p, char* b, size_t n) noexcept { bool mine; auto r = link_of(p, b, n, mine); return mine ? r : syscall(SYS_readlinkat, d, p, b, n); }
DIR* opendir(char const* p) {
  auto& k = K(); static auto r = real<DIR* (*)(char const*)>("opendir");
  if (k.on) { L l(k.m); if (k.fault("opendir")) return nullptr; }
  bool was = k.on; k.on = false; auto d = r(p); k.on = was;
  if (d && k.on) { L l(k.m); k.dirs.insert(d); k.dirs_open++; }
  return d;
}
dirent* readdir(DIR* d) {
  auto& k = K(); static auto r = real<dirent* (*)(DIR*)>("readdir");
  if (k.on && k.dirs.count(d)) { L l(k.m); if (k.fault("readdir")) return nullptr; }
  auto e = r(d);
  if (e && k.on && k.unknown_types) e->d_type = DT_UNKNOWN;
  return e;
}
int closedir(DIR* d) {
  auto& k = K(); static auto r = real<int (*)(DIR*)>("closedir");
  if (k.on) { L l(k.m); if (k.dirs.count(d)) k.dirs.erase(d), k.dirs_open--; else k.fail("C10", "closes a directory stream it does not hold"); }
  bool was = k.on; k.on = false; auto x = r(d); k.on = was; return x;
}
#ifdef FK_ASAN
int __interceptor_pthread_create(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
#endif
struct fk_start { void* (*f)(void*); void* a; };
static void* fk_run(void* p) {
  auto s = *(fk_start*)p; delete (fk_start*)p;
  auto& k = K();
  if (k.hold_thread) {
    { L l(k.m); k.held = k.cv.wait_for(l, std::chrono::seconds(8), [&] { for (auto& f : k.fds) if (f.second.kind == Fd::EV && f.second.count) return true; return false; }); }
    // until the closing thread waits for this one
    char pth[64], b[300]; snprintf(pth, sizeof pth, "/proc/self/task/%d/stat", (int)getpid());
    for (int asleep = 0, i = 0; asleep < 4 && i < 4000; i++) {
      int fd = syscall(SYS_openat, AT_FDCWD, pth, O_RDONLY); ssize_t n = syscall(SYS_read, fd, b, sizeof b - 1); syscall(SYS_close, fd);
      b[n > 0 ? n : 0] = 0; char* e = strrchr(b, ')'); asleep = e && e[1] == ' ' && e[2] == 'S' ? asleep + 1 : 0;
      timespec ts{0, 1000000}; nanosleep(&ts, nullptr);
    }
  }
  return s.f(s.a);
}
int pthread_create(pthread_t* t, pthread_attr_t const* a, void* (*f)(void*), void* x) noexcept {
#ifdef FK_ASAN
  auto r = __interceptor_pthread_create;
#else
  static auto r = real<int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*)>("pthread_create");
#endif
  if (!K().on) return r(t, a, f, x);
  return r(t, a, fk_run, new fk_start{f, x});
}
} // extern "C"
