#include "seam.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <list>
#include <netinet/in.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <sanitizer/asan_interface.h>

std::map<int, Desc> g_fd;
int g_fd_base = 3;
bool g_fd_strict = false;
std::function<Port *(const char *)> g_open_dev;
std::function<int(const char *, const char *, std::vector<TcpTarget> &)> g_resolve;
std::function<int()> g_socket_fail;
std::function<bool()> g_sockopt_fail, g_termios_fail;
std::map<std::string, std::string> g_files;
std::function<bool(size_t)> g_oom;
uint64_t g_allocs = 0;
uint8_t g_fill = 0xBE;
std::string g_out, g_err;
std::map<std::string, size_t> g_file_bad;
// what takes the standard output: full from g_out_limit bytes on, until g_out_free
size_t g_out_limit = SIZE_MAX;
ns_t g_out_free = INT64_MAX;
static std::string out_pend;                             // in the buffer of the stream, while a limit is set
static bool out_bad;
static int out_mode = _IOFBF;
static void out_reset() { g_out_limit = SIZE_MAX; g_out_free = INT64_MAX; out_pend.clear(); out_bad = false; out_mode = _IOFBF; }
static size_t out_device(const char *b, size_t n) {
  size_t room = n;
  if (g_now < g_out_free) room = g_out.size() >= g_out_limit ? 0 : std::min(n, g_out_limit - g_out.size());
  g_out.append(b, room);
  if (room < n) { fault(F_DISK); ev("standard output takes %zu of %zu bytes", room, n); errno = ENOSPC; }
  return room;
}
static bool out_flush() {
  size_t n = out_pend.size();
  if (!n) return true;
  bool ok = out_device(out_pend.data(), n) == n;
  out_pend.clear();                                      // as the C library does
  if (!ok) out_bad = true;
  return ok;
}
static bool out_put(const char *b, size_t n) {
  if (g_out_limit == SIZE_MAX) { g_out.append(b, n); return true; }
  bool ok = true;
  for (size_t i = 0; i < n; ) {
    size_t k = std::min<size_t>(n - i, 4096 - out_pend.size());
    out_pend.append(b + i, k);
    i += k;
    if (out_pend.size() >= 4096 && !out_flush()) ok = false;
  }
  if (out_mode == _IONBF || (out_mode == _IOLBF && memchr(b, '\n', n))) ok = out_flush() && ok;
  return ok;
}
std::function<void()> g_seam_hook;
ProcExit g_exit;
static bool sigpipe_ignored = false;

static std::map<int, bool> nb_map;
static bool &nb(int fd) { return nb_map[fd]; }
struct SimTarget { bool refuse; Port *port; bool v6; ns_t delay; };
static std::vector<SimTarget> g_targets;                 // what addresses stand for
static std::list<Port> g_dead;                           // where datagrams go
static void forget_files();
static std::unordered_map<void *, size_t> heap;
static size_t heap_bytes = 0;

void Port::arrive(ns_t at, uint8_t b) {
  if (at < last_arrival) at = last_arrival;
  last_arrival = at;
  arrived.push_back(b);
  rx.push_back({at, b});
}
size_t Port::pending(ns_t upto) const {
  size_t n = 0;
  for (auto &r : rx) { if (r.at > upto) break; n++; }
  return n;
}

void seam_reset() {
  g_fd.clear();
  for (int i = 0; i < 3; i++) g_fd[i] = {D_STD, nullptr, 0, nullptr, false};
  g_fd_base = 3;
  g_out.clear();
  g_err.clear();
  sigpipe_ignored = false;
  nb_map.clear();
  g_targets.clear();
  g_dead.clear();
  g_allocs = 0;
  g_fill = 0xBE;
  g_fd_strict = false;
  g_exit.armed = false;
  out_reset();
  forget_files();
}
int seam_open_lib_fds() {
  int n = 0;
  for (auto &f : g_fd) if (f.second.lib) n++;
  return n;
}
static int new_fd(Desc d) {
  for (int i = 0;; i++) {
    if (i >= 0 && g_fd.count(i)) continue;
    if (i > 2 && i < g_fd_base) continue;
    g_fd[i] = d;
    return i;
  }
}
static Port *port_of(int fd) {
  auto it = g_fd.find(fd);
  return it != g_fd.end() && it->second.kind == D_PORT ? it->second.port : nullptr;
}
static void foreign(const char *op, int fd) {
  auto it = g_fd.find(fd);
  if (g_fd_strict && it != g_fd.end() && !it->second.lib)
    fail("fd:foreign", "%s on descriptor %d, which belongs to the surrounding program", op, fd);
}
static void seam(const char *op) {
  (void)op;
  step();
  if (g_seam_hook) g_seam_hook();
}

// ------------------------------------------------------------------ process exit
[[noreturn]] static void proc_exit(int code) {
  ev("process exits with %d", code);
  if (!g_exit.armed) fail("exit", "the library ends the process with status %d", code);
  g_exit.armed = false;
  g_exit.code = code;
  __asan_handle_no_return();
  longjmp(g_exit.jb, 1);
}
void proc_crash() {
  REQUIRE(g_exit.armed, "harness", "crash outside a process");
  fault(F_CRASH);
  ev("the process dies");
  g_exit.armed = false;
  g_exit.code = 137;
  __asan_handle_no_return();
  longjmp(g_exit.jb, 1);
}
void proc_end(bool keep_input) {
  std::vector<int> gone;
  for (auto &f : g_fd) if (f.second.lib) gone.push_back(f.first);
  for (int fd : gone) {
    Port *p = g_fd[fd].port;
    if (p && p->fd == fd) {
      p->fd = -1;
      if (!keep_input) { size_t k = p->pending(g_now); p->rx.erase(p->rx.begin(), p->rx.begin() + k); }
    }
    g_fd.erase(fd);
    nb_map.erase(fd);
  }
  forget_files();
  heap_drop();
  lib_statics_restore();
  sigpipe_ignored = false;
  out_reset();
  g_out.clear();
  g_err.clear();
}
int run_main(int (*m)(int, char **), const std::vector<std::string> &args) {
  static std::vector<std::vector<char>> store;
  static std::vector<char *> argv;
  store.clear();
  argv.clear();
  std::string line;
  for (auto &a : args) {
    store.emplace_back(a.begin(), a.end());
    store.back().push_back(0);
    line += a + " ";
  }
  for (auto &s : store) argv.push_back(s.data());
  argv.push_back(nullptr);
  ev("start %s", line.c_str());
  optind = 0;                                            // a tool that uses getopt() starts anew
  g_exit.armed = true;
  if (setjmp(g_exit.jb) == 0) {
    int r = m((int)args.size(), argv.data());
    g_exit.armed = false;
    g_exit.code = r & 0xff;
    ev("main returns %d", r);
    out_flush();
  }
  return g_exit.code;
}

extern "C" {
// ------------------------------------------------------------------ heap
#define CALLER __builtin_return_address(0)
static void *track(void *p, size_t n) {
  if (p) { heap[p] = n; heap_bytes += n; }
  return p;
}
static bool oom(size_t n) {
  step();
  g_allocs++;
  if (heap_bytes + n > (64u << 20)) fail("heap:runaway", "more than 64 MB allocated");
  if (g_oom && g_oom(n)) {
    fault(F_OOM);
    ev("allocation %llu of %zu fails", (unsigned long long)g_allocs, n);
    errno = ENOMEM;
    return true;
  }
  return false;
}
void *sim_malloc(size_t n) {
  if (oom(n)) return nullptr;
  void *p = malloc(n);
  if (p) memset(p, g_fill, n);
  return track(p, n);
}
void *sim_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  if (oom(n)) return nullptr;
  return track(calloc(a, b), n);
}
void sim_free(void *p) {
  if (!p) return;
  auto it = heap.find(p);
  if (it != heap.end()) { heap_bytes -= it->second; heap.erase(it); }
  free(p);
}
void *sim_realloc(void *o, size_t n) {
  if (!o) return sim_malloc(n);
  if (n == 0) { sim_free(o); return nullptr; }
  if (oom(n)) return nullptr;
  auto it = heap.find(o);
  if (it == heap.end()) return realloc(o, n);
  // always moves, so stale pointers show
  void *p = malloc(n);
  memset(p, g_fill, n);
  memcpy(p, o, it->second < n ? it->second : n);
  sim_free(o);
  return track(p, n);
}
void *sim_reallocarray(void *o, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return sim_realloc(o, n);
}
char *sim_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  if (oom(n)) return nullptr;
  char *p = (char *)malloc(n);
  memcpy(p, s, n);
  return (char *)track(p, n);
}
char *sim___strdup(const char *s) { return sim_strdup(s); }
char *sim_strndup(const char *s, size_t m) {
  size_t n = strnlen(s, m);
  if (oom(n + 1)) return nullptr;
  char *p = (char *)malloc(n + 1);
  memcpy(p, s, n);
  p[n] = 0;
  return (char *)track(p, n + 1);
}
int sim_vasprintf(char **out, const char *f, va_list ap) {
  char *p = nullptr;
  int n = vasprintf(&p, f, ap);
  if (n < 0) return n;
  if (oom(n + 1)) { free(p); *out = nullptr; return -1; }
  *out = (char *)track(p, n + 1);
  return n;
}
int sim_asprintf(char **out, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int n = sim_vasprintf(out, f, ap);
  va_end(ap);
  return n;
}

// ------------------------------------------------------------------ files and ports
int sim_open(const char *path, int flags, ...) {
  seam("open");
  if (g_files.count(path)) {
    int fd = new_fd({D_FILE, nullptr, 0, &g_files[path], true});
    ev("open file %s = %d", path, fd);
    return fd;
  }
  Port *p = g_open_dev ? g_open_dev(path) : nullptr;
  if (!p) { ev("open %s fails", path); errno = ENOENT; return -1; }
  int fd = new_fd({D_PORT, p, 0, nullptr, true, flags & O_ACCMODE});
  nb(fd) = flags & O_NONBLOCK;
  p->fd = fd;
  ev("open %s = %d", path, fd);
  return fd;
}
int sim_open64(const char *path, int flags, ...) { return sim_open(path, flags); }

int sim_close(int fd) {
  seam("close");
  auto it = g_fd.find(fd);
  ev("close %d%s", fd, it == g_fd.end() ? " (not open)" : "");
  if (it == g_fd.end()) {
    if (g_fd_strict && fd >= 0) fail("fd:close-twice", "close(%d): not open (or closed before)", fd);
    errno = EBADF;
    return -1;
  }
  if (!it->second.lib) {
    if (g_fd_strict) fail("fd:foreign", "close(%d) closes a descriptor of the surrounding program", fd);
  }
  if (it->second.port && it->second.port->fd == fd) it->second.port->fd = -1;
  g_fd.erase(it);
  nb_map.erase(fd);
  return 0;
}

static size_t take(Port *p, uint8_t *buf, size_t n) {
  size_t avail = p->pending(g_now);
  size_t k = avail < n ? avail : n;
  if (p->cfg_short_read && k > 1) {
    uint32_t c = choose((uint32_t)k < 4 ? (uint32_t)k : 4);
    if (c == 1) { k = 1; fault(F_SHORT_READ); }
    else if (c == 2) { k = k / 2; fault(F_SHORT_READ); }
    else if (c == 3) { k = k - 1; fault(F_SHORT_READ); }
  }
  for (size_t i = 0; i < k; i++) {
    buf[i] = p->rx.front().b;
    p->rx.pop_front();
    p->consumed.push_back(buf[i]);
  }
  p->last_byte_read_at = g_now;
  p->last_byte_wall = wall_sec();
  p->walls.push_back({p->consumed.size(), p->last_byte_wall});
  ev_bytes("read", buf, k);
  shape(0x3000 + (k > 15 ? 15 : (uint32_t)k));
  return k;
}
// how a connection that broke shows: reset, or given up after retransmissions, or no way to the peer any more
static int reset_errno() { static const int e[] = {ECONNRESET, ECONNRESET, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH}; return e[choose(6)]; }
static int take_err(Port *p) {
  for (size_t i = 0; i < p->read_errs.size(); i++)
    if (p->read_errs[i].first <= g_now) {
      int e = p->read_errs[i].second;
      p->read_errs.erase(p->read_errs.begin() + i);
      fault(F_READ_ERR);
      return e;
    }
  return 0;
}
static ns_t next_err(Port *p) {
  ns_t t = NEVER;
  for (auto &e : p->read_errs) if (e.first < t) t = e.first;
  return t;
}

// Does the line setting let bytes through?
static bool tty_rx_ok(Port *p) {
  const termios &t = p->tio;
  static const struct { long b; speed_t s; } tab[] = {{300, B300}, {600, B600}, {1200, B1200}, {2400, B2400},
    {4800, B4800}, {9600, B9600}, {19200, B19200}, {38400, B38400}};
  speed_t want = 0;
  for (auto &e : tab) if (e.b == p->line_baud) want = e.s;
  return p->tio_set && (t.c_cflag & CREAD) && cfgetispeed(&t) == want;
}
static ssize_t tty_read(Port *p, uint8_t *buf, size_t n, bool nonblock) {
  const termios &t = p->tio;
  if (n == 0) return 0;
  bool canon = t.c_lflag & ICANON;
  int vmin = canon ? 1 : t.c_cc[VMIN], vtime = canon ? 0 : t.c_cc[VTIME];
  ns_t tmo = (ns_t)vtime * 100 * MS;
  ns_t deadline = vtime && !vmin ? g_now + tmo : NEVER;
  for (;;) {
    if (p->hup_at <= g_now) { ev("read: hung up"); shape(0x3100); return 0; }
    if (!p->pending(g_now)) if (int e = take_err(p)) { errno = e; ev("read fails (%d)", e); shape(0x3101); return -1; }
    // apply the line setting to what has arrived
    bool ok = tty_rx_ok(p);
    size_t avail = p->pending(g_now);
    if (avail && !ok) {
      if (p->tio_set && (t.c_cflag & CREAD)) {        // wrong rate: framing noise
        for (size_t i = 0; i < avail; i++) p->rx[i].b = (uint8_t)(p->rx[i].b * 37 + 11) | 0x80;
        probe("tty: bytes garbled by a wrong rate");
      } else {
        p->rx.erase(p->rx.begin(), p->rx.begin() + avail);
        avail = 0;
      }
    } else if (avail) {
      int bits = (t.c_cflag & CSIZE) == CS8 ? 8 : (t.c_cflag & CSIZE) == CS7 ? 7 : (t.c_cflag & CSIZE) == CS6 ? 6 : 5;
      bool par_bad = !(t.c_cflag & PARENB) || (t.c_cflag & PARODD) || (t.c_cflag & CSTOPB) || bits != 8;
      std::deque<RxByte> out;
      for (size_t i = 0; i < avail; i++) {
        uint8_t b = p->rx[i].b;
        bool drop = false;
        if (bits < 8) b &= (1 << bits) - 1;
        if (par_bad && (t.c_iflag & INPCK)) {
          if (t.c_iflag & IGNPAR) drop = true; else b = 0;
        } else if (par_bad && bits == 8) b ^= (i & 1) ? 0 : 0x80;   // parity bit taken for data or stop
        if (t.c_iflag & ISTRIP) b &= 0x7f;
        if (t.c_iflag & IXON) if (b == 0x11 || b == 0x13) drop = true;
        if ((t.c_iflag & IGNCR) && b == '\r') drop = true;
        if ((t.c_iflag & ICRNL) && b == '\r') b = '\n';
        else if ((t.c_iflag & INLCR) && b == '\n') b = '\r';
        if ((t.c_lflag & ISIG) && (b == 0x03 || b == 0x1c || b == 0x1a)) drop = true;
        if (canon && (b == 0x04 || b == 0x7f || b == 0x15)) drop = true;
        if (!drop) out.push_back({p->rx[i].at, b});
      }
      p->rx.erase(p->rx.begin(), p->rx.begin() + avail);
      p->rx.insert(p->rx.begin(), out.begin(), out.end());
      avail = out.size();
      if (canon) {                                   // complete lines only
        size_t nl = 0;
        for (size_t i = 0; i < avail; i++) if (p->rx[i].b == '\n') nl = i + 1;
        avail = nl;
      }
    }
    size_t need = vmin ? (vtime ? 1 : (size_t)vmin) : 1;
    if (need > n) need = n;
    if (avail >= need) {
      if (vmin && vtime) {                           // wait for more, bounded by the inter-byte timer
        while (p->pending(g_now) < (size_t)vmin && p->pending(g_now) < n) {
          size_t have = p->pending(g_now);
          ns_t nx = have < p->rx.size() ? p->rx[have].at : NEVER;
          if (nx > g_now + tmo) { block_until(g_now + tmo); break; }
          block_until(nx);
        }
      }
      return (ssize_t)take(p, buf, n);
    }
    if (nonblock) { errno = EAGAIN; return -1; }
    if (!vmin && !vtime) return 0;
    size_t have = p->pending(g_now);
    ns_t nx = have < p->rx.size() ? p->rx[have].at : NEVER;
    if (p->hup_at < nx) nx = p->hup_at;
    ns_t ne = next_err(p);
    if (ne < nx) nx = ne;
    if (nx > deadline) {
      block_until(deadline);
      ev("read: no byte");
      shape(0x3102);
      return 0;
    }
    block_until(nx);
  }
}
static ssize_t tcp_read(Port *p, uint8_t *buf, size_t n, bool nonblock) {
  if (n == 0) return 0;
  ns_t deadline = p->rcvto ? g_now + p->rcvto : NEVER;
  for (;;) {
    if (!p->rx.empty() && p->rx.front().at <= g_now) return (ssize_t)take(p, buf, n);
    if (int e = take_err(p)) { errno = e; ev("read fails (%d)", e); shape(0x3101); return -1; }
    if (p->fin_at <= g_now) { ev("read: closed by peer"); shape(0x3103); fault(F_FIN); return 0; }
    if (p->rst_at <= g_now) {
      if (p->rst_seen) { ev("read: end of file after reset"); return 0; }
      p->rst_seen = true;
      fault(F_RST);
      ev("read: reset by peer");
      shape(0x3104);
      errno = reset_errno();
      return -1;
    }
    if (nonblock) { errno = EAGAIN; return -1; }
    ns_t nx = p->rx.empty() ? NEVER : p->rx.front().at;
    if (p->fin_at < nx) nx = p->fin_at;
    if (p->rst_at < nx) nx = p->rst_at;
    ns_t ne = next_err(p);
    if (ne < nx) nx = ne;
    if (p->cfg_eintr && g_now < p->eintr_until && chance(p->eintr_rate, 100)) {
      ns_t lim = nx < deadline ? nx : deadline;
      if (lim >= NEVER) lim = g_now + SEC;
      block_until(g_now + (lim - g_now) / 4 * range(0, 3));
      fault(F_EINTR_READ);
      ev("read interrupted");
      errno = EINTR;
      return -1;
    }
    if (nx > deadline) {
      block_until(deadline);
      ev("read: timeout");
      shape(0x3102);
      errno = EAGAIN;
      return -1;
    }
    block_until(nx);
  }
}
static void check_buf(const char *what, const void *b, size_t n, bool writable) {
  (void)writable;
  if (n && __asan_region_is_poisoned((void *)b, n))
    fail("memory:io-buffer", "%s with a buffer of %zu bytes that is not all live memory", what, n);
}
static ssize_t any_read(int fd, void *buf, size_t n, bool nonblock) {
  seam("read");
  foreign("read", fd);
  check_buf("read", buf, n, true);
  auto it = g_fd.find(fd);
  if (it == g_fd.end()) { ev("read on closed descriptor %d", fd); errno = EBADF; return -1; }
  if (it->second.kind == D_FILE) {
    auto &d = it->second;
    size_t k = d.pos < d.file->size() ? d.file->size() - d.pos : 0;
    if (k > n) k = n;
    memcpy(buf, d.file->data() + d.pos, k);
    d.pos += k;
    return k;
  }
  Port *p = port_of(fd);
  if (!p) { errno = it->second.kind == D_SOCK ? ENOTCONN : EAGAIN; return -1; }
  if (it->second.acc == O_WRONLY) { ev("read on a descriptor for writing"); errno = EBADF; return -1; }
  p->nreads++;
  return p->kind == P_TTY ? tty_read(p, (uint8_t *)buf, n, nonblock) : tcp_read(p, (uint8_t *)buf, n, nonblock);
}
ssize_t sim_read(int fd, void *buf, size_t n) { return any_read(fd, buf, n, nb(fd)); }
ssize_t sim_recv(int fd, void *buf, size_t n, int flags) {
  return any_read(fd, buf, n, nb(fd) || (flags & MSG_DONTWAIT));
}

static ssize_t any_write(int fd, const void *buf, size_t n, bool nosignal) {
  seam("write");
  foreign("write", fd);
  check_buf("write", buf, n, false);
  auto it = g_fd.find(fd);
  if (it == g_fd.end()) { ev("write on closed descriptor %d", fd); errno = EBADF; return -1; }
  if (it->second.kind == D_STD) {
    if (fd == 2) { g_err.append((const char *)buf, n); return n; }
    size_t k = out_device((const char *)buf, n);
    return k || !n ? (ssize_t)k : -1;
  }
  Port *p = port_of(fd);
  if (!p) { errno = it->second.kind == D_SOCK ? ENOTCONN : EBADF; return -1; }
  if (it->second.acc == O_RDONLY) { ev("write on a descriptor for reading"); errno = EBADF; return -1; }
  p->nwrites++;
  size_t want = n;
  if (p->kind == P_TTY) {
    if (p->hup_at <= g_now) { ev("write: hung up"); errno = EIO; return -1; }
  } else {
    bool pipe = false;
    if (p->rst_at <= g_now) {
      if (!p->rst_seen) {
        p->rst_seen = true;
        fault(F_RST);
        ev("write: reset by peer");
        errno = reset_errno();
        return -1;
      }
      pipe = true;
    } else if (p->fin_at <= g_now && p->fin_reset) pipe = true;
    if (pipe) {
      ev("write: broken pipe%s", nosignal || sigpipe_ignored ? "" : " (SIGPIPE)");
      probe("tcp: write to a connection known to be broken");
      if (!nosignal && !sigpipe_ignored) {
        if (g_exit.armed) proc_exit(128 + SIGPIPE);
        fail("crash:SIGPIPE", "sending on a broken connection kills the process with SIGPIPE");
      }
      errno = EPIPE;
      return -1;
    }
    if (p->fin_at <= g_now && !p->half) p->fin_reset = true;
    if (p->stall_at <= g_now && p->stall_room < want) {
      fault(F_STALL);
      ns_t d = p->sndto ? g_now + p->sndto : NEVER;
      size_t room = p->stall_room;
      p->stall_room = 0;
      if (room) { Bytes part((const uint8_t *)buf, (const uint8_t *)buf + room); p->tx.push_back({g_now, g_now, part, false}); }
      block_until(d);
      ev("write: timeout, %zu of %zu accepted", room, want);
      if (room) return room;
      errno = EAGAIN;
      return -1;
    }
  }
  if (p->write_fault) {
    ssize_t k = p->write_fault(n);
    if (k < 0) {
      fault(F_WRITE_ERR);
      errno = (int)-k;
      ev("write fails (%d)", (int)-k);
      shape(0x3201);
      return -1;
    }
    if ((size_t)k < n) { fault(F_SHORT_WRITE); shape(0x3202); want = k; }
  }
  Bytes b((const uint8_t *)buf, (const uint8_t *)buf + want);
  ev_bytes("write", b.data(), b.size());
  ns_t start = g_now, end = g_now;
  if (p->kind == P_TTY) {
    long baud = 0;
    static const struct { long b; speed_t s; } tab[] = {{300, B300}, {600, B600}, {1200, B1200}, {2400, B2400},
      {4800, B4800}, {9600, B9600}, {19200, B19200}, {38400, B38400}};
    speed_t s = cfgetospeed(&p->tio);
    for (auto &e : tab) if (e.s == s) baud = e.b;
    if (p->tx_free > start) start = p->tx_free;
    end = start + (baud ? (ns_t)want * 11 * SEC / baud : 0);
    p->tx_free = end;
    const termios &t = p->tio;
    bool good = p->tio_set && baud == p->line_baud && (t.c_cflag & PARENB) && !(t.c_cflag & PARODD) &&
                !(t.c_cflag & CSTOPB) && (t.c_cflag & CSIZE) == CS8 && !(t.c_oflag & OPOST);
    p->tx.push_back({start, end, b, want == n});
    if (!good && (t.c_oflag & OPOST) && p->tio_set && baud == p->line_baud) {
      Bytes o;
      for (uint8_t c : b) {
        if (c == '\n' && (t.c_oflag & ONLCR)) o.push_back('\r');
        o.push_back(c);
      }
      b = o;
      good = true;
    }
    if (good && p->on_tx) p->on_tx(b, start, end);
    if (!good) probe("tty: line setting unreadable for meters");
  } else {
    p->tx.push_back({start, end, b, want == n});
    if (p->fin_at > g_now && p->on_tx) p->on_tx(b, start, end);
  }
  return want;
}
ssize_t sim_write(int fd, const void *buf, size_t n) { return any_write(fd, buf, n, false); }
ssize_t sim_send(int fd, const void *buf, size_t n, int flags) { return any_write(fd, buf, n, flags & MSG_NOSIGNAL); }

ssize_t sim_sendto(int fd, const void *buf, size_t n, int flags, const struct sockaddr *, socklen_t) { return sim_send(fd, buf, n, flags); }
ssize_t sim_recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *, socklen_t *) { return sim_recv(fd, buf, n, flags); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len);
  return sim_read(fd, nullptr, 0);
}
ssize_t sim_writev(int fd, const struct iovec *v, int c) {
  std::string s;
  for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
  return any_write(fd, s.data(), s.size(), false);
}

int sim_isatty(int fd) {
  seam("isatty");
  auto it = g_fd.find(fd);
  if (it == g_fd.end()) { errno = EBADF; return 0; }
  Port *p = port_of(fd);
  if (!p || p->kind != P_TTY) { errno = ENOTTY; return 0; }
  if (p->hup_at <= g_now) { fault(F_HANGUP); errno = EIO; return 0; }
  return 1;
}
int sim_tcgetattr(int fd, struct termios *t) {
  seam("tcgetattr");
  Port *p = port_of(fd);
  if (!p || p->kind != P_TTY) { errno = ENOTTY; return -1; }
  *t = p->tio;
  return 0;
}
int sim_tcsetattr(int fd, int act, const struct termios *t) {
  seam("tcsetattr");
  (void)act;
  foreign("tcsetattr", fd);
  Port *p = port_of(fd);
  if (g_fd.find(fd) == g_fd.end()) { errno = EBADF; return -1; }
  if (!p || p->kind != P_TTY) { errno = ENOTTY; return -1; }
  check_buf("tcsetattr", t, sizeof *t, false);
  if (p->hup_at <= g_now || (g_termios_fail && g_termios_fail())) { fault(F_TERMIOS_FAIL); ev("tcsetattr fails"); errno = EIO; return -1; }
  p->tio = *t;
  p->tio_set = true;
  ev("tcsetattr cflag %x iflag %x oflag %x lflag %x vmin %d vtime %d speed %d/%d", t->c_cflag, t->c_iflag, t->c_oflag,
     t->c_lflag, t->c_cc[VMIN], t->c_cc[VTIME], (int)cfgetispeed(t), (int)cfgetospeed(t));
  if (act == TCSAFLUSH) {
    size_t k = p->pending(g_now);
    p->rx.erase(p->rx.begin(), p->rx.begin() + k);
  }
  return 0;
}
int sim_tcdrain(int fd) {
  seam("tcdrain");
  foreign("tcdrain", fd);
  Port *p = port_of(fd);
  if (!p || p->kind != P_TTY) { errno = ENOTTY; return -1; }
  if (p->hup_at <= g_now) { errno = EIO; return -1; }
  if (p->tx_free > g_now) block_until(p->tx_free);
  return 0;
}
int sim_tcflush(int fd, int q) {
  seam("tcflush");
  Port *p = port_of(fd);
  if (!p || p->kind != P_TTY) { errno = ENOTTY; return -1; }
  if (q == TCIFLUSH || q == TCIOFLUSH) {
    size_t k = p->pending(g_now);
    p->rx.erase(p->rx.begin(), p->rx.begin() + k);
  }
  return 0;
}
int sim_tcsendbreak(int, int) { step(); return 0; }
int sim_cfsetispeed(struct termios *t, speed_t s) {
  step();
  return cfsetispeed(t, s);
}
int sim_cfsetospeed(struct termios *t, speed_t s) {
  step();
  return cfsetospeed(t, s);
}
int sim_cfsetspeed(struct termios *t, speed_t s) {
  step();
  return cfsetspeed(t, s);
}
void sim_cfmakeraw(struct termios *t) { cfmakeraw(t); }
int sim_ioctl(int fd, unsigned long, ...) {
  seam("ioctl");
  if (!g_fd.count(fd)) { errno = EBADF; return -1; }
  errno = ENOTTY;
  return -1;
}
int sim_fcntl(int fd, int cmd, ...) {
  step();
  if (!g_fd.count(fd)) { errno = EBADF; return -1; }
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  if (cmd == F_GETFL) return nb(fd) ? O_NONBLOCK | O_RDWR : O_RDWR;
  if (cmd == F_SETFL) { nb(fd) = a & O_NONBLOCK; return 0; }
  return 0;
}
int sim_fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return sim_fcntl(fd, cmd, a);
}

// ------------------------------------------------------------------ waiting
static ns_t ready_at(Port *p) {
  ns_t t = NEVER;
  if (!p->rx.empty()) t = p->rx.front().at;
  for (ns_t x : {p->fin_at, p->rst_at, p->hup_at, next_err(p)}) if (x < t) t = x;
  return t;
}
static int do_poll(struct pollfd *f, nfds_t n, ns_t timeout) {
  seam("poll");
  ns_t deadline = timeout < 0 ? NEVER : g_now + timeout;
  for (;;) {
    int r = 0;
    ns_t nx = NEVER;
    for (nfds_t i = 0; i < n; i++) {
      f[i].revents = 0;
      if (f[i].fd < 0) continue;
      Port *p = port_of(f[i].fd);
      if (!p) { f[i].revents = POLLNVAL; r++; continue; }
      ns_t t = ready_at(p);
      if ((f[i].events & POLLIN) && t <= g_now) f[i].revents |= POLLIN;
      if ((f[i].events & POLLOUT) && !(p->stall_at <= g_now)) f[i].revents |= POLLOUT;
      if (f[i].revents) r++;
      if (t < nx) nx = t;
    }
    if (r) return r;
    if (deadline <= g_now) return 0;
    block_until(nx < deadline ? nx : deadline);
  }
}
int sim_poll(struct pollfd *f, nfds_t n, int ms) { return do_poll(f, n, ms < 0 ? -1 : (ns_t)ms * MS); }
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  std::vector<pollfd> v;
  for (int i = 0; i < n; i++) {
    short evs = 0;
    if (r && FD_ISSET(i, r)) evs |= POLLIN;
    if (w && FD_ISSET(i, w)) evs |= POLLOUT;
    if (evs) v.push_back({i, evs, 0});
  }
  ns_t t = tv ? (ns_t)tv->tv_sec * SEC + tv->tv_usec * US : -1;
  int k = do_poll(v.data(), v.size(), t);
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  for (auto &p : v) {
    if (p.revents & POLLNVAL) { errno = EBADF; return -1; }
    if (r && (p.revents & POLLIN)) FD_SET(p.fd, r);
    if (w && (p.revents & POLLOUT)) FD_SET(p.fd, w);
  }
  return k;
}
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *) { return do_poll(f, n, ts ? (ns_t)ts->tv_sec * SEC + ts->tv_nsec : -1); }
int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *) {
  struct timeval tv;
  if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; }
  return sim_select(n, r, w, e, ts ? &tv : nullptr);
}
int sim_usleep(unsigned us) { seam("usleep"); block_until(g_now + (ns_t)us * US); return 0; }
unsigned sim_sleep(unsigned s) { seam("sleep"); block_until(g_now + (ns_t)s * SEC); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) {
  seam("nanosleep");
  block_until(g_now + (ns_t)t->tv_sec * SEC + t->tv_nsec);
  return 0;
}

// ------------------------------------------------------------------ sockets
int g_socket_family;
struct SimAddr { struct addrinfo ai; union { struct sockaddr sa; struct sockaddr_in s4; struct sockaddr_in6 s6; }; };
int sim_getaddrinfo(const char *host, const char *port, const struct addrinfo *h, struct addrinfo **out) {
  seam("getaddrinfo");
  static const struct addrinfo none = {};
  if (!h) h = &none;
  std::vector<TcpTarget> v;
  int r = g_resolve ? g_resolve(host, port, v) : EAI_NONAME;
  if (!r && h->ai_family != AF_UNSPEC && h->ai_family != AF_INET && h->ai_family != AF_INET6) r = EAI_FAMILY;
  if (!r && h->ai_socktype && h->ai_socktype != SOCK_STREAM && h->ai_socktype != SOCK_DGRAM) r = EAI_SERVICE;
  if (!r && h->ai_flags & ~(AI_PASSIVE | AI_CANONNAME | AI_NUMERICHOST | AI_NUMERICSERV | AI_V4MAPPED | AI_ALL | AI_ADDRCONFIG)) r = EAI_BADFLAGS;
  if (!r && h->ai_protocol && h->ai_protocol != IPPROTO_TCP && h->ai_protocol != IPPROTO_UDP) r = EAI_SERVICE;
  if (!r && (h->ai_flags & AI_NUMERICHOST)) r = EAI_NONAME;     // these hosts have names
  if (!r && (!port || !*port)) port = "0";
  struct addrinfo *head = nullptr, **t = &head;
  if (!r) {
    if (oom(sizeof(SimAddr))) return EAI_MEMORY;
    for (auto &x : v) {
      if (h->ai_family == (x.v6 ? AF_INET : AF_INET6)) continue;
      g_targets.push_back({x.refuse, x.port, x.v6, x.delay});
      for (int type : {SOCK_STREAM, SOCK_DGRAM}) {
        if (h->ai_socktype && h->ai_socktype != type) continue;
        if (h->ai_protocol && h->ai_protocol != (type == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP)) continue;
        SimAddr *a = (SimAddr *)track(calloc(1, sizeof(SimAddr)), sizeof(SimAddr));
        uint32_t n = (uint32_t)g_targets.size() - 1;
        a->ai.ai_family = x.v6 ? AF_INET6 : AF_INET;
        a->sa.sa_family = (sa_family_t)a->ai.ai_family;
        if (x.v6) { a->s6.sin6_port = htons((uint16_t)atoi(port)); memcpy(&a->s6.sin6_addr, &n, 4); }
        else { a->s4.sin_port = htons((uint16_t)atoi(port)); memcpy(&a->s4.sin_addr, &n, 4); }
        a->ai.ai_socktype = type;
        a->ai.ai_protocol = type == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP;
        a->ai.ai_addr = &a->sa;
        a->ai.ai_addrlen = x.v6 ? sizeof a->s6 : sizeof a->s4;
        *t = &a->ai;
        t = &a->ai.ai_next;
      }
    }
    if (!head) r = EAI_NONAME;
  }
  if (r) { fault(F_RESOLVE_FAIL); ev("getaddrinfo fails %d", r); return r; }
  *out = head;
  ev("getaddrinfo %s %s: %zu", host, port, v.size());
  return 0;
}
void sim_freeaddrinfo(struct addrinfo *a) {
  while (a) {
    struct addrinfo *n = a->ai_next;
    sim_free(a);
    a = n;
  }
}
const char *sim_gai_strerror(int) { return "simulated resolver failure"; }
int sim_socket(int family, int type, int proto) {
  seam("socket");
  int t = type & ~(SOCK_CLOEXEC | SOCK_NONBLOCK);
  if (family != AF_INET && family != AF_INET6) { ev("socket fails: family %d", family); errno = EAFNOSUPPORT; return -1; }
  if ((t != SOCK_STREAM && t != SOCK_DGRAM) || (proto && proto != (t == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP))) {
    ev("socket fails: type %d protocol %d", t, proto);
    errno = EPROTONOSUPPORT;
    return -1;
  }
  g_socket_family = family;
  if (g_socket_fail) if (int e = g_socket_fail()) { fault(F_SOCKET_FAIL); ev("socket fails"); errno = e; return -1; }
  int fd = new_fd({D_SOCK, nullptr, 0, nullptr, true, O_RDWR, family, t});
  nb(fd) = type & SOCK_NONBLOCK;
  ev("socket = %d", fd);
  return fd;
}
int sim_connect(int fd, const struct sockaddr *sa, socklen_t n) {
  seam("connect");
  auto it = g_fd.find(fd);
  if (it == g_fd.end()) { errno = EBADF; return -1; }
  if (it->second.kind != D_SOCK) { errno = it->second.kind == D_PORT ? EISCONN : ENOTSOCK; return -1; }
  check_buf("connect", sa, n, false);
  if (n < sizeof(sa_family_t)) { errno = EINVAL; return -1; }
  if (sa->sa_family != it->second.family) { ev("connect %d: family", fd); errno = EAFNOSUPPORT; return -1; }
  if (n < (sa->sa_family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in))) { errno = EINVAL; return -1; }
  uint32_t k = 0;
  memcpy(&k, sa->sa_family == AF_INET6 ? (void *)&((struct sockaddr_in6 *)sa)->sin6_addr : (void *)&((struct sockaddr_in *)sa)->sin_addr, 4);
  Port *p = nullptr;
  if (it->second.type == SOCK_DGRAM) {                          // succeeds whoever is there, and nobody answers
    g_dead.emplace_back();
    p = &g_dead.back();
    p->kind = P_TCP;
    ev("connect %d: datagrams", fd);
  } else {
    SimTarget x = k < g_targets.size() ? g_targets[k] : SimTarget{true, nullptr, false, 0};
    if (x.delay) {
      ns_t lim = it->second.sndto;
      if (lim && lim < x.delay) { block_until(g_now + lim); errno = EINPROGRESS; ev("connect %d: timeout", fd); return -1; }
      block_until(g_now + x.delay);
    }
    if (x.refuse || !x.port || x.v6 != (sa->sa_family == AF_INET6)) { fault(F_CONNECT_FAIL); ev("connect %d refused", fd); errno = x.delay ? ETIMEDOUT : ECONNREFUSED; return -1; }
    p = x.port;
    ev("connect %d", fd);
  }
  it = g_fd.find(fd);
  if (it == g_fd.end()) { errno = EBADF; return -1; }
  it->second.kind = D_PORT;
  it->second.port = p;
  p->fd = fd;
  p->rcvto = it->second.rcvto;                                  // a new connection has no timeouts but its own
  p->sndto = it->second.sndto;
  return 0;
}
int sim_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t n) {
  seam("setsockopt");
  foreign("setsockopt", fd);
  auto it = g_fd.find(fd);
  if (it == g_fd.end()) { errno = EBADF; return -1; }
  Port *p = port_of(fd);
  if (it->second.kind != D_SOCK && (!p || p->kind != P_TCP)) { errno = ENOTSOCK; return -1; }
  if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    if (n < sizeof(struct timeval)) { errno = EINVAL; return -1; }
    const struct timeval *tv = (const struct timeval *)v;
    if (g_sockopt_fail && g_sockopt_fail()) { fault(F_SOCKOPT); ev("setsockopt fails"); errno = ENOBUFS; return -1; }
    if (tv->tv_usec < 0 || tv->tv_usec >= 1000000) { errno = EDOM; return -1; }
    ns_t t = (ns_t)tv->tv_sec * SEC + (ns_t)tv->tv_usec * US;
    bool rcv = opt == SO_RCVTIMEO;
    (rcv ? it->second.rcvto : it->second.sndto) = t;
    if (p) (rcv ? p->rcvto : p->sndto) = t;
    ev("setsockopt %s %.6f", rcv ? "rcvtimeo" : "sndtimeo", t / 1e9);
  }
  return 0;
}
int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *n) {
  seam("getsockopt");
  foreign("getsockopt", fd);
  auto it = g_fd.find(fd);
  if (it == g_fd.end()) { errno = EBADF; return -1; }
  Port *p = port_of(fd);
  if (it->second.kind != D_SOCK && (!p || p->kind != P_TCP)) { errno = ENOTSOCK; return -1; }
  if (!v || !n) { errno = EFAULT; return -1; }
  if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    if (*n < sizeof(struct timeval)) { errno = EINVAL; return -1; }
    ns_t t = opt == SO_RCVTIMEO ? it->second.rcvto : it->second.sndto;
    struct timeval tv = {(time_t)(t / SEC), (suseconds_t)(t % SEC / US)};
    memcpy(v, &tv, sizeof tv);
    *n = sizeof tv;
    return 0;
  }
  int x = lvl == SOL_SOCKET && opt == SO_TYPE ? SOCK_STREAM : 0;
  if (*n > sizeof x) *n = sizeof x;
  memcpy(v, &x, *n);
  return 0;
}
int sim_shutdown(int, int) { step(); return 0; }
void (*sim_signal(int s, void (*h)(int)))(int) {
  if (s == SIGPIPE) sigpipe_ignored = h == SIG_IGN;
  return SIG_DFL;
}
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *) {
  if (s == SIGPIPE && a) sigpipe_ignored = a->sa_handler == SIG_IGN;
  return 0;
}

// ------------------------------------------------------------------ clocks
time_t sim_time(time_t *t) {
  step();
  time_t v = (time_t)wall_sec();
  if (t) *t = v;
  return v;
}
int sim_gettimeofday(struct timeval *tv, void *) {
  step();
  ns_t w = g_wall0 + g_now;
  tv->tv_sec = w / SEC;
  tv->tv_usec = (w % SEC) / US;
  return 0;
}
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
  step();
  ns_t w = c == CLOCK_REALTIME ? g_wall0 + g_now : g_now + 1000 * SEC;
  ts->tv_sec = w / SEC;
  ts->tv_nsec = w % SEC;
  return 0;
}

// ------------------------------------------------------------------ stdio
static std::string *stream(FILE *f) {
  if (f == stdout) return &g_out;
  if (f == stderr) return &g_err;
  return nullptr;
}
static void cap(std::string *s) {
  step();
  if (s->size() > (8u << 20)) fail("hang:output", "more than 8 MB of output");
}
static bool put(FILE *f, const char *b, size_t n) {
  std::string *s = stream(f);
  if (!s) return true;
  cap(s);
  if (s == &g_out) return out_put(b, n);
  s->append(b, n);
  return true;
}
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) {
  char small[512];
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(small, sizeof small, fmt, ap);
  bool ok = true;
  if (n >= 0) {
    if ((size_t)n < sizeof small) ok = put(f, small, n);
    else {
      std::vector<char> b(n + 1);
      vsnprintf(b.data(), n + 1, fmt, ap2);
      ok = put(f, b.data(), n);
    }
  }
  va_end(ap2);
  return ok ? n : -1;
}
int sim_fprintf(FILE *f, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int n = sim_vfprintf(f, fmt, ap);
  va_end(ap);
  return n;
}
int sim_printf(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int n = sim_vfprintf(stdout, fmt, ap);
  va_end(ap);
  return n;
}
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(stdout, fmt, ap); }
int sim_dprintf(int fd, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char *t = nullptr;
  int n = vasprintf(&t, fmt, ap);
  va_end(ap);
  if (n < 0) return n;
  cap(fd == 2 ? &g_err : &g_out);
  if (fd == 2) g_err.append(t, n);
  else if ((int)out_device(t, n) != n) n = -1;
  free(t);
  return n;
}
int sim_fputs(const char *t, FILE *f) { return put(f, t, strlen(t)) ? 1 : EOF; }
int sim_puts(const char *s) { std::string t = std::string(s) + "\n"; return put(stdout, t.data(), t.size()) ? 1 : EOF; }
int sim_fputc(int c, FILE *f) { char b = (char)c; return put(f, &b, 1) ? (unsigned char)c : EOF; }
int sim_putchar(int c) { return sim_fputc(c, stdout); }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim__IO_putc(int c, FILE *f) { return sim_fputc(c, f); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) {
  check_buf("fwrite", p, a * b, false);
  return put(f, (const char *)p, a * b) ? b : 0;
}
int sim_fflush(FILE *f) { return (!f || f == stdout) && !out_flush() ? EOF : 0; }
void sim_perror(const char *s) { g_err += s ? s : ""; g_err += ": "; g_err += strerror(errno); g_err += "\n"; }
struct SimFile { std::string data; size_t pos = 0; bool eof = false; size_t bad_at = SIZE_MAX; bool bad = false; };
static size_t bad_at(const std::string &n) { auto it = g_file_bad.find(n); return it == g_file_bad.end() ? SIZE_MAX : it->second; }
int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *) {
  seam("nanosleep");
  struct timespec now;
  ns_t d = (ns_t)t->tv_sec * SEC + t->tv_nsec;
  if (flags & TIMER_ABSTIME) { sim_clock_gettime(c, &now); d -= (ns_t)now.tv_sec * SEC + now.tv_nsec; }
  if (d > 0) block_until(g_now + d);
  return 0;
}
static SimFile the_stdin;                               // holds what the world calls the file "-"
static std::set<SimFile *> open_files;
static SimFile *sim_file(FILE *f) {
  if (open_files.count((SimFile *)f)) return (SimFile *)f;
  if (the_stdin.data.empty() && g_files.count("-")) { the_stdin.data = g_files["-"]; the_stdin.bad_at = bad_at("-"); }
  return &the_stdin;
}
FILE *sim_fopen(const char *path, const char *) {
  seam("fopen");
  auto it = g_files.find(path);
  if (it == g_files.end()) { errno = ENOENT; return nullptr; }
  SimFile *f = new SimFile{it->second, 0, false};
  f->bad_at = bad_at(path);
  open_files.insert(f);
  return (FILE *)f;
}
FILE *sim_fopen64(const char *path, const char *m) { return sim_fopen(path, m); }
size_t sim_fread(void *b, size_t a, size_t n, FILE *f) {
  seam("fread");
  check_buf("fread", b, a * n, true);
  SimFile *s = sim_file(f);
  size_t k = s->data.size() - s->pos;
  if (k > a * n) k = a * n;
  if (s->pos + k > s->bad_at) {                          // the medium cannot be read there
    k = s->bad_at > s->pos ? s->bad_at - s->pos : 0;
    memcpy(b, s->data.data() + s->pos, k);
    s->pos += k;
    s->bad = true;
    fault(F_FILE);
    ev("a file cannot be read beyond %zu bytes", s->bad_at);
    errno = EIO;
    return a ? k / a : 0;
  }
  memcpy(b, s->data.data() + s->pos, k);
  s->pos += k;
  if (k < a * n) s->eof = true;
  return a ? k / a : 0;
}
void sim_clearerr(FILE *f) { if (f == stdout) out_bad = false; else if (f != stderr) sim_file(f)->eof = sim_file(f)->bad = false; }
int sim_fseek(FILE *f, long off, int how) {
  SimFile *s = sim_file(f);
  if (s == &the_stdin) { errno = ESPIPE; return -1; }
  long at = off + (how == SEEK_CUR ? (long)s->pos : how == SEEK_END ? (long)s->data.size() : 0);
  if (at < 0) { errno = EINVAL; return -1; }
  s->pos = (size_t)at < s->data.size() ? (size_t)at : s->data.size();
  s->eof = false;
  return 0;
}
long sim_ftell(FILE *f) { return (long)sim_file(f)->pos; }
void sim_rewind(FILE *f) { sim_fseek(f, 0, SEEK_SET); }
int sim_ungetc(int c, FILE *f) {
  SimFile *s = sim_file(f);
  if (c == EOF || !s->pos) return EOF;
  s->data[--s->pos] = (char)c;
  s->eof = false;
  return c;
}
int sim_setvbuf(FILE *f, char *, int how, size_t) { if (f == stdout) out_mode = how; return 0; }
void sim_setbuf(FILE *f, char *b) { if (f == stdout) out_mode = b ? _IOFBF : _IONBF; }
void sim_setlinebuf(FILE *f) { if (f == stdout) out_mode = _IOLBF; }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) {
  size_t k = 0;
  for (;;) {
    SimFile *s = sim_file(f);
    if (!*l || k + 2 > *n) {
      size_t want = *n < 60 ? 120 : *n * 2;
      char *q = (char *)sim_realloc(*l, want);
      if (!q) return -1;
      *l = q;
      *n = want;
    }
    if (s->pos >= s->bad_at) { s->bad = true; fault(F_FILE); errno = EIO; return -1; }
    if (s->pos >= s->data.size()) { s->eof = true; break; }
    int c = (unsigned char)s->data[s->pos++];
    (*l)[k++] = (char)c;
    if (c == d) break;
  }
  (*l)[k] = 0;
  return k ? (ssize_t)k : -1;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
int sim_fgetc(FILE *f) { unsigned char c; return sim_fread(&c, 1, 1, f) == 1 ? c : EOF; }
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim__IO_getc(FILE *f) { return sim_fgetc(f); }
int sim_getchar(void) { return sim_fgetc(stdin); }
char *sim_fgets(char *b, int n, FILE *f) {
  int i = 0;
  while (i + 1 < n) { int c = sim_fgetc(f); if (c == EOF) break; b[i++] = (char)c; if (c == '\n') break; }
  if (!i) return nullptr;
  b[i] = 0;
  return b;
}
int sim_fclose(FILE *f) {
  seam("fclose");
  if (f == stdout) { bool ok = out_flush(); return ok ? 0 : EOF; }
  if (f == stderr) return 0;
  if (open_files.erase((SimFile *)f)) delete (SimFile *)f;
  return 0;
}
int sim_feof(FILE *f) {
  SimFile *s = sim_file(f);
  return s->eof;
}
int sim_ferror(FILE *f) { return f == stdout ? out_bad : f == stderr ? 0 : sim_file(f)->bad; }

[[noreturn]] void sim_exit(int c) { out_flush(); proc_exit(c & 0xff); }
[[noreturn]] void sim__exit(int c) { proc_exit(c & 0xff); }
[[noreturn]] void sim_abort() { fail("crash:abort", "abort() called"); }
[[noreturn]] void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) {
  const char *s = strrchr(f, '/');
  fail("crash:assert", "assertion %s failed at %s:%u", e, s ? s + 1 : f, l);
}
[[noreturn]] void sim___stack_chk_fail() { fail("crash:stack", "stack smashed"); }
}

// array bounds (-fsanitize=bounds)
extern "C" void __ubsan_handle_out_of_bounds(void *data, uintptr_t index) {
  struct Loc { const char *file; uint32_t line, col; } *l = (Loc *)data;
  const char *s = l->file ? strrchr(l->file, '/') : nullptr;
  fail("memory:bounds", "index %lld beyond an array at %s:%u", (long long)index, s ? s + 1 : l->file ? l->file : "?", l->line);
}
extern "C" void __ubsan_handle_out_of_bounds_abort(void *data, uintptr_t index) { __ubsan_handle_out_of_bounds(data, index); }

static void forget_files() {
  for (auto f : open_files) delete f;
  open_files.clear();
  the_stdin = SimFile();
}
size_t heap_live() { return heap.size(); }
void heap_forget() { heap.clear(); heap_bytes = 0; }
void heap_drop() {
  for (auto &h : heap) free(h.first);
  heap_forget();
}
std::string heap_report() {
  std::multiset<size_t> s;
  for (auto &h : heap) s.insert(h.second);
  std::string r;
  int k = 0;
  for (auto v : s) { if (k++ > 8) break; r += strf(" %zu", v); }
  return r;
}

// ------------------------------------------------------------------ static data of the library and tools
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
static std::vector<char> img_data, img_bss;
static void raw_copy(char *d, const char *s, size_t n) {
  for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = s[i];
}
void lib_statics_init() {
  img_data.assign(__stop_libdata - __start_libdata, 0);
  img_bss.assign(__stop_libbss - __start_libbss, 0);
  raw_copy(img_data.data(), __start_libdata, img_data.size());
  raw_copy(img_bss.data(), __start_libbss, img_bss.size());
}
void lib_statics_restore() {
  raw_copy(__start_libdata, img_data.data(), img_data.size());
  raw_copy(__start_libbss, img_bss.data(), img_bss.size());
}
size_t lib_statics_size() { return img_data.size() + img_bss.size(); }
