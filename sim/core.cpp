#include "core.h"
#include "slot.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sanitizer/common_interface_defs.h>

const char *fault_names[] = {
#define X(a, b) b,
    FAULT_LIST(X)
#undef X
};

Slot *g_slot;
bool g_verbose = false;
ns_t g_now = 0, g_wall0 = 0;
std::function<void()> g_block_hook;
const char *g_prop = "";
bool g_thorough = false;

// ------------------------------------------------------------------ choices
struct Fiber;
static std::vector<Fiber> *fibers;
static int cur = -1;
static uint64_t rs[4];
static bool replaying = false;
static std::vector<uint32_t> rep;
static size_t rep_pos = 0;
static size_t tw_pos = 0, tw_end = 0;
static bool tw_on = false;

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd_of(uint64_t *q);
static uint64_t rnd() { return rnd_of(rs); }
void core_seed(uint64_t seed) {
  replaying = false;
  for (auto &r : rs) r = splitmix(seed);
}
void core_replay(const std::vector<uint32_t> &v) { replaying = true; rep = v; rep_pos = 0; }

static Stream *stream;
void stream_init(Stream &s, uint32_t seed) {
  s.seed = seed;
  uint64_t x = seed;
  for (auto &r : s.s) r = splitmix(x);
}
Stream *stream_use(Stream *s) { Stream *o = stream; stream = s; return o; }
static uint64_t rnd_of(uint64_t *q) {
  uint64_t r = rotl(q[1] * 5, 7) * 9, t = q[1] << 17;
  q[2] ^= q[0]; q[3] ^= q[1]; q[1] ^= q[2]; q[0] ^= q[3]; q[2] ^= t; q[3] = rotl(q[3], 45);
  return r;
}
uint32_t choose(uint32_t n) {
  uint32_t v = 0;
  if (n <= 1) return 0;
  if (stream) return stream->seed ? (uint32_t)((rnd_of(stream->s) >> 32) * (uint64_t)n >> 32) : 0;
  if (tw_on) {
    v = tw_pos < tw_end ? g_slot->ch[tw_pos++] : 0;
    if (v >= n) v = n - 1;
    return v;
  }
  if (replaying) {
    v = rep_pos < rep.size() ? rep[rep_pos] : 0;
    rep_pos++;
    if (v >= n) v = n - 1;
  } else {
    v = (uint32_t)((rnd() >> 32) * (uint64_t)n >> 32);
  }
  if (g_slot->nch < MAXCH) g_slot->ch[g_slot->nch++] = v;
  else if (!replaying) { g_slot->overflow = 1; return 0; }
  return v;
}
bool chance(uint32_t num, uint32_t den) {
  if (num == 0) return false;
  return choose(den) >= den - num;
}
int64_t range(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  return lo + (int64_t)choose((uint32_t)(hi - lo + 1));
}
size_t twin_mark() { return g_slot->nch; }
void twin_replay(size_t a, size_t b) { tw_on = true; tw_pos = a; tw_end = b; }
void twin_done() { tw_on = false; }

// ------------------------------------------------------------------ trace
uint64_t fnv(uint64_t h, const void *p, size_t n) {
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}
std::string strf(const char *fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
std::string hex(const uint8_t *p, size_t n) {
  static const char *d = "0123456789ABCDEF";
  std::string s;
  for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  return s;
}
void ev(const char *fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  g_slot->hash = fnv(g_slot->hash, b, n);
  g_slot->hash = fnv(g_slot->hash, &g_now, sizeof g_now);
  if (g_verbose) printf("%12.6f %s\n", g_now / 1e9, b);
}
void ev_bytes(const char *what, const uint8_t *p, size_t n) {
  g_slot->hash = fnv(g_slot->hash, what, strlen(what));
  g_slot->hash = fnv(g_slot->hash, p, n);
  g_slot->hash = fnv(g_slot->hash, &g_now, sizeof g_now);
  if (g_verbose) printf("%12.6f %s %s\n", g_now / 1e9, what, hex(p, n).c_str());
}
void shape(uint32_t x) { g_slot->shape = fnv(g_slot->shape, &x, sizeof x); }
void fault(Fault f) {
  g_slot->faults[f]++;
  shape(0x1000 + f);
  if (g_verbose) printf("%12.6f fault %s\n", g_now / 1e9, fault_names[f]);
}
uint32_t fault_count(Fault f) { return g_slot->faults[f]; }
uint32_t faults_total() {
  uint32_t n = 0;
  for (auto f : g_slot->faults) n += f;
  return n;
}
void probe(const char *name) {
  for (auto &p : g_slot->probes) {
    if (p.name == name) { p.n++; return; }
    if (!p.name) { p.name = name; p.n = 1; return; }
  }
}
void core_clean() { tw_on = false; stream = nullptr; cur = -1; fibers = nullptr; }
void core_finish(int status) {
  g_slot->simtime = g_now;
  g_slot->status = status;
}
void fail(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  snprintf(g_slot->cls, sizeof g_slot->cls, "%s", cls);
  vsnprintf(g_slot->msg, sizeof g_slot->msg, fmt, ap);
  va_end(ap);
  core_finish(ST_VIOLATION);
  if (g_verbose) { printf("%12.6f VIOLATED %s: %s\n", g_now / 1e9, cls, g_slot->msg); fflush(stdout); }
  _exit(3);
}
void discard(const char *why) {
  snprintf(g_slot->msg, sizeof g_slot->msg, "%s", why);
  core_finish(ST_DISCARD);
  if (g_verbose) { printf("discarded: %s\n", why); fflush(stdout); }
  _exit(4);
}
void step() {
  if (++g_slot->steps > 400000) fail("hang:calls", "more than 400000 calls into the operating system in one run");
}

// ------------------------------------------------------------------ fibers
struct Fiber {
  ucontext_t ctx;
  void *stack; size_t size;
  void *fake = nullptr;
  std::function<void()> body;
  bool done = false, started = false;
  ns_t wake = 0;
  Stream *st = nullptr;
};
static ucontext_t main_ctx;
static void *main_fake;
static const void *main_stack; static size_t main_size;

int current_fiber() { return cur; }

static void to_main() {
  Fiber &f = (*fibers)[cur];
  __sanitizer_start_switch_fiber(f.done ? nullptr : &f.fake, main_stack, main_size);
  swapcontext(&f.ctx, &main_ctx);
  __sanitizer_finish_switch_fiber(f.fake, nullptr, nullptr);
}
static void fiber_main() {
  __sanitizer_finish_switch_fiber(nullptr, &main_stack, &main_size);
  Fiber &f = (*fibers)[cur];
  f.body();
  f.done = true;
  to_main();
}
void block_until(ns_t t) {
  if (g_block_hook) g_block_hook();
  if (t >= NEVER) fail("hang:forever", "a call waits for ever");
  if (cur < 0) {
    if (t > g_now) g_now = t;
    return;
  }
  (*fibers)[cur].wake = t;
  to_main();
}
void run_fibers(std::vector<std::function<void()>> bodies) {
  std::vector<Fiber> fs(bodies.size());
  fibers = &fs;
  for (size_t i = 0; i < fs.size(); i++) {
    fs[i].body = bodies[i];
    fs[i].size = 512 * 1024;
    fs[i].stack = mmap(nullptr, fs[i].size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    getcontext(&fs[i].ctx);
    fs[i].ctx.uc_stack.ss_sp = fs[i].stack;
    fs[i].ctx.uc_stack.ss_size = fs[i].size;
    fs[i].ctx.uc_link = nullptr;
    makecontext(&fs[i].ctx, fiber_main, 0);
    fs[i].wake = g_now;
  }
  int last = -1;
  for (;;) {
    // runnable now; else the earliest wake time(s)
    ns_t first = NEVER;
    for (auto &f : fs) if (!f.done && f.wake < first) first = f.wake;
    if (first == NEVER) break;
    if (first > g_now) g_now = first;
    std::vector<int> r;
    for (size_t i = 0; i < fs.size(); i++) if (!fs[i].done && fs[i].wake <= g_now) r.push_back((int)i);
    cur = r[choose((uint32_t)r.size())];
    if (cur != last && last >= 0) { fault(F_SWITCH); shape(0x2000 + cur); ev("run task %d", cur); }
    last = cur;
    Fiber &f = fs[cur];
    Stream *keep = stream_use(f.st);
    __sanitizer_start_switch_fiber(&main_fake, f.stack, f.size);
    swapcontext(&main_ctx, &f.ctx);
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
    f.st = stream_use(keep);
    cur = -1;
  }
  fibers = nullptr;
}
