// Deterministic simulation core: choices, trace, verdicts, simulated time, fibers.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <string>
#include <vector>

typedef int64_t ns_t;
constexpr ns_t US = 1000, MS = 1000000, SEC = 1000000000;
constexpr ns_t NEVER = INT64_MAX / 4;
typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- fault kinds
#define FAULT_LIST(X) \
  X(DROP_REQ, "request_lost") X(CORRUPT_REQ, "request_damaged") X(DROP_REP, "reply_lost") \
  X(CORRUPT_REP, "reply_damaged") X(TRUNC_REP, "reply_truncated") X(DUP_REP, "reply_duplicated") \
  X(LATE_REP, "reply_late") X(NOISE_PRE, "noise_before_reply") X(NOISE_POST, "noise_after_reply") \
  X(STRAY_ACK, "stray_acknowledge") X(ECHO, "echo") X(SEGMENT, "segmented_delivery") X(GAP, "pause_in_reply") \
  X(SLOW_REPLY, "slow_reply") X(SHORT_READ, "short_read") X(EINTR_READ, "read_interrupted") \
  X(SHORT_WRITE, "short_write") X(WRITE_ERR, "write_error") X(READ_ERR, "read_error") X(FIN, "peer_close") \
  X(RST, "peer_reset") X(STALL, "peer_stalled") X(CONNECT_FAIL, "connect_failed") X(SOCKET_FAIL, "socket_failed") \
  X(RESOLVE_FAIL, "resolve_failed") X(OPEN_FAIL, "open_failed") X(TERMIOS_FAIL, "termios_failed") X(SOCKOPT, "socket_option_failed") \
  X(HANGUP, "tty_hangup") X(OOM, "allocation_failed") X(WALL_STEP, "wall_clock_step") X(CRASH, "process_crash") X(DISK, "output_full") X(FILE, "file_read_error") \
  X(COLL_GARBLE, "answers_garbled") X(COLL_SEQ, "answers_in_sequence") X(COLL_MERGE, "answers_merged") \
  X(SWITCH, "task_switch") X(STALE_STATE, "stale_meter_state") X(STALE_RX, "stale_input") X(SILENT, "meter_silent") \
  X(JUNK, "hostile_bytes") X(APP_ERROR, "application_error")
enum Fault {
#define X(a, b) F_##a,
  FAULT_LIST(X)
#undef X
  N_FAULTS
};
extern const char *fault_names[];

// ---------------------------------------------------------------- choices
uint32_t choose(uint32_t n);                 // 0..n-1, 0 is the benign one
bool chance(uint32_t num, uint32_t den);     // false is benign
int64_t range(int64_t lo, int64_t hi);       // lo is benign
template <class T> const T &pick(const std::vector<T> &v) { return v[choose((uint32_t)v.size())]; }
struct Stream { uint32_t seed = 0; uint64_t s[4] = {0, 0, 0, 0}; };
void stream_init(Stream &s, uint32_t seed);  // seed 0: every choice is the benign one
Stream *stream_use(Stream *s);               // choices come from s (nullptr: recorded ones); returns the one before
size_t twin_mark();                          // start of a segment of choices
void twin_replay(size_t mark, size_t end);   // draw the same choices again from [mark,end)
void twin_done();

// ---------------------------------------------------------------- trace and verdict
extern bool g_verbose;
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_bytes(const char *what, const uint8_t *p, size_t n);
void shape(uint32_t x);                      // coarse history hash
void fault(Fault f);                         // a fault fired
uint32_t fault_count(Fault f);
uint32_t faults_total();
void probe(const char *name);                // a rare condition was reached
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *why);  // the run tests nothing
#define REQUIRE(c, cls, ...) do { if (!(c)) fail(cls, __VA_ARGS__); } while (0)
void step();                                 // one seam call
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const uint8_t *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
uint64_t fnv(uint64_t h, const void *p, size_t n);

// ---------------------------------------------------------------- time
extern ns_t g_now;                           // simulated monotonic time
extern ns_t g_wall0;                         // wall clock = g_wall0 + g_now
extern std::function<void()> g_block_hook;   // called whenever a call starts to wait
void block_until(ns_t t);                    // wait (switches fibers)
inline int64_t wall_sec() { return (g_wall0 + g_now) / SEC; }

// ---------------------------------------------------------------- fibers
void run_fibers(std::vector<std::function<void()>> bodies);
int current_fiber();                         // -1 outside

// ---------------------------------------------------------------- properties
struct Prop {
  const char *id;
  void (*run)();
  int quick_runs, thorough_runs;
  const char *rule;
};
std::vector<Prop> &props();
struct PropReg { PropReg(Prop p) { props().push_back(p); } };
#define PROPERTY(ID, FN, Q, T, RULE) static PropReg reg_##FN({ID, FN, Q, T, RULE});
extern const char *g_prop;
extern bool g_thorough;
