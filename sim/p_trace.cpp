// C31: what the debugging output shows of the traffic
#include "drv.h"
#include <cerrno>
#include <climits>

extern "C" {
int tool_mbus_serial_request_data(int, char **);
int tool_mbus_tcp_request_data(int, char **);
int tool_mbus_serial_request_data_multi_reply(int, char **);
int tool_mbus_tcp_request_data_multi_reply(int, char **);
int tool_mbus_serial_scan(int, char **);
int tool_mbus_tcp_scan(int, char **);
int tool_mbus_serial_scan_secondary(int, char **);
int tool_mbus_serial_set_address(int, char **);
int tool_mbus_tcp_application_reset(int, char **);
int tool_mbus_tcp_raw_send(int, char **);
}
namespace {
struct Line { bool rx; size_t n; Bytes b; std::string when; };
bool hex_list(const std::string &s, size_t at, Bytes &out) {   // "10 40 01 ..." up to the end
  while (at < s.size() && s[at] == ' ') at++;
  while (at < s.size()) {
    if (at + 1 >= s.size() || !isxdigit((unsigned char)s[at]) || !isxdigit((unsigned char)s[at + 1])) return false;
    out.push_back((uint8_t)strtoul(s.substr(at, 2).c_str(), nullptr, 16));
    at += 2;
    if (at < s.size() && s[at] != ' ') return false;
    while (at < s.size() && s[at] == ' ') at++;
  }
  return true;
}
std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> v;
  for (size_t a = 0; a < s.size();) { size_t e = s.find('\n', a); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(a, e - a)); a = e + 1; }
  return v;
}
int64_t utc_of(const std::string &s) {                   // "2024-02-29 12:00:00Z" to seconds, without the C library
  int y, mo, d, h, mi, sec;
  if (sscanf(s.c_str(), "%4d-%2d-%2d %2d:%2d:%2dZ", &y, &mo, &d, &h, &mi, &sec) != 6) return INT64_MIN;
  int64_t yy = mo <= 2 ? y - 1 : y, era = yy / 400, yoe = yy - era * 400, doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return (era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + sec;
}
std::vector<Line> trace(const std::string &err) {
  std::vector<Line> v;
  for (auto &l : lines(err)) {
    size_t k = l.find("] SEND ("), q = l.find("] RECV (");
    if (k == std::string::npos && q == std::string::npos) continue;
    Line x;
    x.rx = k == std::string::npos;
    size_t at = x.rx ? q : k;
    REQUIRE(l[0] == '[', "trace", "trace line '%s'", l.c_str());
    x.when = l.substr(1, at - 1);
    char *e;
    x.n = strtoul(l.c_str() + at + 8, &e, 10);
    REQUIRE(!strncmp(e, "):", 2) && hex_list(l, (size_t)(e - l.c_str()) + 2, x.b), "trace", "trace line '%s'", l.c_str());
    REQUIRE(x.n == x.b.size(), "trace", "the trace line '%s' shows %zu bytes", l.c_str(), x.b.size());
    v.push_back(x);
  }
  return v;
}
// the dumps of frames on standard output
std::vector<Bytes> dumps(const std::string &out) {
  std::vector<Bytes> v;
  for (auto &l : lines(out)) {
    size_t k = l.find("Dumping M-Bus frame [type "), b = l.find("]: ");
    if (k == std::string::npos) continue;
    Bytes x;
    int type = 0, n = 0;
    REQUIRE(b != std::string::npos && sscanf(l.c_str() + k, "Dumping M-Bus frame [type %d, %d bytes]", &type, &n) == 2 && hex_list(l, b + 2, x), "dump", "dump '%s'", l.c_str());
    REQUIRE((size_t)n == x.size(), "dump", "a dump of %d bytes shows %zu", n, x.size());
    v.push_back(x);
  }
  return v;
}
struct Story { int code = 0; std::string out; std::vector<Bytes> tx; Bytes consumed; std::string what; };
void check_trace(Port *p, const std::vector<Line> &tr, const std::vector<TxRec> &tx, int64_t w0, int64_t w1, bool broken, const char *what) {
  std::vector<Bytes> want;
  Bytes acc;
  for (auto &t : tx) {
    size_t l;
    if (t.complete && frame_at(t.b.data(), t.b.size(), &l) == 1 && l == t.b.size()) { acc.clear(); want.push_back(t.b); continue; }
    acc.insert(acc.end(), t.b.begin(), t.b.end());
    if (frame_at(acc.data(), acc.size(), &l) == 1 && l == acc.size()) { want.push_back(acc); acc.clear(); }
  }
  size_t s = 0, rx = 0;
  int64_t last = w0;
  for (auto &x : tr) {
    int64_t t = utc_of(x.when);
    REQUIRE(t >= last && t <= w1, "time", "%s: a trace line at [%s] (%lld), the exchange lasted from %lld to %lld", what, x.when.c_str(), (long long)t, (long long)last, (long long)w1);
    last = t;
    if (!x.rx) {
      REQUIRE(s < want.size(), "sent", "%s: the trace shows %s as sent, %zu frames were", what, hex(x.b).c_str(), want.size());
      REQUIRE(x.b == want[s], "sent", "%s: the trace shows %s for the frame %s", what, hex(x.b).c_str(), hex(want[s]).c_str());
      s++;
    } else {
      size_t at = rx;
      if (broken) { auto it = std::search(p->consumed.begin() + rx, p->consumed.end(), x.b.begin(), x.b.end()); at = (size_t)(it - p->consumed.begin()); }
      REQUIRE(at + x.b.size() <= p->consumed.size() && std::equal(x.b.begin(), x.b.end(), p->consumed.begin() + at), "received", "%s: the trace shows %s as received, taken from the line was %s", what, hex(x.b).c_str(),
              hex(p->consumed.data() + rx, std::min<size_t>(p->consumed.size() - rx, 300)).c_str());
      rx = at + x.b.size();
    }
  }
  REQUIRE(s == want.size(), "sent", "%s: the trace shows %zu of %zu frames sent", what, s, want.size());
  REQUIRE(rx == p->consumed.size() || broken, "received", "%s: the trace shows %zu of %zu bytes received", what, rx, p->consumed.size());
}
void story(Story &s, bool debug) {
  enum { READ, MULTI, SCAN, SECOND, SET, RESET, RAW };
  int what = (int)choose(7);
  bool tcp = what == RESET || what == RAW || (what != SECOND && what != SET && chance(1, 2));
  Bus &b = g_world->add(tcp ? P_TCP : P_TTY, 9600);
  Port *p = b.port;
  b.segments = chance(1, 2);
  b.echo = chance(1, 4);
  b.gaps = chance(1, 4);
  PopOpt o;
  o.rich = chance(1, 2);
  gen_meters(b, o);
  gen_limited_faults(b, ALL_FAULTS, 30);
  Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
  bool sec = what != SCAN && chance(1, 3);
  std::string addr = sec ? mt.address() : std::to_string(mt.addr);
  std::vector<std::string> args = {"mbus-tool"};
  if (debug) args.push_back("-d");
  if (tcp) { args.push_back("gw0"); args.push_back("10001"); } else { if (what == SECOND) { args.push_back("-b"); args.push_back("9600"); } args.push_back("/dev/sim0"); }
  int (*tool)(int, char **) = nullptr;
  switch (what) {
    case READ: tool = tcp ? tool_mbus_tcp_request_data : tool_mbus_serial_request_data; args.push_back(addr); break;
    case MULTI: tool = tcp ? tool_mbus_tcp_request_data_multi_reply : tool_mbus_serial_request_data_multi_reply; args.push_back(addr); break;
    case SCAN: tool = tcp ? tool_mbus_tcp_scan : tool_mbus_serial_scan; break;
    case SECOND: tool = tool_mbus_serial_scan_secondary; { std::string m = mt.address().substr(0, (size_t)range(6, 8)); m.resize(16, 'F'); args.push_back(m); } break;
    case SET: tool = tool_mbus_serial_set_address; args.push_back(addr); args.push_back(std::to_string(range(0, 250))); break;
    case RESET: tool = tool_mbus_tcp_application_reset; args.push_back(addr); if (chance(1, 2)) args.push_back("16"); break;
    default: tool = tool_mbus_tcp_raw_send; args.push_back(addr); args.push_back("/tmp/frame"); {
      std::string t;
      for (auto x : chance(1, 2) ? f_short(0x7B, mt.addr) : f_long(0x53, mt.addr, 0x51, Bytes((size_t)range(1, 252), 0x2F))) t += strf("%02X ", x);
      g_files["/tmp/frame"] = t;
    }
  }
  bool broken = chance(1, 8);
  if (broken) {
    int kind = (int)choose(5), seen = 0, at = (int)range(0, 6);
    if (kind < 3) b.on_frame = [&b, p, kind, seen, at](const Bytes &) mutable { if (seen++ == at) break_transport(p, g_now + (chance(1, 2) ? 0 : b.window() / 4), kind); };
    else p->write_fault = [kind, seen, at](size_t n) mutable -> ssize_t { if (seen++ != at) return SSIZE_MAX; return kind == 3 ? -EIO : (ssize_t)range(0, (int64_t)n - 1); };
  }
  g_wall0 = (ns_t)range(0, 4000000000ll) * SEC + (ns_t)choose(1000) * MS;
  int64_t w0 = wall_sec();
  s.what = "";
  for (auto &a : args) if (a != "-d") s.what += (s.what.empty() ? "" : " ") + a;
  shape(0x3100 + what * 2 + tcp);
  s.code = run_main(tool, args);
  s.out = g_out;
  for (auto &t : p->tx) s.tx.push_back(t.b);
  s.consumed = p->consumed;
  if (!debug) { REQUIRE(trace(g_err).empty(), "trace", "a trace without -d: %s", g_err.c_str()); return; }
  auto tr = trace(g_err);
  check_trace(p, tr, p->tx, w0, wall_sec(), broken, s.what.c_str());
  if (tr.size() > 1) probe("trace of a tool");
  if (what == READ || what == MULTI) {
    auto d = dumps(g_out);
    std::vector<Doc> docs;
    int n = read_docs(g_out, docs);
    if (n == 1 && docs[0].error.empty()) {
      size_t k = docs[0].values.size();
      REQUIRE(d.size() == k, "dump", "%s: %zu frames are dumped, the document shows %zu", s.what.c_str(), d.size(), k);
      size_t from = 0;
      for (auto &x : d) {
        size_t l;
        REQUIRE(frame_at(x.data(), x.size(), &l) == 1 && l == x.size(), "dump", "%s: the dump %s is not a frame", s.what.c_str(), hex(x).c_str());
        auto it = std::search(p->consumed.begin() + from, p->consumed.end(), x.begin(), x.end());
        REQUIRE(it != p->consumed.end(), "dump", "%s: the dump %s was not received", s.what.c_str(), hex(x).c_str());
        from = (size_t)(it - p->consumed.begin()) + x.size();
        if (x.size() > 250) probe("dump of a long frame");
      }
      if (k > 1) probe("dump of several telegrams");
    }
  }
}
}
static void c31_tools() {
  size_t m0 = twin_mark();
  ns_t t0 = g_now;
  int64_t wall = g_wall0;
  Story a, b;
  story(a, true);
  size_t m1 = twin_mark();
  if (!chance(1, 2)) return;
  world_reset();
  lib_statics_restore();
  g_now = t0;
  g_wall0 = wall;
  g_out.clear();
  g_err.clear();
  twin_replay(m0, m1);
  story(b, false);
  twin_done();
  REQUIRE(a.tx == b.tx, "debug-changes", "%s transmits something else with -d", a.what.c_str());
  REQUIRE(a.consumed == b.consumed, "debug-changes", "%s takes something else from the line with -d", a.what.c_str());
  REQUIRE(a.code == b.code, "debug-changes", "%s ends with %d, with -d with %d", a.what.c_str(), b.code, a.code);
  size_t at = 0;
  for (auto &l : lines(b.out)) {
    size_t k = a.out.find(l, at);
    REQUIRE(k != std::string::npos, "debug-changes", "%s prints '%s' only without -d", a.what.c_str(), l.c_str());
    at = k + l.size();
  }
  probe("compared with a run without -d");
}
// frames of every kind, received through the dumping callbacks and printed
static void c31_frames() {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  Master m = open_master(0);
  mbus_register_send_event(m.h, mbus_dump_send_event);
  mbus_register_recv_event(m.h, mbus_dump_recv_event);
  b.segments = chance(1, 2);
  g_wall0 = (ns_t)range(0, 4000000000ll) * SEC;
  int64_t w0 = wall_sec();
  int n = (int)range(1, 5);
  std::vector<Bytes> got;
  mbus_frame head;
  memset(&head, 0, sizeof head);
  mbus_frame *last = &head;
  for (int i = 0; i < n; i++) {
    if (chance(1, 4)) mbus_send_request_frame(m.h, (int)choose(251));
    Bytes f = chance(1, 5) ? ACK : chance(1, 5) ? f_short((uint8_t)(chance(1, 2) ? 0x08 : choose(256)), (uint8_t)choose(256)) : f_long(0x08, (uint8_t)choose(256), (uint8_t)choose(256), [] { Bytes d(chance(1, 3) ? (size_t)range(240, 252) : (size_t)range(0, 252)); for (auto &x : d) x = (uint8_t)choose(256); return d; }());
    if (chance(1, 6)) { fault(F_TRUNC_REP); f.resize((size_t)range(1, f.size())); }
    else if (chance(1, 6)) { fault(F_CORRUPT_REP); f = corrupt(f, true); }
    b.emit(f, g_now);
    if (!got.empty()) {
      last->next = mbus_frame_new(MBUS_FRAME_TYPE_ANY);
      REQUIRE(last->next, "harness", "no frame");
    }
    mbus_frame *into = got.empty() ? &head : (mbus_frame *)last->next;
    int r = mbus_recv_frame(m.h, into);
    if (r != MBUS_RECV_RESULT_OK) {
      if (!got.empty()) { mbus_frame_free(into); last->next = nullptr; }
      mbus_purge_frames(m.h);
      continue;
    }
    last = into;
    got.push_back(frame_bytes(into));
  }
  check_trace(p, trace(g_err), p->tx, w0, wall_sec(), false, "library");
  g_out.clear();
  if (!got.empty()) {
    int r = mbus_frame_print(&head);
    auto d = dumps(g_out);
    REQUIRE(r == 0, "print", "printing %zu received frames answers %d after %zu", got.size(), r, d.size());
    REQUIRE(d == got, "print", "printing %zu received frames shows %zu", got.size(), d.size());
    if (d.size() > 1) probe("chain of frames printed");
  }
  shape(0x3180 + (uint32_t)got.size());
  free_chain(&head);
  close_master(m);
}
static void c31() {
  setenv("TZ", pick(std::vector<const char *>{"UTC0", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "HST10"}), 1);
  if (chance(1, 4)) c31_frames(); else c31_tools();
}
PROPERTY("C31", c31, 60000, 1000000,
  "one run: one run of a readout, scan, set-address, reset or raw-send tool with -d under loss, damage, duplicates, late answers, noise, failing writes and breaking transports, its trace compared with what was written to and taken from the line, half of them repeated without -d and compared; or frames of every kind and length received through the dumping callbacks and printed; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")
