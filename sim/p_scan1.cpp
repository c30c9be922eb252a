// C20: the tools that scan primary addresses
#include "drv.h"
#include <cerrno>
#include <climits>

extern "C" int tool_mbus_serial_scan(int, char **);
extern "C" int tool_mbus_tcp_scan(int, char **);

namespace {
struct Line { int addr; bool collision; };
// the report, whatever else is printed around it
std::vector<Line> report(const std::string &o) {
  static const std::string F = "Found a M-Bus device at address ", C = "Collision at address ";
  std::vector<Line> v;
  size_t at = 0;
  for (;;) {
    size_t f = o.find(F, at), c = o.find(C, at);
    if (f == std::string::npos && c == std::string::npos) break;
    bool col = c < f;
    size_t k = (col ? c : f) + (col ? C.size() : F.size());
    char *e;
    long a = strtol(o.c_str() + k, &e, 10);
    REQUIRE(e != o.c_str() + k && *e == '\n', "report", "the report holds the line '%s'", o.substr(col ? c : f, 60).c_str());
    v.push_back({(int)a, col});
    at = (size_t)(e - o.c_str());
  }
  return v;
}
std::string show(const std::vector<Line> &v) {
  std::string s;
  for (auto &x : v) s += strf(" %d%s", x.addr, x.collision ? "(collision)" : "");
  return s.empty() ? " nothing" : s;
}
}
static void c20() {
  bool tcp = chance(1, 2);
  long baud = 9600;
  if (!tcp && chance(1, 2)) baud = pick(std::vector<long>{2400, 9600, 300, 38400, 4800, 1200, 600, 19200});
  Bus &b = g_world->add(tcp ? P_TCP : P_TTY, baud);
  Port *p = b.port;
  b.tcp_max_gap = 3900 * MS;
  b.segments = chance(1, 2);
  b.vary_delay = chance(3, 4);
  b.echo = chance(1, 6);
  // population
  int pop = (int)choose(8);
  std::vector<int> addrs;
  if (pop == 6 && chance(1, 4)) { for (int a = 0; a <= 250; a++) addrs.push_back(a); }
  else if (pop == 7 && chance(1, 2)) { for (int a = 0; a <= 250; a++) if (chance(1, 3)) addrs.push_back(a); }
  else {
    int n = (int)range(0, 8);
    for (int i = 0; i < n; i++)
      addrs.push_back((int)pick(std::vector<int>{1, 0, 250, 249, (int)choose(251), (int)choose(251), 251, 252, addrs.empty() ? 5 : addrs[choose((uint32_t)addrs.size())]}));
  }
  int idx = 1;
  std::map<int, int> at;
  for (int a : addrs) {
    b.meters.push_back(simple_meter(idx, (uint8_t)a, dec_id(1000 + idx), 1, 0));
    if (chance(1, 6)) make_stale(b, b.meters.back());
    if (chance(1, 10)) b.meters.back().silent = true;
    idx++;
    at[a]++;
  }
  // arguments
  int retries = 0;
  std::vector<std::string> args = {tcp ? "mbus-tcp-scan" : "mbus-serial-scan"};
  bool debug = chance(1, 5);
  if (debug) args.push_back("-d");
  if (!tcp && (baud != 9600 || chance(1, 2))) { args.push_back("-b"); args.push_back(std::to_string(baud)); }
  if (chance(1, 2)) { retries = (int)choose(10); args.push_back("-r"); args.push_back(std::to_string(retries)); }
  if (tcp) { args.push_back("gw0"); args.push_back("10001"); }
  else args.push_back("/dev/sim0");
  // failures at the start
  int bad = chance(1, 12) ? (int)range(1, 5) : 0;
  std::string why;
  if (bad == 1) { args.back() = tcp ? args.back() : "/dev/none"; if (tcp) args[args.size() - 2] = "nohost"; why = "an unknown device or host"; }
  if (bad == 2) {
    if (tcp) { g_socket_fail = [] { return EMFILE; }; why = "no socket"; }
    else { int k = (int)choose(2), n = 0; g_termios_fail = [k, n]() mutable { return n++ >= k; }; why = "a line that cannot be set up"; }
  }
  if (bad == 3) {
    if (tcp) { g_resolve = [p](const char *, const char *, std::vector<TcpTarget> &v) { v.push_back({true, p}); return 0; }; why = "a refused connection"; }
    else p->hup_at = 0, why = "a device that is gone";
  }
  if (bad == 4) { // retries out of range
    std::vector<std::string> a = {args[0], "-r", pick(std::vector<std::string>{"10", "-1", "100"})};
    if (tcp) { a.push_back("gw0"); a.push_back("10001"); } else a.push_back("/dev/sim0");
    args = a;
    why = "a retry count out of range";
  }
  if (bad == 5) {
    if (tcp) { args.back() = pick(std::vector<std::string>{"65536", "-1", "700000"}); why = "a port out of range"; }
    else { args = {args[0], "-b", pick(std::vector<std::string>{"9601", "0", "115", "-2400"}), "/dev/sim0"}; why = "an unsupported rate"; }
  }
  // losses
  std::map<int, int> lose;
  std::map<int, int> gone;
  if (chance(2, 3))
    for (auto &x : at)
      if (x.first <= 250 && chance(1, 2)) {
        int k = (int)choose(5);
        lose[x.first] = k == 0 ? retries : k == 1 ? retries + 1 : (int)range(0, retries + 2);
      }
  b.plan = [&](const Bytes &f) -> ReplyFault {
    int a = f[2];
    if (gone[a] >= (lose.count(a) ? lose[a] : 0)) return RF_NONE;
    gone[a]++;
    return chance(1, 2) ? RF_DROP_REQ : RF_DROP_REP;
  };
  // record: what came back for every ping; a transport that fails
  struct Ping { int addr; size_t from; ns_t at; };
  std::vector<Ping> pings;
  int broken = chance(1, 4) ? (int)range(1, 5) : 0;       // close, reset, device error, write error, stall
  int break_at = broken ? (int)(chance(1, 2) ? range(0, 12) : range(0, 260)) : INT_MAX, seen = 0, broke = -1;
  std::string odd;
  b.on_frame = [&](const Bytes &f) {
    if (f.size() != 5 || f[1] != 0x40) odd = hex(f);
    pings.push_back({f[2], p->arrived.size(), g_now});
    if (broken && broken <= 3 && seen++ == break_at) {
      broke = (int)pings.size() - 1;
      ns_t t = g_now + (chance(1, 2) ? 0 : (ns_t)range(0, 8) * b.window() / 8);
      if (broken == 3) for (int i = 0; i < 60; i++) p->read_errs.push_back({t, pick(std::vector<int>{EIO, EBADF})});
      else break_transport(p, t, broken - 1);
    }
  };
  if (broken >= 4)
    p->write_fault = [&](size_t n) -> ssize_t {
      if (seen++ < break_at) return SSIZE_MAX;
      if (broke < 0) broke = (int)pings.size();
      return broken == 5 ? (ssize_t)range(0, (int64_t)n - 1) : -pick(std::vector<int>{EIO, EAGAIN});
    };
  shape(0xC00 + bad * 8 + broken);
  int code = run_main(tcp ? tool_mbus_tcp_scan : tool_mbus_serial_scan, args);
  std::vector<Line> got = report(g_out);
  REQUIRE(odd.empty(), "frames", "the scan transmits %s", odd.c_str());
  if (bad) {
    REQUIRE(code != 0, "exit", "the tool succeeds with %s", why.c_str());
    REQUIRE(got.empty(), "report", "the tool reports%s with %s", show(got).c_str(), why.c_str());
    if (bad != 2 && bad != 3) REQUIRE(pings.empty(), "frames", "the tool scans with %s", why.c_str());
    probe("tool refuses to scan");
    return;
  }
  // what came back
  std::vector<Line> want;
  std::map<int, int> tries;
  for (size_t i = 0; i < pings.size(); i++) {
    size_t end = i + 1 < pings.size() ? pings[i + 1].from : p->arrived.size();
    Bytes r(p->arrived.begin() + pings[i].from + (b.echo ? 5 : 0), p->arrived.begin() + end);
    tries[pings[i].addr]++;
    if (r.empty()) continue;
    bool col = r.size() != 1 || r[0] != 0xE5;
    want.push_back({pings[i].addr, col});
    if (col) probe("collision at a primary address");
  }
  if (broke < 0) {
    // every address is asked, in order, as often as the retries permit
    std::map<int, int> present;
    for (auto &m : b.meters) if (!m.silent) present[m.addr]++;
    std::vector<int> listed;
    for (int a = 0; a <= 250; a++) {
      int l = lose.count(a) ? lose[a] : 0;
      if (present.count(a) && l <= retries) listed.push_back(a);
    }
    REQUIRE(code == 0, "exit", "the scan fails (%d) on a working transport: %s", code, g_err.c_str());
    REQUIRE(got.size() == listed.size(), "list", "the scan with %d retries lists%s, answers came from %zu addresses", retries, show(got).c_str(), listed.size());
    for (size_t i = 0; i < listed.size(); i++)
      REQUIRE(got[i].addr == listed[i], "list", "the scan with %d retries lists%s, the address %d answers", retries, show(got).c_str(), listed[i]);
    REQUIRE(want.size() == got.size(), "harness", "%zu answers, %zu lines", want.size(), got.size());
    for (size_t i = 0; i < want.size(); i++)
      REQUIRE(want[i].addr == got[i].addr && want[i].collision == got[i].collision, "collision", "the scan lists%s, what came back stands for%s", show(got).c_str(), show(want).c_str());
    for (size_t i = 1; i < pings.size(); i++) REQUIRE(pings[i].addr >= pings[i - 1].addr, "order", "address %d is asked after %d", pings[i].addr, pings[i - 1].addr);
    for (auto &x : tries) {
      REQUIRE(x.first <= 250, "frames", "address %d is asked", x.first);
      REQUIRE(x.second <= retries + 1, "retries", "address %d is asked %d times with %d retries", x.first, x.second, retries);
    }
    if (listed.size() == 251) probe("scan of a full bus");
    return;
  }
  probe("transport failed during a primary scan");
  // after the failure: failure status unless there was nothing left to ask
  int cur = broken <= 3 ? pings[broke].addr : broke < (int)pings.size() ? pings[broke].addr : (pings.empty() ? 0 : pings.back().addr + 1);
  REQUIRE(code != 0 || cur >= 250, "exit", "the scan succeeds although the transport failed at address %d", cur);
  size_t i = 0;
  for (; i < got.size(); i++) {
    if (got[i].addr >= cur - 1) break;
    REQUIRE(i < want.size() && want[i].addr == got[i].addr && want[i].collision == got[i].collision, "list", "over a transport that failed at address %d the scan lists%s, what came back before stands for%s", cur, show(got).c_str(), show(want).c_str());
  }
  for (; i < got.size(); i++) REQUIRE(i + 1 == got.size() || got[i + 1].addr > got[i].addr, "list", "the scan lists%s", show(got).c_str());
  for (auto &x : got) REQUIRE(at.count(x.addr), "phantom", "the scan lists address %d, at which there is no meter", x.addr);
}
PROPERTY("C20", c20, 36000, 500000,
  "one run: one run of the serial or TCP primary scan tool over 0 to 8 occupied addresses, a third or all of them, several meters at one address (answers merged, garbled or in sequence), chosen numbers of lost pings or answers per address around the retry setting, any answer delay and segmentation, all rates, invalid arguments, a transport that cannot be opened or fails at a chosen ping; non-trivial: a fault fired; distinct: different sequence of answers, faults and verdicts")
