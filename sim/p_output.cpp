// C34: standard output that does not take what a tool prints
#include "drv.h"
#include <climits>

extern "C" {
int tool_mbus_serial_request_data(int, char **);
int tool_mbus_tcp_request_data(int, char **);
int tool_mbus_serial_request_data_multi_reply(int, char **);
int tool_mbus_tcp_request_data_multi_reply(int, char **);
int tool_mbus_serial_scan(int, char **);
int tool_mbus_tcp_scan(int, char **);
int tool_mbus_serial_scan_secondary(int, char **);
int tool_mbus_tcp_scan_secondary(int, char **);
int tool_mbus_serial_select_secondary(int, char **);
int tool_mbus_tcp_select_secondary(int, char **);
}
namespace {
struct Story { int code = 0; std::string out, err, what; std::vector<Bytes> tx; };
void story(Story &s) {
  enum { READ, MULTI, SCAN, SECOND, SELECT };
  int what = (int)choose(5);
  bool tcp = chance(1, 2);
  Bus &b = g_world->add(tcp ? P_TCP : P_TTY, 9600);
  Port *p = b.port;
  b.segments = chance(1, 2);
  b.echo = chance(1, 6);
  PopOpt o;
  o.rich = chance(1, 2);
  o.max_meters = what == SCAN || what == SECOND ? (int)range(1, 12) : 3;
  gen_meters(b, o);
  Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
  if (what == MULTI && !mt.fixed && chance(1, 2)) {       // a readout larger than any buffer
    size_t n = mt.telegrams.size(), want = (size_t)range(2, 24);
    for (size_t i = n; i < want; i++) mt.telegrams.push_back(mt.telegrams[i % n]);
  }
  if (chance(1, 3)) gen_limited_faults(b, ALL_FAULTS, 30);
  bool sec = (what == READ || what == MULTI) && chance(1, 3);
  std::string addr = sec ? mt.address() : std::to_string(mt.addr);
  std::vector<std::string> args = {"mbus-tool"};
  if (chance(1, 5)) args.push_back("-d");
  if (tcp) { args.push_back("gw0"); args.push_back("10001"); } else { args.push_back("-b"); args.push_back("9600"); args.push_back("/dev/sim0"); }
  int (*tool)(int, char **) = nullptr;
  switch (what) {
    case READ: tool = tcp ? tool_mbus_tcp_request_data : tool_mbus_serial_request_data; args.push_back(addr); break;
    case MULTI: tool = tcp ? tool_mbus_tcp_request_data_multi_reply : tool_mbus_serial_request_data_multi_reply; args.push_back(addr); break;
    case SCAN: tool = tcp ? tool_mbus_tcp_scan : tool_mbus_serial_scan; break;
    default: {
      tool = what == SECOND ? (tcp ? tool_mbus_tcp_scan_secondary : tool_mbus_serial_scan_secondary) : tcp ? tool_mbus_tcp_select_secondary : tool_mbus_serial_select_secondary;
      std::string m = mt.address();
      if (what == SECOND) { m = m.substr(0, (size_t)range(5, 8)); m.resize(16, 'F'); }
      else { auto d = std::find(args.begin(), args.end(), "-d"); if (d != args.end()) args.erase(d); }
      args.push_back(m);
    }
  }
  s.what = "";
  for (auto &a : args) s.what += (s.what.empty() ? "" : " ") + a;
  shape(0x3400 + what * 2 + tcp);
  s.code = run_main(tool, args);
  s.out = g_out;
  s.err = g_err;
  for (auto &t : p->tx) s.tx.push_back(t.b);
}
void c34() {
  int mode = (int)choose(6);
  int permille = (int)range(0, 1000), until = chance(1, 4) ? (int)range(0, 1200) : -1;
  size_t m0 = twin_mark();
  ns_t t0 = g_now;
  int64_t wall = g_wall0;
  Story a, b;
  story(a);
  ns_t took = g_now - t0;
  size_t m1 = twin_mark();
  world_reset();
  lib_statics_restore();
  g_now = t0;
  g_wall0 = wall;
  g_out.clear();
  g_err.clear();
  size_t n = a.out.size();
  twin_replay(m0, m1);
  switch (mode) {
    case 0: g_out_limit = 0; break;
    case 1: g_out_limit = n ? n - 1 : 0; break;
    case 2: g_out_limit = n; break;
    case 3: g_out_limit = n + (size_t)permille; break;
    default: g_out_limit = n * (size_t)permille / 1000;
  }
  if (until >= 0) g_out_free = t0 + took * until / 1000;
  size_t limit = g_out_limit;
  story(b);
  twin_done();
  REQUIRE(a.what == b.what, "harness", "'%s' is '%s'", a.what.c_str(), b.what.c_str());
  REQUIRE(b.tx.size() <= a.tx.size() && std::equal(b.tx.begin(), b.tx.end(), a.tx.begin()), "traffic", "'%s' transmits something else once its output is not taken", a.what.c_str());
  if (limit >= n) {
    REQUIRE(b.out == a.out && b.code == a.code && b.tx == a.tx, "room", "'%s' ends with %d after %zu bytes where there is room for all %zu bytes (else with %d)", a.what.c_str(), b.code, b.out.size(), n, a.code);
    probe("room for all");
    return;
  }
  if (b.out == a.out) { REQUIRE(b.code == a.code, "room", "'%s' ends with %d although all its output is taken (else with %d)", a.what.c_str(), b.code, a.code); probe("room in time"); return; }
  REQUIRE(b.code != 0, "claim", "'%s' claims success, %zu of its %zu bytes of output are not written", a.what.c_str(), n - std::min(n, b.out.size()), n);
  REQUIRE(b.out.size() < n, "extra", "'%s' prints %zu bytes where %zu are printed on a working output", a.what.c_str(), b.out.size(), n);
  if (until < 0) REQUIRE(a.out.compare(0, b.out.size(), b.out) == 0, "order", "'%s' prints something else once its output is not taken", a.what.c_str());
  if (a.code == 0) {
    REQUIRE(b.err.size() > a.err.size(), "silent", "'%s' does not say why it fails", a.what.c_str());
    probe(b.out.empty() ? "none of the output taken" : "part of the output taken");
    if (until >= 0) probe("full for a while");
    if (n > 4096) probe("more output than one buffer");
  }
}
}
PROPERTY("C34", c34, 60000, 700000, "a tool whose output cannot be written does not claim success")
