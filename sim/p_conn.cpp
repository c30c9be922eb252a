// C28 C29: connecting, failing to, and connecting again
#include "drv.h"
#include <cerrno>
#include <climits>
#include <netdb.h>
#include <sys/socket.h>

extern "C" {
int tool_mbus_serial_request_data(int, char **);
int tool_mbus_tcp_request_data(int, char **);
int tool_mbus_serial_request_data_multi_reply(int, char **);
int tool_mbus_tcp_request_data_multi_reply(int, char **);
int tool_mbus_serial_scan(int, char **);
int tool_mbus_tcp_scan(int, char **);
int tool_mbus_serial_select_secondary(int, char **);
int tool_mbus_tcp_select_secondary(int, char **);
int tool_mbus_tcp_application_reset(int, char **);
int tool_mbus_serial_set_address(int, char **);
int tool_mbus_serial_switch_baudrate(int, char **);
}
namespace {
uint64_t io_count(const Port *p) { return p->nreads + p->nwrites; }
struct Place {                                             // what a device or host name stands for
  bool tty = false;
  std::string name;
  uint16_t port = 0;
  std::string service;                                     // text the tool gets
  int how = 0;                                             // tty: 0 usable 1 no device 2 settings fail 3 not a terminal; tcp: 0 resolved 1 unknown
  int fail_at = 0;
  std::vector<TcpTarget> at;
  std::set<int> families;                                  // the host can use
  Port *winner = nullptr;
};
struct Seen { int opens = 0, resolves = 0, wrong = 0; std::string what; };
Place *g_place;
Seen g_seen;
int g_tio_calls;

std::string gen_name(bool tty, bool arg) {
  std::string s = tty ? "/dev/" : "";
  int n = (int)pick(std::vector<int>{6, 1, 12, 63, 130, 254});
  const char *set = chance(1, 3) && !arg ? " %:;/\\'\"\xE4$~*nsdx" : "abcdefghijklmnopqrstuvwxyz0123456789.-_";
  for (int i = 0; i < n; i++) s += set[choose((uint32_t)strlen(set))];
  if (s[0] == '-') s[0] = 'h';
  return s;
}
void gen_place(Place &pl, const std::vector<size_t> &ttys, const std::vector<size_t> &tcps, bool arg) {
  pl = Place();
  pl.tty = tcps.empty() || (!ttys.empty() && chance(1, 3));
  pl.name = gen_name(pl.tty, arg);
  if (pl.tty) {
    pl.how = chance(1, 2) ? 0 : (int)choose(4);
    Port *p = g_world->ports[pick(ttys)].get();
    pl.at.push_back({false, p});
    
    if (pl.how == 0) pl.winner = p;
    return;
  }
  pl.port = (uint16_t)(chance(1, 3) ? pick(std::vector<int>{1, 65535, 10001, 502}) : choose(65535) + 1);
  pl.service = std::to_string(pl.port);
  pl.families = {AF_INET, AF_INET6};
  if (chance(1, 4)) pl.families = {AF_INET};
  else if (chance(1, 8)) pl.families = {AF_INET6};
  else if (chance(1, 16)) pl.families = {};                // no sockets at all
  if (chance(1, 8)) { pl.how = 1; return; }
  int n = (int)pick(std::vector<int>{1, 1, 2, 3, 5});
  for (int i = 0; i < n; i++) {
    TcpTarget t;
    t.port = g_world->ports[pick(tcps)].get();
    t.refuse = chance(1, 2);
    t.v6 = chance(1, 3);
    if (chance(1, 5)) t.delay = range(1, 3000) * MS;
    pl.at.push_back(t);
    if (!pl.winner && !t.refuse && pl.families.count(t.v6 ? AF_INET6 : AF_INET)) pl.winner = t.port;
  }
}
void install(Place *pl) {
  g_place = pl;
  g_seen = Seen();
  g_tio_calls = 0;
  g_files.clear();
  if (pl->tty && pl->how == 3) g_files[pl->name] = "not a terminal";
  g_open_dev = [](const char *d) -> Port * {
    g_seen.opens++;
    if (!g_place->tty || g_place->name != d) { g_seen.wrong++; g_seen.what = d; return nullptr; }
    if (g_place->how == 1) { fault(F_OPEN_FAIL); return nullptr; }
    return g_place->at[0].port;
  };
  g_termios_fail = [] { return g_place->tty && g_place->how == 2 && g_tio_calls++ >= g_place->fail_at; };
  g_resolve = [](const char *h, const char *s, std::vector<TcpTarget> &v) -> int {
    g_seen.resolves++;
    char *e = nullptr;
    long n = s ? strtol(s, &e, 10) : -1;
    if (g_place->tty || !h || g_place->name != h || !s || !*s || *e || n != g_place->port) { g_seen.wrong++; g_seen.what = strf("%s:%s", h ? h : "(null)", s ? s : "(null)"); return EAI_NONAME; }
    if (g_place->how) return pick(std::vector<int>{EAI_NONAME, EAI_AGAIN, EAI_FAIL});
    v = g_place->at;
    return 0;
  };
  g_socket_fail = []() -> int { return g_place->families.count(g_socket_family) ? 0 : pick(std::vector<int>{EAFNOSUPPORT, EMFILE, ENOBUFS}); };
}
void fresh_line(Port *p) {
  p->fin_at = p->rst_at = p->hup_at = p->stall_at = NEVER;
  p->rst_seen = p->fin_reset = p->half = false;
  p->read_errs.clear();
  p->write_fault = nullptr;
  p->rx.clear();
  p->last_arrival = p->last_event = g_now;
}
void scramble(Port *p) {                                    // another program set the line to something else
  if (p->kind != P_TTY) return;
  p->tio.c_iflag = pick(std::vector<tcflag_t>{ICRNL | IXON, 0, ISTRIP | IXOFF | IGNCR, INLCR | PARMRK | INPCK});
  p->tio.c_oflag = pick(std::vector<tcflag_t>{OPOST | ONLCR, 0});
  p->tio.c_cflag = pick(std::vector<tcflag_t>{CS8 | CREAD, CS7 | PARENB | CREAD, CS8 | CSTOPB, CS8 | PARENB | PARODD | CREAD | CRTSCTS});
  p->tio.c_lflag = pick(std::vector<tcflag_t>{ICANON | ECHO | ISIG | IEXTEN, 0, ICANON});
  speed_t s = pick(std::vector<speed_t>{B9600, B300, B115200, B38400});
  cfsetispeed(&p->tio, s);
  cfsetospeed(&p->tio, s);
  p->tio.c_cc[VMIN] = (cc_t)choose(3);
  p->tio.c_cc[VTIME] = (cc_t)choose(3);
}
}

// ------------------------------------------------------------------ C29
static void c29_library(const std::vector<size_t> &ttys, const std::vector<size_t> &tcps) {
  mbus_handle *h = nullptr;
  Place pl;
  bool up = false;
  int n = (int)range(1, 5);
  char buf[512];
  for (int i = 0; i < n; i++) {
    if (!h || !chance(1, 3)) {                              // a new handle, or the same once more
      if (h) { if (up) mbus_disconnect(h); mbus_context_free(h); }
      up = false;
      gen_place(pl, ttys, tcps, false);
      snprintf(buf, sizeof buf, "%s", pl.name.c_str());
      h = pl.tty ? mbus_context_serial(buf) : mbus_context_tcp(buf, pl.port);
      REQUIRE(h, "context", "no context");
      memset(buf, 'X', sizeof buf);                         // the caller's text is the caller's
      buf[sizeof buf - 1] = 0;
    } else {                                                // the same name, the world has changed
      Place q;
      for (int k = 0;; k++) { gen_place(q, pl.tty ? ttys : std::vector<size_t>(), pl.tty ? std::vector<size_t>() : tcps, false); if (q.tty == pl.tty) break; }
      q.name = pl.name;
      q.port = pl.port;
      q.service = pl.service;
      pl = q;
      if (up && chance(1, 2)) { mbus_disconnect(h); up = false; }
      probe("connect again on the same handle");
    }
    for (auto &p : g_world->ports) { fresh_line(p.get()); scramble(p.get()); }
    install(&pl);
    std::map<Port *, uint64_t> before;
    for (auto &p : g_world->ports) before[p.get()] = io_count(p.get());
    int r = mbus_connect(h);
    REQUIRE(!g_seen.wrong, "name", "connecting %s:%s asks for %s", pl.name.c_str(), pl.service.c_str(), g_seen.what.c_str());
    for (auto &p : g_world->ports) REQUIRE(before[p.get()] == io_count(p.get()), "traffic", "connecting exchanges data");
    shape(0x2900 + pl.tty * 16 + pl.how * 4 + (r == 0) * 2 + (pl.winner != nullptr));
    if (!pl.winner) {
      REQUIRE(r != 0, "verdict", "connecting succeeds although %s", pl.tty ? (pl.how == 1 ? "the device cannot be opened" : pl.how == 2 ? "the line cannot be set up" : "the device is no terminal") : pl.how ? "the host is unknown" : "no address of the host is usable");
      REQUIRE(seam_open_lib_fds() == 0, "descriptor", "a failed connect leaves a descriptor open");
      // and the handle is not usable
      mbus_frame f;
      memset(&f, 0, sizeof f);
      int k = (int)choose(4);
      bool bad = k == 0 ? mbus_send_ping_frame(h, 1, 0) != 0 : k == 1 ? mbus_send_request_frame(h, 1) != 0 : k == 2 ? mbus_sendrecv_request(h, 1, &f, 0) != 0 : mbus_recv_frame(h, &f) == MBUS_RECV_RESULT_ERROR;
      REQUIRE(bad, "usable", "after a failed connect an operation (%d) succeeds", k);
      for (auto &p : g_world->ports) REQUIRE(before[p.get()] == io_count(p.get()), "traffic", "after a failed connect data is exchanged");
      up = false;
      probe("connect fails");
      continue;
    }
    REQUIRE(r == 0, "verdict", "connecting fails (%d) although %s", r, pl.tty ? "the device is usable" : "an address of the host is usable");
    up = true;
    g_socket_fail = nullptr;
    if (!pl.tty) {
      if (pl.at[0].port != pl.winner || pl.at[0].refuse) probe("a later address of the host is used");
      REQUIRE(pl.winner->fd >= 0, "address", "the connection does not go to the first usable address of the host");
    }
    // talk to the meter there
    Bus *b = nullptr;
    for (auto &x : g_world->buses) if (x->port == pl.winner) b = x.get();
    if (pl.tty && pl.winner->line_baud != 2400) REQUIRE(mbus_serial_set_baudrate(h, pl.winner->line_baud) == 0, "rate", "setting the rate fails");
    mbus_frame f;
    memset(&f, 0, sizeof f);
    size_t s0 = b->sent.size();
    int a = b->meters[0].addr;
    REQUIRE(mbus_send_ping_frame(h, a, 1) == 0, "exchange", "a ping on a new connection fails");
    r = mbus_sendrecv_request(h, a, &f, 0);
    REQUIRE(r == 0, "exchange", "a readout on a new connection fails (%d)", r);
    auto v = chain(&f);
    REQUIRE(v.size() == b->meters[0].telegrams.size() && b->sent.size() == s0 + v.size(), "exchange", "a readout on a new connection has %zu telegrams", v.size());
    for (size_t k = 0; k < v.size(); k++) REQUIRE(frame_bytes(v[k]) == b->sent[s0 + k].b, "exchange", "a readout on a new connection returns something else");
    free_chain(&f);
    for (auto &p : g_world->ports) if (p.get() != pl.winner) REQUIRE(before[p.get()] == io_count(p.get()), "address", "the traffic goes to another device as well");
    REQUIRE(seam_open_lib_fds() == 1, "descriptor", "%d descriptors are open for one connection", seam_open_lib_fds());
  }
  if (up) mbus_disconnect(h);
  mbus_context_free(h);
}
static void c29_tool(const std::vector<size_t> &ttys, const std::vector<size_t> &tcps) {
  Place pl;
  gen_place(pl, ttys, tcps, true);
  for (auto &p : g_world->ports) scramble(p.get());
  Bus *b = nullptr;
  for (auto &x : g_world->buses) if (x->port == (pl.winner ? pl.winner : pl.at.empty() ? g_world->ports[pl.tty ? ttys[0] : tcps[0]].get() : pl.at[0].port)) b = x.get();
  Meter &mt = b->meters[0];
  struct T { const char *name; int (*fn)(int, char **); int kind; };
  static const std::vector<T> tt = {{"mbus-serial-request-data", tool_mbus_serial_request_data, 0}, {"mbus-serial-request-data-multi-reply", tool_mbus_serial_request_data_multi_reply, 0},
    {"mbus-serial-select-secondary", tool_mbus_serial_select_secondary, 1}, {"mbus-serial-set-address", tool_mbus_serial_set_address, 2}, {"mbus-serial-switch-baudrate", tool_mbus_serial_switch_baudrate, 3}, {"mbus-serial-scan", tool_mbus_serial_scan, 4}};
  static const std::vector<T> nt = {{"mbus-tcp-request-data", tool_mbus_tcp_request_data, 0}, {"mbus-tcp-request-data-multi-reply", tool_mbus_tcp_request_data_multi_reply, 0},
    {"mbus-tcp-select-secondary", tool_mbus_tcp_select_secondary, 1}, {"mbus-tcp-application-reset", tool_mbus_tcp_application_reset, 5}, {"mbus-tcp-scan", tool_mbus_tcp_scan, 4}};
  bool dear = false;                                        // a whole scan takes long
  const T *t = &pick(pl.tty ? tt : nt);
  if (t->kind == 4 && pl.winner && !chance(1, 6)) t = pl.tty ? &tt[0] : &nt[0];
  dear = t->kind == 4;
  (void)dear;
  std::vector<std::string> args = {t->name};
  if (pl.tty) {
    // the tools use 9600 unless told otherwise
    args.push_back("-b");
    args.push_back(std::to_string(pl.at[0].port->line_baud));
    args.push_back(pl.name);
  } else { args.push_back(pl.name); args.push_back(pl.service); }
  std::string prim = std::to_string(mt.addr);
  bool sec = t->kind == 0 && chance(1, 3);
  int newa = (mt.addr + 7) % 250 + 1;
  if (t->kind == 0) args.push_back(sec ? mt.address() : prim);
  if (t->kind == 1) args.push_back(mt.address());
  if (t->kind == 2) { args.push_back(prim); args.push_back(std::to_string(newa)); }
  if (t->kind == 3) { args = {args[0], args[1], args[2], args[3], prim, "2400"}; }
  if (t->kind == 5) { args.push_back(prim); args.push_back("0"); }
  bool badport = !pl.tty && chance(1, 10);
  if (badport) args[2] = pick(std::vector<std::string>{"65536", "-1", "4294971297", "100000"});
  install(&pl);
  int code = run_main(t->fn, args);
  ev("%s exits %d", t->name, code);
  shape(0x2980 + t->kind * 4 + (code == 0) * 2 + (pl.winner != nullptr));
  if (badport) {
    REQUIRE(code != 0 && !g_seen.resolves, "port", "%s uses port %s (exit %d, %d lookups)", t->name, args[2].c_str(), code, g_seen.resolves);
    for (auto &p : g_world->ports) REQUIRE(!io_count(p.get()), "traffic", "%s exchanges data with an invalid port", t->name);
    probe("port out of range");
    return;
  }
  REQUIRE(!g_seen.wrong, "name", "%s with %s %s asks for %s", t->name, pl.name.c_str(), pl.service.c_str(), g_seen.what.c_str());
  for (auto &p : g_world->ports) if (p.get() != pl.winner) REQUIRE(!io_count(p.get()), "address", "%s exchanges data with another device", t->name);
  if (!pl.winner) {
    REQUIRE(code != 0, "verdict", "%s exits with success without a connection", t->name);
    std::string o = g_out;
    REQUIRE(o.find("<MBusData>") == std::string::npos && o.find("Found") == std::string::npos && o.find(mt.address()) == std::string::npos, "output", "%s prints a result without a connection: %s", t->name, o.c_str());
    probe("tool without connection");
    return;
  }
  REQUIRE(code == 0, "verdict", "%s exits with %d on a usable connection", t->name, code);
  probe("tool on a connection");
  if (t->kind == 0) REQUIRE(g_out.find("<MBusData>") != std::string::npos, "output", "%s prints no document", t->name);
  if (t->kind == 1) REQUIRE(g_out.find(mt.address()) != std::string::npos, "output", "%s does not print the address", t->name);
  if (t->kind == 2) REQUIRE(mt.addr == newa, "effect", "%s does not change the address", t->name);
  if (t->kind == 5) REQUIRE(mt.app_resets == 1, "effect", "%s makes %d resets", t->name, mt.app_resets);
  if (t->kind == 4) REQUIRE(g_out.find("Found a M-Bus device at address " + prim) != std::string::npos, "output", "%s does not find the device", t->name);
}
static void c29() {
  int nb = (int)range(1, 4);
  std::vector<size_t> ttys, tcps;
  for (int i = 0; i < nb; i++) {
    bool tty = chance(1, 3);
    Bus &b = tty ? g_world->add(P_TTY, pick(std::vector<long>{2400, 9600, 300, 38400})) : g_world->add(P_TCP, 2400);
    (tty ? ttys : tcps).push_back((size_t)i);
    b.segments = chance(1, 4);
    Meter m = simple_meter(i + 1, (uint8_t)range(1, 240), dec_id((uint32_t)range(1, 99999999)), (int)range(1, 2), 2);
    m.ver = (uint8_t)(i + 1);
    b.meters.push_back(m);
  }
  if (chance(1, 3)) c29_tool(ttys, tcps); else c29_library(ttys, tcps);
}
PROPERTY("C29", c29, 160000, 2500000,
  "one run: 1 to 4 devices and gateways, then 1 to 5 connects of new or old handles to names of any text and length whose device is missing, fails or is no terminal, or whose host is unknown or has 1 to 5 addresses of both families that refuse, are slow or cannot be used at all, each followed by an exchange; or one of eleven tools with such a name; non-trivial: a fault fired; distinct: different sequence of failures, verdicts and frames")

// ------------------------------------------------------------------ C28
namespace {
int n_send, n_found, n_kind;
size_t n_recv;
std::vector<Bytes> g_found_frames;
void c_send(u_char type, const char *, size_t) { n_send++; if (n_kind < 0) n_kind = type; else if (n_kind != type) n_kind = 99; }
void c_recv(u_char, const char *, size_t n) { n_recv += n; }
void c_found(mbus_handle *, mbus_frame *f) { n_found++; g_found_frames.push_back(frame_bytes(f)); }
bool is_data_request(const Bytes &f) { return f.size() == 5 && f[0] == 0x10 && (f[1] & 0x4F) == 0x4B; }
bool is_selection(const Bytes &f) { return f.size() == 17 && f[0] == 0x68 && f[6] == 0x52; }
}
static void c28() {
  n_send = n_found = 0;
  n_kind = -1;
  n_recv = 0;
  g_found_frames.clear();
  Bus &b = gen_bus(true);
  Port *p = b.port;
  bool tty = p->kind == P_TTY;
  PopOpt o;
  o.max_meters = 3;
  o.max_telegrams = 3;
  gen_meters(b, o);
  b.echo = chance(1, 4);
  b.segments = chance(1, 4);
  mbus_handle *h = tty ? mbus_context_serial("/dev/sim0") : mbus_context_tcp("gw0", 4000);
  REQUIRE(h, "context", "no context");
  Master m{h, p, &b, 0};
  ns_t first_wait = 0;                                      // how long another handle waits on its first connection
  if (tty && chance(1, 2)) {
    g_world->add(P_TTY, p->line_baud);
    Master other = open_master(1);
    mbus_frame f;
    memset(&f, 0, sizeof f);
    ns_t t0 = g_now;
    int r = mbus_recv_frame(other.h, &f);
    REQUIRE(r == MBUS_RECV_RESULT_TIMEOUT, "silence", "silence is %s", res_name(r));
    first_wait = g_now - t0;
    close_master(other);
  }
  auto open0 = g_open_dev;
  auto res0 = g_resolve;
  long dr = 3, sr = 1, echo = MBUS_FRAME_PURGE_M2S;
  ns_t tmo = 4 * SEC, in_force = 0;
  bool cb_send = false, cb_found = false, up = false;
  auto options = [&] {
    switch (choose(6)) {
      case 0: break;
      case 1: { long v = (long)choose(5); REQUIRE(mbus_context_set_option(h, MBUS_OPTION_MAX_DATA_RETRY, v) == 0, "option", "data retry %ld is refused", v); dr = v; break; }
      case 2: { long v = (long)choose(5); REQUIRE(mbus_context_set_option(h, MBUS_OPTION_MAX_SEARCH_RETRY, v) == 0, "option", "search retry %ld is refused", v); sr = v; break; }
      case 3: { long v = (long)choose(3); REQUIRE(mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, v) == 0, "option", "echo setting %ld is refused", v); echo = v; break; }
      case 4: {
        mbus_context_option w = pick(std::vector<mbus_context_option>{MBUS_OPTION_MAX_DATA_RETRY, MBUS_OPTION_MAX_SEARCH_RETRY, MBUS_OPTION_PURGE_FIRST_FRAME});
        long v = pick(std::vector<long>{-1, 10, 4294967296L, 3 + 256, -9});
        REQUIRE(mbus_context_set_option(h, w, v) != 0, "option", "the value %ld is accepted for option %d", v, (int)w);
        break;
      }
      case 5:
        mbus_register_send_event(h, c_send);
        mbus_register_recv_event(h, c_recv);
        cb_send = true;
        if (chance(1, 2)) { mbus_register_found_event(h, c_found); cb_found = true; }
    }
    if (chance(1, 4)) {
      double s = pick(std::vector<double>{1.0, 2.5, 0.75, 5.0});
      REQUIRE(mbus_tcp_set_timeout_set(s) == 0, "option", "the timeout %f is refused", s);
      tmo = (ns_t)(s * 1e9);
    }
  };
  int cycles = (int)range(1, g_thorough ? 8 : 4);
  for (int c = 0; c < cycles; c++) {
    options();
    if (chance(1, 3)) options();
    // the world is whole again
    fresh_line(p);
    b.acc.clear();
    b.held.clear();
    b.plan = nullptr;
    b.kinds.clear();
    b.rate = 0;
    b.on_frame = nullptr;
    for (auto &x : b.meters) { x.baud = 0; x.silent = false; }
    g_open_dev = open0;
    g_resolve = res0;
    g_termios_fail = nullptr;
    g_socket_fail = nullptr;
    int bad = chance(1, 3) ? (int)range(1, 2) : 0;
    for (int i = 0; i < bad; i++) {                         // attempts that fail first
      int k = (int)choose(3);
      if (tty && k == 2) g_open_dev = [](const char *) -> Port * { fault(F_OPEN_FAIL); return nullptr; };
      else if (tty) g_termios_fail = [] { return true; };
      else if (k == 0) g_socket_fail = [] { return EMFILE; };
      else if (k == 1) g_resolve = [p](const char *, const char *, std::vector<TcpTarget> &v) { v.push_back({true, p}); return 0; };
      else g_resolve = [](const char *, const char *, std::vector<TcpTarget> &) { return EAI_AGAIN; };
      int r = mbus_connect(h);
      REQUIRE(r != 0, "connect", "connecting a broken transport succeeds");
      up = false;
      g_open_dev = open0;
      g_resolve = res0;
      g_termios_fail = nullptr;
      g_socket_fail = nullptr;
      if (chance(1, 3)) REQUIRE(mbus_disconnect(h) != 0, "disconnect", "disconnecting after a failed connect succeeds");
      if (chance(1, 3)) options();
      probe("failed connects before a good one");
    }
    if (tty) scramble(p);
    if (c && up) probe("connect without disconnect before");
    int r = mbus_connect(h);
    REQUIRE(r == 0, "connect", "connection %d of the handle fails (%d)", c + 1, r);
    up = true;
    in_force = tmo;
    if (chance(1, 4)) options();                            // also while connected
    if (tty) {
      check_line(p, 2400, c ? "after connecting again" : "after connecting");
      if (p->line_baud != 2400 || chance(1, 4)) REQUIRE(mbus_serial_set_baudrate(h, p->line_baud) == 0, "rate", "setting the rate fails");
    } else {
      b.tcp_max_gap = in_force - 50 * MS;
      if (b.tcp_max_gap > 2 * SEC) b.tcp_max_gap = 2 * SEC;
    }
    shape(0x2800 + (c > 0) * 4 + bad);
    mbus_frame f;
    if (chance(1, 2)) {                                     // silence
      memset(&f, 0, sizeof f);
      ns_t t0 = g_now;
      r = mbus_recv_frame(h, &f);
      ns_t d = g_now - t0;
      REQUIRE(r == MBUS_RECV_RESULT_TIMEOUT, "silence", "silence on connection %d is %s", c + 1, res_name(r));
      if (first_wait) REQUIRE(d >= first_wait - 20 * MS && d <= first_wait + 20 * MS, "wait", "on connection %d silence at %ld baud is noticed after %lld ms, on a first connection after %lld ms", c + 1, p->line_baud, (long long)(d / MS), (long long)(first_wait / MS));
      if (tty) REQUIRE(d >= b.bit(330) + 50 * MS && d <= 3 * SEC, "wait", "silence at %ld baud is noticed after %lld ms", p->line_baud, (long long)(d / MS));
      else REQUIRE(d >= in_force && d <= in_force + 20 * MS, "wait", "on connection %d silence is noticed after %lld ms, the timeout is %lld ms", c + 1, (long long)(d / MS), (long long)(in_force / MS));
    }
    // the echo setting
    if (chance(1, 2)) {
      Bytes m2s = f_short((uint8_t)pick(Bytes{0x40, 0x5B, 0x7B}), 7), s2m = f_long(0x08, 3, 0x72, Bytes((size_t)range(0, 40), 0x2F));
      Bytes first = echo == MBUS_FRAME_PURGE_S2M ? s2m : echo == MBUS_FRAME_PURGE_M2S ? m2s : chance(1, 2) ? m2s : s2m, second = first == m2s ? s2m : m2s;
      Bytes both = first;
      both.insert(both.end(), second.begin(), second.end());
      b.emit(both, g_now + b.bit(12));
      memset(&f, 0, sizeof f);
      r = mbus_recv_frame(h, &f);
      REQUIRE(r == 0 && frame_bytes(&f) == (echo == MBUS_FRAME_PURGE_NONE ? first : second), "echo", "with echo setting %ld connection %d returns %s", echo, c + 1, r ? res_name(r) : canon(&f).c_str());
      mbus_purge_frames(h);
      fresh_line(p);
      probe("echo setting seen");
    }
    size_t tx0 = p->tx.size();
    n_send = n_found = 0;
    n_kind = -1;
    g_found_frames.clear();
    if (echo == MBUS_FRAME_PURGE_M2S || (echo == MBUS_FRAME_PURGE_NONE && !b.echo)) {
      int what = (int)choose(3);
      Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
      if (what != 1) {                                      // a readout, requests or replies lost
        size_t n = mt.telegrams.size();
        std::vector<int> loss(n, 0);
        bool fails = chance(1, 3);
        size_t where = fails ? choose((uint32_t)n) : n;
        for (size_t k = 0; k < n; k++) loss[k] = k == where ? (int)dr + 1 : (int)choose((uint32_t)dr + 1);
        size_t at = 0, sent = 0;
        int left = loss[0];
        b.plan = [&](const Bytes &q) -> ReplyFault {
          if (!is_data_request(q)) return RF_NONE;
          sent++;
          if (at < n && left) { left--; return chance(1, 2) ? RF_DROP_REQ : RF_DROP_REP; }
          if (at < n) { at++; left = at < n ? loss[at] : 0; }
          return RF_NONE;
        };
        REQUIRE(mbus_send_ping_frame(h, mt.addr, 1) == 0, "exchange", "a ping on connection %d fails", c + 1);
        memset(&f, 0, sizeof f);
        size_t s0 = b.sent.size();
        r = mbus_sendrecv_request(h, mt.addr, &f, 0);
        size_t want = 0;
        for (size_t k = 0; k < n && k <= where; k++) want += (size_t)loss[k] + (k != where);
        REQUIRE(sent == want, "retries", "a readout on connection %d with %ld retries takes %zu requests, %zu are due", c + 1, dr, sent, want);
        if (fails) REQUIRE(r != 0, "retries", "a readout on connection %d succeeds with %ld replies lost and %ld retries", c + 1, dr + 1, dr);
        else {
          REQUIRE(r == 0, "retries", "a readout on connection %d fails (%d) with losses within %ld retries", c + 1, r, dr);
          std::vector<Bytes> held;
          for (size_t k = s0; k < b.sent.size(); k++) if (b.sent[k].reached == 1) held.push_back(b.sent[k].b);
          auto v = chain(&f);
          REQUIRE(v.size() == n && held.size() == n, "telegrams", "a readout on connection %d has %zu telegrams of %zu", c + 1, v.size(), n);
          for (size_t k = 0; k < n; k++) REQUIRE(frame_bytes(v[k]) == held[k], "telegrams", "telegram %zu read on connection %d is not the meter's", k, c + 1);
        }
        free_chain(&f);
        b.plan = nullptr;
      }
      if (what != 0) {                                      // a probe, selections lost
        bool fails = chance(1, 3);
        int loss = fails ? (int)sr + 1 : (int)choose((uint32_t)sr + 1), left = loss, sent = 0;
        b.plan = [&](const Bytes &q) -> ReplyFault {
          if (!is_selection(q)) return RF_NONE;
          sent++;
          if (left) { left--; return chance(1, 2) ? RF_DROP_REQ : RF_DROP_REP; }
          return RF_NONE;
        };
        char out[32] = "";
        n_found = 0;
        size_t o0 = g_out.size();
        r = mbus_probe_secondary_address(h, mt.address().c_str(), out);
        REQUIRE(sent == loss + !fails, "retries", "a probe on connection %d with %ld retries selects %d times, %d are due", c + 1, sr, sent, loss + !fails);
        REQUIRE(r == (fails ? MBUS_PROBE_NOTHING : MBUS_PROBE_SINGLE), "probe", "a probe on connection %d with %d of %ld selections lost answers %d", c + 1, loss, sr + 1, r);
        if (!fails) REQUIRE(mt.address() == out, "probe", "a probe on connection %d answers %.16s", c + 1, out);
        if (cb_found) REQUIRE(n_found == !fails, "callback", "the found callback is called %d times on connection %d", n_found, c + 1);
        REQUIRE(g_out.size() == o0, "output", "a probe prints something");
        b.plan = nullptr;
      }
      size_t tx = 0;
      for (size_t k = tx0; k < p->tx.size(); k++) tx += p->tx[k].complete;
      if (cb_send) {
        REQUIRE(n_send == (int)tx, "callback", "on connection %d the send callback is called %d times for %zu frames", c + 1, n_send, tx);
        REQUIRE(n_kind == (tty ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP), "callback", "the send callback names another transport");
      } else REQUIRE(n_send == 0, "callback", "a callback is called that was not registered");
      probe(c ? "exchange after connecting again" : "exchange on the first connection");
    }
    // and it goes wrong, or not
    if (chance(2, 3)) {
      gen_limited_faults(b, ALL_FAULTS, (int)range(1, 8));
      int when = chance(1, 2) ? (int)range(0, 6) : -1, kind = (int)choose(4), seen = 0;
      if (when >= 0 && kind == 3) p->write_fault = [&, when](size_t n) -> ssize_t { return seen++ < when ? SSIZE_MAX : chance(1, 2) ? -EIO : (ssize_t)range(0, (int64_t)n - 1); };
      else if (when >= 0) b.on_frame = [&, when, kind](const Bytes &) { if (seen++ == when) break_transport(p, g_now, kind); };
      std::vector<std::string> out;
      for (int k = (int)range(1, 2); k > 0; k--) random_op(m, out);
      if (chance(1, 3)) { Bytes part = f_long(8, 1, 0x72, Bytes(20, 1)); part.resize((size_t)range(1, 28)); b.emit(part, g_now + b.bit(11)); }
      p->write_fault = nullptr;
      b.on_frame = nullptr;
      b.plan = nullptr;
    }
    if (tty && chance(1, 3)) mbus_serial_set_baudrate(h, pick(std::vector<long>{300, 600, 1200, 9600, 38400})); // the next connection knows nothing of it
    if (chance(3, 4)) {
      r = mbus_disconnect(h);
      REQUIRE(r == 0, "disconnect", "disconnecting connection %d fails (%d)", c + 1, r);
      up = false;
      REQUIRE(seam_open_lib_fds() == 0, "descriptor", "a descriptor is left open");
    }
    if (chance(1, 3)) block_until(g_now + range(1, 100000) * MS);
  }
  if (up) mbus_disconnect(h);
  mbus_context_free(h);
  REQUIRE(heap_live() == 0, "memory", "%s", heap_report().c_str());
}
PROPERTY("C28", c28, 120000, 1400000,
  "one run: one handle, 1 to 4 connections (thorough: up to 8), failed attempts between them, options, timeout and callbacks set at any moment, each connection ended by disturbed operations, a broken transport or a frame cut off, with or without disconnect; every connection must behave as the options in force say: line settings, waiting time, echo, number of retries of requests and selections, callbacks; non-trivial: a fault fired; distinct: different sequence of failures, frames and verdicts")
