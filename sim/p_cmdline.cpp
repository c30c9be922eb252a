// C32: the command line of a tool says what it does
#include "drv.h"
#include <cerrno>
#include <climits>
#include <netdb.h>

extern "C" {
int tool_mbus_serial_request_data(int, char **);
int tool_mbus_tcp_request_data(int, char **);
int tool_mbus_serial_request_data_multi_reply(int, char **);
int tool_mbus_tcp_request_data_multi_reply(int, char **);
int tool_mbus_serial_scan(int, char **);
int tool_mbus_tcp_scan(int, char **);
int tool_mbus_serial_scan_secondary(int, char **);
int tool_mbus_tcp_scan_secondary(int, char **);
int tool_mbus_serial_select_secondary(int, char **);
int tool_mbus_tcp_select_secondary(int, char **);
int tool_mbus_serial_set_address(int, char **);
int tool_mbus_serial_switch_baudrate(int, char **);
int tool_mbus_tcp_application_reset(int, char **);
int tool_mbus_tcp_raw_send(int, char **);
}
namespace {
enum What { READ, MULTI, SCAN, SECOND, SELECT, SET, BAUD, RESET, RAW };
enum Opt { O_D = 1, O_B = 2, O_R = 4, O_F = 8 };
struct Tool { const char *name; int (*fn)(int, char **); What what; bool tcp; int opts; };
const Tool TOOLS[] = {
  {"mbus-serial-request-data", tool_mbus_serial_request_data, READ, false, O_D | O_B},
  {"mbus-tcp-request-data", tool_mbus_tcp_request_data, READ, true, O_D},
  {"mbus-serial-request-data-multi-reply", tool_mbus_serial_request_data_multi_reply, MULTI, false, O_D | O_B | O_F},
  {"mbus-tcp-request-data-multi-reply", tool_mbus_tcp_request_data_multi_reply, MULTI, true, O_D | O_F},
  {"mbus-serial-scan", tool_mbus_serial_scan, SCAN, false, O_D | O_B | O_R},
  {"mbus-tcp-scan", tool_mbus_tcp_scan, SCAN, true, O_D | O_R},
  {"mbus-serial-scan-secondary", tool_mbus_serial_scan_secondary, SECOND, false, O_D | O_B},
  {"mbus-tcp-scan-secondary", tool_mbus_tcp_scan_secondary, SECOND, true, 0},
  {"mbus-serial-select-secondary", tool_mbus_serial_select_secondary, SELECT, false, O_B},
  {"mbus-tcp-select-secondary", tool_mbus_tcp_select_secondary, SELECT, true, 0},
  {"mbus-serial-set-address", tool_mbus_serial_set_address, SET, false, O_D | O_B},
  {"mbus-serial-switch-baudrate", tool_mbus_serial_switch_baudrate, BAUD, false, O_B},
  {"mbus-tcp-application-reset", tool_mbus_tcp_application_reset, RESET, true, O_D},
  {"mbus-tcp-raw-send", tool_mbus_tcp_raw_send, RAW, true, O_D},
};
const std::vector<long> RATES = {300, 600, 1200, 2400, 4800, 9600, 19200, 38400};
long speed_now(const termios &t) {
  static const struct { long b; speed_t s; } tab[] = {{300, B300}, {600, B600}, {1200, B1200}, {2400, B2400}, {4800, B4800}, {9600, B9600}, {19200, B19200}, {38400, B38400}};
  for (auto &e : tab) if (cfgetospeed(&t) == e.s && cfgetispeed(&t) == e.s) return e.b;
  return -1;
}
// the frames in a stretch of bytes; what is no frame at the end is left in rest
std::vector<Bytes> frames(const Bytes &b, Bytes &rest) {
  std::vector<Bytes> v;
  size_t i = 0, l;
  while (i < b.size() && frame_at(b.data() + i, b.size() - i, &l) == 1) { v.emplace_back(b.begin() + i, b.begin() + i + l); i += l; }
  rest.assign(b.begin() + i, b.end());
  return v;
}
std::vector<std::string> g_asked;                         // devices and hosts the tool asked the system for
std::map<std::string, Port *> g_names;

void c32() {
  const Tool &t = TOOLS[choose(sizeof TOOLS / sizeof *TOOLS)];
  // the options
  int opts = 0;
  for (int o : {O_D, O_B, O_R, O_F}) if ((t.opts & o) && chance(1, 2)) opts |= o;
  long baud = opts & O_B ? pick(RATES) : 9600;
  int retries = opts & O_R ? (int)choose(10) : -1;
  int limit = opts & O_F ? pick(std::vector<int>{1, 2, 3, 5, 0, 15, 16, 17, 30}) : 16;
  // several lines, with the same meters
  g_asked.clear();
  g_names.clear();
  int nports = (int)range(1, 3), mine = (int)choose((uint32_t)nports);
  long line_baud = !t.tcp && chance(1, 6) ? pick(RATES) : baud;
  uint64_t salt = choose(1u << 16);
  int telegrams = t.what == MULTI && chance(1, 3) ? (int)range(14, 20) : (int)range(1, 4);
  if (t.what == MULTI && !t.tcp && baud < 2400) telegrams = std::min(telegrams, 6);
  uint8_t a1 = (uint8_t)range(1, 250), a2 = (uint8_t)(1 + (a1 + range(1, 200)) % 250);
  uint32_t id1 = dec_id((uint32_t)choose(100000000)), id2 = dec_id((uint32_t)choose(100000000));
  static const char *const DEVS[] = {"/dev/ttyS0", "/dev/ttyUSB1", "/dev/serial/by-id/usb-M_Bus-if00"};
  static const char *const HOSTS[] = {"192.168.1.20", "gateway.example.org", "gw-cellar"};
  bool echo = chance(1, 5), quick = chance(1, 2);
  std::vector<long> used(nports);                          // services; the same host may offer several
  for (int i = 0; i < nports; i++) {
    Bus &b = g_world->add(t.tcp ? P_TCP : P_TTY, line_baud);
    b.echo = echo;
    b.segments = !quick;
    for (int k = 0; k < 2; k++) {
      Meter m;
      m.idx = k;
      m.addr = k ? a2 : a1;
      m.id = k ? id2 : id1;
      for (int j = 0; j < telegrams; j++) {
        Bytes r = marker_record(k, j, (uint32_t)salt);
        r.push_back(j + 1 < telegrams ? 0x1F : 0x0F);
        m.telegrams.push_back(r);
      }
      b.meters.push_back(m);
    }
    do used[i] = pick(std::vector<long>{0, 65535, 10001, 4000, (long)choose(65536), 1, 80}); while (std::count(used.begin(), used.begin() + i, used[i]));
    g_names[t.tcp ? strf("%s:%ld", HOSTS[i], used[i]) : DEVS[i]] = b.port;
    if (t.tcp && chance(1, 2)) g_names[strf("%s:%ld", HOSTS[mine], used[i])] = b.port;
  }
  g_names[t.tcp ? strf("%s:%ld", HOSTS[mine], used[mine]) : DEVS[mine]] = g_world->ports[mine].get();
  g_open_dev = [](const char *d) -> Port * { g_asked.push_back(d); auto i = g_names.find(d); return i == g_names.end() ? nullptr : i->second; };
  g_resolve = [](const char *h, const char *s, std::vector<TcpTarget> &v) -> int {
    std::string k = strf("%s:%s", h ? h : "(null)", s ? s : "(null)");
    g_asked.push_back(k);
    auto i = g_names.find(k);
    if (i == g_names.end()) return EAI_NONAME;
    v.push_back({false, i->second});
    return 0;
  };
  Port *p = g_world->ports[mine].get();
  Bus &b = *g_world->buses[mine];
  Meter &mt = b.meters[choose(2)];
  // whom and what
  std::string dest = t.tcp ? strf("%s:%ld", HOSTS[mine], used[mine]) : DEVS[mine];
  std::vector<std::string> opt, pos;
  if (opts & O_D) opt.push_back("-d");
  if (opts & O_B) { opt.push_back("-b"); opt.push_back(std::to_string(baud)); }
  if (opts & O_R) { opt.push_back("-r"); opt.push_back(std::to_string(retries)); }
  if (opts & O_F) { opt.push_back("-f"); opt.push_back(std::to_string(limit)); }
  if (t.tcp) { pos.push_back(HOSTS[mine]); pos.push_back(std::to_string(used[mine])); } else pos.push_back(DEVS[mine]);
  size_t least = pos.size(), most;
  bool sec = t.what == SELECT || ((t.what == READ || t.what == MULTI || t.what == SET || t.what == RESET || t.what == RAW) && chance(1, 3));
  std::string mask;
  int amb = 0;                                             // the mask names no meter, or both
  int addr = sec ? 253 : mt.addr, fresh = -1, subcode = -1;
  long target = 0;
  if (t.what == SECOND) {
    mask = "FFFFFFFFFFFFFFFF";
    if (chance(2, 3)) {
      size_t keep = (size_t)range(1, 16);                  // beyond the identification number only whole bytes can be left open
      mask = mt.address().substr(0, keep <= 8 ? keep : keep < 12 ? 8 : keep & ~(size_t)1);
      mask.resize(16, 'F');
      if (chance(1, 4)) for (auto &c : mask) c = (char)tolower(c);
      pos.push_back(mask);
    }
  } else if (t.what != SCAN) {
    if (sec) {
      mask = mt.address();
      if (t.what != SELECT && chance(1, 6)) {
        amb = (int)range(1, 2);
        if (amb == 1) { do mask = strf("%08u", (unsigned)choose(100000000)) + mt.address().substr(8); while (mask == b.meters[0].address() || mask == b.meters[1].address()); }
        else mask = chance(1, 2) ? std::string(16, 'F') : "FFFFFFFF" + mt.address().substr(8);
      }
      if (chance(1, 4)) for (auto &c : mask) c = (char)tolower(c); pos.push_back(mask); }
    else pos.push_back(std::to_string(addr));
    least++;
  }
  most = least;
  Bytes raw, other;
  if (t.what == SECOND) most++;
  if (t.what == SET) {
    do fresh = (int)range(0, 250); while (b.by_addr(fresh));
    pos.push_back(std::to_string(fresh));
    least++, most++;
  }
  if (t.what == BAUD) { target = pick(RATES); pos.push_back(std::to_string(target)); least++, most++; }
  if (t.what == RESET) { most++; if (chance(1, 2)) { subcode = (int)choose(256); pos.push_back(std::to_string(subcode)); } }
  if (t.what == RAW) {
    most++;
    bool file = chance(1, 2);
    raw = chance(1, 2) ? f_short(pick(Bytes{0x40, 0x5B, 0x7B}), mt.addr) : f_long(0x53, mt.addr, 0x51, Bytes((size_t)range(1, 20), 0x2F));
    other = f_short(0x5A, (uint8_t)(mt.addr ^ 1));
    std::string x, y;
    for (auto c : raw) x += strf("%02X ", c);
    for (auto c : other) y += strf("%02X ", c);
    if (file) { pos.push_back("/tmp/frame"); g_files["/tmp/frame"] = x; g_files["-"] = y; }
    else { g_files["-"] = x; g_files["/tmp/frame"] = y; }
  }
  // a command line that is none
  int bad = chance(1, 4) ? (int)range(1, t.opts & (O_B | O_R | O_F) ? 5 : 4) : 0;
  std::string why;
  bool usage = false;
  if (bad == 1) {                                          // arguments are missing
    opt.clear();
    pos.resize(choose((uint32_t)least));
    why = strf("only %zu arguments", pos.size());
    usage = true;
  }
  if (bad == 2) {                                          // too many
    while (pos.size() <= most) pos.push_back(pick(std::vector<std::string>{"1", "extra", "9600"}));
    for (uint32_t n = choose(3); n; n--) pos.push_back("-d");
    if (opts != t.opts) {                                  // as many as some permitted line could have: with all options
      opt.clear();
      if (t.opts & O_D) opt.push_back("-d");
      if (t.opts & O_B) { opt.push_back("-b"); opt.push_back(std::to_string(baud)); }
      if (t.opts & O_R) { opt.push_back("-r"); opt.push_back("1"); }
      if (t.opts & O_F) { opt.push_back("-f"); opt.push_back("1"); }
    }
    why = strf("%zu arguments", opt.size() + pos.size());
    usage = true;
  }
  if (bad == 3) {                                          // an unknown option
    opt = {pick(std::vector<std::string>{"-x", "--debug", "-", "-D", "-h"})};
    if (chance(1, 3)) opt.push_back(pick(std::vector<std::string>{"5", "9600", "2400", "1"}));
    else if (opts && chance(1, 3)) { if (opts & O_D) opt.push_back("-d"); else if (opts & O_B) { opt.push_back("-b"); opt.push_back(std::to_string(baud)); } }
    if ((t.what == RESET && subcode < 0) || (t.what == RAW && pos.size() == least) || t.what == SECOND) pos.resize(least);
    why = "the option " + opt[0] + " in front";
  }
  if (bad == 4) {                                          // a value out of range
    std::vector<int> k;
    if (t.tcp) k.push_back(0);
    else if (t.opts & O_B) k.push_back(1);
    if (t.opts & O_R) k.push_back(2);
    if (t.what == SELECT || t.what == SECOND) k.push_back(3);
    if (t.what == SET) k.push_back(4);
    switch (pick(k)) {
      case 0: pos[1] = pick(std::vector<std::string>{"65536", "-1", "70000", "100000", "-10001", "131072", std::to_string(atol(pos[1].c_str()) + 65536), std::to_string(atol(pos[1].c_str()) + 4294967296l)}); why = "the port " + pos[1]; break;
      case 1: { std::string r = pick(std::vector<std::string>{"9601", "0", "115200", "-2400", "300000", "14400", "x", "75136", "67936", "4294969696", "4294976896"});
        opt.clear();
        opt.push_back("-b"); opt.push_back(r);
        why = "the rate " + r;
        break; }
      case 2: { std::string r = pick(std::vector<std::string>{"10", "-1", "100", "11", "257", "-255", "65539"});
        opt = {"-r", r};
        why = r + " retries";
        break; }
      case 3: { std::string m = mt.address();
        switch (choose(3)) { case 0: m = m.substr(0, choose(16)); break; case 1: m += "0"; break; default: m[choose(16)] = pick(std::vector<char>{'G', ' ', 'x', '-', 'g'}); }
        pos.resize(t.tcp ? 2 : 1);
        pos.push_back(m);
        why = "the mask '" + m + "'";
        break; }
      default: pos.back() = pick(std::vector<std::string>{"253", "254", "255", "256", "-1", "1000", "509"}); why = "the new address " + pos.back();
    }
  }
  if (bad == 5) {                                          // an option without its value
    std::vector<std::string> k;
    if (t.opts & O_B) k.push_back("-b");
    if (t.opts & O_R) k.push_back("-r");
    if (t.opts & O_F) k.push_back("-f");
    std::string o = pick(k);
    bool d = (t.opts & O_D) && chance(1, 3);
    opt.clear();
    if (d) opt.push_back("-d");
    opt.push_back(o);
    if (chance(1, 6)) pos.clear();
    else pos.resize(least);
    why = "no value for " + o;
  }
  // the line
  bool clean = chance(1, 2);
  if (!clean) {
    if (chance(2, 3)) gen_limited_faults(b, ALL_FAULTS, (int)range(1, 12));
    if (chance(1, 4)) {
      int seen = 0, at = (int)range(0, 12), kind = (int)choose(3);
      b.on_frame = [&b, p, seen, at, kind](const Bytes &) mutable { if (seen++ == at) for (int i = 0; i < (kind == 2 ? 50 : 1); i++) break_transport(p, g_now, kind); };
    }
    if (chance(1, 8)) b.meters[choose(2)].silent = true;
  }
  size_t heard_from = 0, heard_to = 0;                     // what came back for the selection
  bool selected = false;
  if (clean && amb)
    b.on_frame = [&, p](const Bytes &f) {
      if (selected && !heard_to) heard_to = p->arrived.size();
      if (f.size() == 17 && f[6] == 0x52) { selected = true; heard_from = p->arrived.size(); heard_to = 0; }
    };
  std::string speeds;
  for (auto &x : g_world->ports) {
    Port *q = x.get();
    if (q->kind == P_TTY)
      q->write_fault = [q, baud, &speeds](size_t) -> ssize_t { if (speed_now(q->tio) != baud) speeds += strf(" %ld", speed_now(q->tio)); return SSIZE_MAX; };
  }
  std::vector<std::string> args = {t.name};
  args.insert(args.end(), opt.begin(), opt.end());
  args.insert(args.end(), pos.begin(), pos.end());
  std::string line;
  for (auto &a : args) line += (line.empty() ? "" : " ") + a;
  shape(0x3200 + (uint64_t)(&t - TOOLS) * 64 + opts * 4 + (bad ? 1 : 0) + (sec ? 2 : 0));
  int code = run_main(t.fn, args);
  const char *L = line.c_str();
  // nobody else is spoken to
  for (size_t i = 0; i < g_world->ports.size(); i++)
    if ((int)i != mine || bad) REQUIRE(g_world->ports[i]->tx.empty(), bad ? "transmits" : "elsewhere", "'%s' transmits %s on line %zu%s%s", L, hex(g_world->ports[i]->tx[0].b).c_str(), i, bad ? " with " : "", why.c_str());
  bool said = g_err.find("usage: ") != std::string::npos;
  if (bad) {
    if (usage) {
      REQUIRE(g_asked.empty(), "opens", "'%s' asks for %s with %s", L, g_asked[0].c_str(), why.c_str());
      REQUIRE(said, "usage", "'%s' does not explain itself with %s: '%s'", L, why.c_str(), g_err.substr(0, 200).c_str());
      probe("usage is explained");
    } else {
      for (auto &a : g_asked) REQUIRE(a == dest || !g_names.count(a), "opens", "'%s' asks for %s", L, a.c_str());
      REQUIRE(said || code != 0, "exit", "'%s' succeeds with %s", L, why.c_str());
      probe("a value out of range is refused");
    }
    REQUIRE(g_out.find("Found") == std::string::npos && g_out.find("<") == std::string::npos, "report", "'%s' reports '%s' with %s", L, g_out.substr(0, 200).c_str(), why.c_str());
    return;
  }
  REQUIRE(!said, "usage", "'%s' is refused: '%s'", L, g_err.substr(0, 200).c_str());
  for (auto &a : g_asked) REQUIRE(a == dest, "opens", "'%s' asks for %s", L, a.c_str());
  REQUIRE(speeds.empty(), "rate", "'%s' transmits at%s baud", L, speeds.substr(0, 100).c_str());
  // every frame is what the command line asks for
  Bytes all, rest;
  for (auto &x : p->tx) all.insert(all.end(), x.b.begin(), x.b.end());
  std::vector<Bytes> fs = frames(all, rest);
  if (clean) REQUIRE(rest.empty() && !fs.empty(), "frames", "'%s' transmits %s", L, hex(all).c_str());
  uint8_t m8[8];
  if (!mask.empty()) REQUIRE(mask_bytes(mask, m8), "harness", "mask %s", mask.c_str());
  int core = 0;                                            // frames that do what the tool is for
  std::map<int, int> pings;
  for (auto &f : fs) {
    bool ok = false;
    int ctl = f.size() > 1 && f[0] == 0x10 ? f[1] : f.size() > 6 ? f[4] & ~0x20 : -1, to = f.size() > 1 && f[0] == 0x10 ? f[2] : f.size() > 6 ? f[5] : -1, ci = f.size() > 6 ? f[6] : -1;
    if (f[0] == 0x10 && ctl == 0x40) {
      pings[to]++;
      ok = t.what == SCAN ? to <= 250 : to == 253 || to == 255 || (t.what == SET ? to == fresh : to == addr);
      if (t.what == SCAN) core++;
    }
    if (f[0] == 0x10 && (ctl & ~0x20) == 0x5B) {
      if (t.what == READ || t.what == MULTI) { ok = to == addr; core++; }
      if (t.what == SELECT) { ok = to == 253; core++; }
      if (t.what == SECOND || sec) ok = ok || to == 253;
    }
    if (f[0] == 0x68 && ci == 0x52 && to == 253 && f.size() == 17) {
      if (t.what == SECOND) {
        ok = true;
        // the mask asked about is the named one or narrower
        uint8_t x8[8];
        for (int i = 0; i < 8; i++) x8[i] = f[7 + i];
        for (int i = 0; i < 8; i++) {
          if (i >= 4 && m8[i] == 0xFF) continue;
          if ((m8[i] >> 4) != 0xF && (m8[i] >> 4) != (x8[i] >> 4)) ok = false;
          if ((m8[i] & 15) != 0xF && (m8[i] & 15) != (x8[i] & 15)) ok = false;
        }
        core++;
      } else if (sec) ok = std::equal(m8, m8 + 8, f.begin() + 7);
    }
    if (t.what == SET && f[0] == 0x68 && ci == 0x51) { ok = to == addr && f.size() == 12 && f[7] == 0x01 && f[8] == 0x7A && f[9] == (uint8_t)fresh; core++; }
    if (t.what == BAUD && f[0] == 0x68 && ci >= 0xB8 && ci <= 0xBF) { ok = to == addr && RATES[ci - 0xB8] == target && f.size() == 9; core++; }
    if (t.what == RESET && f[0] == 0x68 && ci == 0x50) { ok = to == addr && f.size() == (subcode < 0 ? 9u : 10u) && (subcode < 0 || f[7] == subcode); core++; }
    if (t.what == RAW && f == raw) { ok = true; core++; }
    REQUIRE(ok, "frames", "'%s' transmits %s", L, hex(f).c_str());
  }
  // the trace only on request
  bool trace = g_err.find("] SEND (") != std::string::npos;
  if (!fs.empty()) REQUIRE(trace == ((opts & O_D) != 0), "trace", "'%s' writes %s trace", L, trace ? "a" : "no");
  if (t.what == RAW || t.what == SET || t.what == BAUD || t.what == RESET) REQUIRE(core <= 1, "frames", "'%s' transmits its command %d times", L, core);
  if (!clean) { probe("a permitted line on a disturbed bus"); return; }
  // an undisturbed bus
  bool hears = t.tcp || line_baud == baud;
  probe(hears ? "a permitted line on a good bus" : "a meter at another rate");
  if (t.what == SCAN) {
    for (int a = 0; a <= 250; a++) {
      REQUIRE(pings[a] >= 1, "frames", "'%s' does not ask the address %d", L, a);
      bool present = hears && b.by_addr(a);
      if (retries >= 0 && !present) REQUIRE(pings[a] == retries + 1, "retries", "'%s' asks the silent address %d %d times", L, a, pings[a]);
      if (retries < 0 && !present) REQUIRE(pings[a] == pings[a == 0 && !b.by_addr(0) ? 0 : b.by_addr(0) ? 251 : 0], "retries", "'%s' asks the silent address %d %d times, others %d times", L, a, pings[a], pings[0]);
      if (present) REQUIRE(pings[a] == 1, "retries", "'%s' asks the meter at %d %d times", L, a, pings[a]);
    }
    REQUIRE(code == 0, "exit", "'%s' ends with %d", L, code);
    return;
  }
  if (amb) {
    if (!hears) { REQUIRE(core == 0 && code != 0, "exit", "'%s' goes on with a meter at %ld baud", L, line_baud); return; }
    REQUIRE(selected, "frames", "'%s' selects nobody", L);
    if (!heard_to) heard_to = p->arrived.size();
    Bytes r(p->arrived.begin() + heard_from + (b.echo ? 17 : 0), p->arrived.begin() + heard_to);
    if (r == Bytes{0xE5}) return;                          // two answers became one
    REQUIRE(r.empty() == (amb == 1), "harness", "answers %s", hex(r).c_str());
    REQUIRE(core == 0, "frames", "'%s' goes on although %s matches", L, amb == 1 ? "no meter" : "more than one meter");
    REQUIRE(code != 0, "exit", "'%s' succeeds although %s matches", L, amb == 1 ? "no meter" : "more than one meter");
    probe(amb == 1 ? "a mask that no meter matches" : "a mask that both meters match");
    return;
  }
  if (t.what == RAW && raw[0] == 0x68 && raw.size() > 9) return;
  REQUIRE(core > 0 || !hears, "frames", "'%s' never does what it is for", L);
  if (t.what == SECOND) {
    REQUIRE(code == 0, "exit", "'%s' ends with %d", L, code);
    if (hears && id1 != id2) REQUIRE(g_out.find(mt.address()) != std::string::npos, "report", "'%s' does not find %s: '%s'", L, mt.address().c_str(), g_out.substr(0, 200).c_str());
    return;
  }
  if (sec && id1 == id2) return;
  if (hears) {
    REQUIRE(code == 0, "exit", "'%s' ends with %d: %s", L, code, g_err.substr(0, 200).c_str());
    if (t.what == READ || t.what == MULTI) {
      size_t n = 0;
      for (auto &s : b.sent) if (s.meter == mt.idx && s.telegram >= 0) n = std::max(n, (size_t)s.telegram + 1);
      size_t want = t.what == READ ? 1 : limit > 0 ? std::min(telegrams, limit) : telegrams;
      REQUIRE(n == want, "limit", "'%s' reads %zu telegrams of %d", L, n, telegrams);
      if (t.what == MULTI && telegrams > limit && limit > 0) probe("a frame limit takes effect");
    }
    if (t.what == SET) REQUIRE(mt.addr == fresh, "effect", "'%s' leaves the meter at %d", L, mt.addr);
  } else if (t.what != RAW) REQUIRE(code != 0, "exit", "'%s' succeeds with a meter at %ld baud", L, line_baud);
}
}
PROPERTY("C32", c32, 80000, 1000000, "14 tools x every permitted command line x lines that are none x several devices and hosts x faults")
