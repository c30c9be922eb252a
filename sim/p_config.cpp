// C22: the tools that change something in a meter
#include "drv.h"
#include <cerrno>
#include <climits>

extern "C" int tool_mbus_serial_set_address(int, char **);
extern "C" int tool_mbus_serial_switch_baudrate(int, char **);
extern "C" int tool_mbus_serial_select_secondary(int, char **);
extern "C" int tool_mbus_tcp_select_secondary(int, char **);
extern "C" int tool_mbus_tcp_application_reset(int, char **);

static void c22() {
  enum { SET, BAUD, SELECT, RESET };
  int what = (int)choose(4);
  bool tcp = what == RESET || (what == SELECT && chance(1, 2));
  long baud = 9600;
  if (!tcp && chance(1, 3)) baud = pick(std::vector<long>{2400, 300, 38400, 4800, 1200, 600, 19200});
  Bus &b = g_world->add(tcp ? P_TCP : P_TTY, baud);
  Port *p = b.port;
  b.segments = chance(1, 2);
  b.gaps = chance(1, 2);
  b.echo = chance(1, 6);
  b.corrupt_may_ack = false;
  PopOpt o;
  o.max_meters = 4;
  gen_meters(b, o);
  // several meters at one address, neighbours by number
  if (b.meters.size() > 1 && chance(1, 4)) b.meters[1].addr = b.meters[0].addr;
  if (b.meters.size() > 1 && chance(1, 3)) { b.meters[1].id = b.meters[0].id ^ 1; if (chance(1, 2)) { b.meters[1].id = b.meters[0].id; b.meters[1].ver = (uint8_t)(b.meters[0].ver + 16); } }
  bool clean = chance(1, 3);
  for (auto &m : b.meters) {
    if (chance(1, 12)) m.silent = true;
    if (!clean && chance(1, 6)) m.refuse_rate = pick(std::vector<int>{100, 50});
    if (what == SELECT && chance(1, 8)) { m.fixed = true; for (auto &t : m.telegrams) t = {0x00, 0x05, 0x69, 0x01, 0, 0, 0, 0x02, 0, 0, 0}; m.l0 = m.lfd = Link(); }
  }
  Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
  // whom
  bool secondary = what == SELECT || (what != BAUD && chance(1, 3));
  std::string addr;
  std::vector<Meter *> hit;
  if (secondary) {
    addr = mt.address();
    switch (choose(4)) {
      case 1: for (int i = 0; i < 8; i++) if (chance(1, 2)) addr[i] = 'F'; break;
      case 2: for (int i = 0; i < 16; i++) if (i < 8 ? chance(1, 4) : true) addr[i] = 'F'; break;
      case 3: addr[choose(8)] = (char)('0' + choose(10)); break;
    }
    if (chance(1, 4)) for (auto &c : addr) c = (char)tolower(c);
    uint8_t m8[8];
    REQUIRE(mask_bytes(addr, m8), "harness", "mask %s", addr.c_str());
    for (auto &m : b.meters) if (!m.silent && m.matches(m8)) hit.push_back(&m);
  } else {
    int a = chance(1, 8) ? (int)choose(251) : mt.addr;
    addr = std::to_string(a);
    for (auto &m : b.meters) if (!m.silent && m.addr == a) hit.push_back(&m);
  }
  bool bad = chance(1, 10);                               // invalid arguments
  if (bad && what == SELECT) { switch (choose(3)) { case 0: addr = addr.substr(0, choose(16)); break; case 1: addr += "0"; break; default: addr[choose(16)] = pick(std::vector<char>{'G', ' ', 'x', '-', 'g'}); } }
  std::vector<std::string> args;
  bool debug = (what == SET || what == RESET) && chance(1, 6);
  auto head = [&](const char *n) {
    args.push_back(n);
    if (debug) args.push_back("-d");
    if (!tcp && baud != 9600) { args.push_back("-b"); args.push_back(std::to_string(baud)); }
    if (tcp) { args.push_back("gw0"); args.push_back("10001"); } else args.push_back("/dev/sim0");
    args.push_back(addr);
  };
  bool wrapped = false;                                   // an address that only looks like that of a meter when it is cut
  if (bad && !secondary && what != SELECT && chance(1, 2)) { wrapped = true; addr = std::to_string(mt.addr + pick(std::vector<int>{256, -256, 512, 65536, 16777216})); hit.clear(); }
  int fresh = 0, subcode = -1;
  long target = 0;
  std::string key;
  int (*tool)(int, char **) = nullptr;
  if (what == SET) {
    tool = tool_mbus_serial_set_address;
    head("mbus-serial-set-address");
    if (bad && !wrapped) { args.push_back(pick(std::vector<std::string>{"253", "254", "255", "256", "-1", "1000", "509", "-250", "262", "65542"})); fresh = atoi(args.back().c_str()); }
    else {
      fresh = chance(1, 3) ? b.meters[choose((uint32_t)b.meters.size())].addr : (int)pick(std::vector<int>{7, 0, 250, (int)choose(251)});
      args.push_back(std::to_string(fresh));
    }
    key = strf("Set primary address of device to %d\n", fresh);
  } else if (what == BAUD) {
    tool = tool_mbus_serial_switch_baudrate;
    head("mbus-serial-switch-baudrate");
    target = bad && !wrapped ? pick(std::vector<long>{9601, 0, 115200, -300, 2401, 67936, 75136, 4294969696l}) : pick(std::vector<long>{300, 600, 1200, 2400, 4800, 9600, 19200, 38400});
    args.push_back(std::to_string(target));
    key = strf("Switched baud rate of device to %ld\n", target);
  } else if (what == SELECT) {
    tool = tcp ? tool_mbus_tcp_select_secondary : tool_mbus_serial_select_secondary;
    head(tcp ? "mbus-tcp-select-secondary" : "mbus-serial-select-secondary");
    key = "Recieved a reply from secondarily addressed device: ";
  } else {
    tool = tool_mbus_tcp_application_reset;
    if (bad && !wrapped && !secondary) addr = pick(std::vector<std::string>{"256", "-1", "999"});
    head("mbus-tcp-application-reset");
    if (chance(1, 2)) { subcode = (int)choose(256); args.push_back(std::to_string(subcode)); }
    key = "Successful reset device";
  }
  // faults
  int broken = 0;
  if (!clean) {
    static const std::vector<ReplyFault> kinds = {RF_DROP_REQ, RF_DROP_REP, RF_CORRUPT_REP, RF_TRUNC_REP, RF_CORRUPT_REQ, RF_DUP_REP, RF_NOISE_PRE, RF_NOISE_POST};
    gen_faults(b, kinds);
    if (chance(1, 3)) broken = (int)range(1, 6);
    if (chance(1, 8)) { uint64_t n = (uint64_t)range(1, 20); g_oom = [n](size_t) { return g_allocs == n; }; }
  }
  int seen = 0, at = broken ? (int)range(0, 7) : 0;
  if (broken == 4 || broken == 5) p->write_fault = [&](size_t n) -> ssize_t { if (seen++ < at) return SSIZE_MAX; return broken == 4 ? -EIO : (ssize_t)range(0, (int64_t)n - 1); };
  if (broken == 6) {
    if (tcp) { int k = (int)choose(2); if (k == 0) g_socket_fail = [] { return EMFILE; }; if (k == 1) g_resolve = [p](const char *, const char *, std::vector<TcpTarget> &v) { v.push_back({true, p}); return 0; }; }
    else { int k = (int)choose(2); if (k == 0) p->hup_at = 0; if (k == 1) { int f = (int)choose(3), n = 0; g_termios_fail = [f, n]() mutable { return n++ == f; }; } }
  }
  // who answers at the new address, and what the master heard of it
  bool occupied = false;
  for (auto &m : b.meters) if (!m.silent && m.addr == fresh) occupied = true;
  int changes = 0, others = 0;
  size_t asked = SIZE_MAX;                                // what had arrived when the new address was last asked
  bool heard = false, checked = false;
  b.on_frame = [&](const Bytes &f) {
    if (asked != SIZE_MAX) { if (p->arrived.size() > asked + (b.echo ? 5 : 0)) heard = true; asked = SIZE_MAX; }
    if (what == SET && f.size() == 5 && f[1] == 0x40 && f[2] == fresh) { asked = p->arrived.size(); checked = true; }
    if (f[0] == 0x68 && f[6] == 0x51) { changes++; if (!(f.size() == 12 && f[7] == 0x01 && f[8] == 0x7A && f[9] == (uint8_t)fresh)) others++; }
    if (broken && broken <= 3 && seen++ == at)
      for (int i = broken == 3 ? 80 : 1; i > 0; i--) break_transport(p, g_now + (chance(1, 2) ? 0 : (ns_t)range(0, 8) * b.window() / 8), broken - 1);
  };
  std::vector<int> resets0;
  for (auto &m : b.meters) resets0.push_back(m.app_resets);
  shape(0xE00 + what * 64 + (secondary ? 1 : 0) + (bad ? 2 : 0) + (tcp ? 4 : 0) + broken * 8);
  int code = run_main(tool, args);
  const char *n = args[0].c_str();
  size_t said = g_out.find(key);
  bool success = said != std::string::npos;
  REQUIRE(success == (code == 0), "exit", "%s ends with %d and says '%s'", n, code, g_out.substr(0, 200).c_str());
  // the last exchange of the change itself
  const Exchange *last = nullptr;
  for (auto &x : b.log) {
    const Bytes &f = x.frame;
    if (what == SET && f[0] == 0x68 && f[6] == 0x51) last = &x;
    if (what == BAUD && f[0] == 0x68) last = &x;
    if (what == RESET && f[0] == 0x68 && f[6] == 0x50) last = &x;
  }
  bool acknowledged = last && last->delivered && last->answers > last->refused && last->fault != RF_DROP_REP && (last->answers > 1 || (last->fault != RF_TRUNC_REP && last->fault != RF_CORRUPT_REP));
  if (what != SELECT && success) REQUIRE(acknowledged, "false-success", "%s says '%s', no meter acknowledged it", n, key.c_str());
  if (what == SET) {
    bool valid = fresh >= 0 && fresh <= 252;
    REQUIRE(others == 0, "frames", "%s transmits a change other than the one asked for", n);
    if (!valid) REQUIRE(changes == 0 && code != 0, "invalid", "%s to the address %d ends with %d, %d change frames were transmitted", n, fresh, code, changes);
    if (wrapped) REQUIRE(changes == 0 && code != 0, "invalid", "%s from the address %s ends with %d, %d change frames were transmitted", n, addr.c_str(), code, changes);
    if (changes && occupied) {
      REQUIRE(checked, "occupied", "%s changes to the address %d, at which there is a meter, without asking it", n, fresh);
      REQUIRE(!heard, "occupied", "%s transmits a change to the address %d although an answer came from it", n, fresh);
      probe("address change although the occupant was not heard");
    }
    if (success) {
      for (auto m : hit) REQUIRE(m->addr == (uint8_t)fresh || (last->refused && m->refused), "false-success", "%s says success, the meter's address is %d", n, m->addr);
      REQUIRE(!hit.empty(), "false-success", "%s says success, nobody has the address %s", n, addr.c_str());
      probe("primary address changed");
    }
    if (occupied && clean) REQUIRE(code != 0, "occupied", "%s succeeds for the occupied address %d", n, fresh);
    if (clean && valid && !wrapped && !occupied && hit.size() == 1) REQUIRE(success, "refused", "%s from %s to %d fails without any fault: %s", n, addr.c_str(), fresh, g_err.c_str());
  } else if (what == BAUD) {
    static const std::vector<long> rates = {300, 600, 1200, 2400, 4800, 9600, 19200, 38400};
    if (bad) REQUIRE(b.log.empty() && code != 0, "invalid", "%s to %ld baud ends with %d, %zu frames were transmitted", n, target, code, b.log.size());
    if (success) {
      size_t k = std::find(rates.begin(), rates.end(), target) - rates.begin();
      REQUIRE(!b.baud_switch.empty() && b.baud_switch.back()[6] == 0xB8 + k, "false-success", "%s says success, no meter was told to use %ld baud", n, target);
      probe("baud rate switched");
    }
    if (clean && !bad && hit.size() == 1) REQUIRE(success, "refused", "%s fails without any fault: %s", n, g_err.c_str());
  } else if (what == RESET) {
    if (success) {
      int k = 0;
      for (size_t i = 0; i < b.meters.size(); i++) k += b.meters[i].app_resets - resets0[i];
      REQUIRE(k > 0, "false-success", "%s says success, no meter was reset", n);
      probe("application reset");
    }
    if (bad && !secondary) REQUIRE(code != 0, "invalid", "%s for %s succeeds", n, addr.c_str());
    if (clean && !bad && hit.size() == 1) REQUIRE(success, "refused", "%s for %s fails without any fault: %s", n, addr.c_str(), g_err.c_str());
  } else {
    if (bad) { REQUIRE(b.log.empty() && code != 0, "invalid", "%s for %s ends with %d, %zu frames were transmitted", n, addr.c_str(), code, b.log.size()); return; }
    if (success) {
      std::string rest = g_out.substr(said + key.size()), want;
      std::vector<Meter *> sel;
      for (auto &m : b.meters) if (m.selected && !m.silent) sel.push_back(&m);
      REQUIRE(sel.size() == 1, "selection", "%s says '%s', %zu meters are selected", n, rest.c_str(), sel.size());
      want = strf("Searched for [%s] and found [%s].\n", addr.c_str(), sel[0]->address().c_str());
      REQUIRE(rest == want, "selection", "%s says '%s', the meter selected is %s", n, rest.c_str(), sel[0]->address().c_str());
      REQUIRE(std::find(hit.begin(), hit.end(), sel[0]) != hit.end(), "selection", "%s selects %s for %s", n, sel[0]->address().c_str(), addr.c_str());
      probe("secondary address selected");
    } else if (hit.size() > 1) probe("ambiguous selection refused");
    if (clean && hit.size() == 1 && !hit[0]->fixed) REQUIRE(success, "refused", "%s for %s fails without any fault: %s", n, addr.c_str(), g_err.c_str());
  }
}
PROPERTY("C22", c22, 300000, 2500000,
  "one run: one run of the set-address, switch-baudrate, select (serial or TCP) or application reset tool with valid and invalid arguments over 1 to 4 meters, some silent, sharing an address, or matching the same mask, with losses, damage, duplicates, noise, meters that refuse the request, stale meter state, a failing allocation, or a transport that cannot be opened or fails at a chosen frame; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")
