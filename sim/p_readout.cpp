// C21: the tools that read meters
#include "drv.h"
#include <cerrno>
#include <climits>

extern "C" int tool_mbus_serial_request_data(int, char **);
extern "C" int tool_mbus_tcp_request_data(int, char **);
extern "C" int tool_mbus_serial_request_data_multi_reply(int, char **);
extern "C" int tool_mbus_tcp_request_data_multi_reply(int, char **);

static std::string element(const std::string &x, const char *name, size_t from = 0) {
  std::string a = strf("<%s>", name), b = strf("</%s>", name);
  size_t s = x.find(a, from);
  if (s == std::string::npos) return "";
  size_t e = x.find(b, s);
  return e == std::string::npos ? "" : x.substr(s + a.size(), e - s - a.size());
}
int read_docs(const std::string &out, std::vector<Doc> &docs) {  
  size_t at = 0;
  while ((at = out.find("<?xml", at)) != std::string::npos) {
    size_t next = out.find("<?xml", at + 5), end = out.find("</MBusData>", at);
    if (end == std::string::npos || (next != std::string::npos && next < end)) return -1;
    std::string x = out.substr(at, end - at);
    if (x.find("<MBusData>") == std::string::npos) return -1;
    Doc d;
    d.id = element(x, "Id");
    d.error = element(x, "Error");
    d.access = atol(element(x, "AccessNumber").c_str());
    d.values.emplace_back();
    size_t r = 0;
    while ((r = x.find("<DataRecord", r)) != std::string::npos) {
      size_t re = x.find("</DataRecord>", r), h = x.find('>', r);
      if (re == std::string::npos) return -1;
      std::string head = x.substr(r, h - r), body = x.substr(r, re - r);
      size_t k = head.find("frame=\""), n = k == std::string::npos ? 0 : (size_t)atoi(head.c_str() + k + 7);
      if (n > 1000) return -1;
      while (d.values.size() <= n) d.values.emplace_back();
      if (body.find("More records follow") == std::string::npos) d.values[n].push_back(element(body, "Value"));
      r = re;
    }
    docs.push_back(d);
    at = end;
  }
  return out.find("</MBusData>") != std::string::npos && docs.empty() ? -1 : (int)docs.size();
}
// the values a telegram of simple_meter stands for
static std::vector<std::string> values_of(const Bytes &t) {
  std::vector<std::string> v;
  for (size_t i = 19; i + 2 < t.size();) {
    if (t[i] == 0x04) { v.push_back(std::to_string((int32_t)((uint32_t)t[i + 2] | t[i + 3] << 8 | t[i + 4] << 16 | (uint32_t)t[i + 5] << 24))); i += 6; }
    else if (t[i] == 0x02) { v.push_back(std::to_string((int16_t)(t[i + 2] | t[i + 3] << 8))); i += 4; }
    else break;
  }
  return v;
}
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return s; }

static void c21() {
  bool tcp = chance(1, 2), multi = chance(1, 2);
  long baud = 9600;
  if (!tcp && chance(1, 3)) baud = pick(std::vector<long>{2400, 300, 38400, 4800, 1200, 600, 19200});
  Bus &b = g_world->add(tcp ? P_TCP : P_TTY, baud);
  Port *p = b.port;
  b.segments = chance(1, 2);
  b.gaps = chance(1, 2);
  b.echo = chance(1, 6);
  p->cfg_short_read = chance(1, 4);
  if (tcp && chance(1, 4)) p->cfg_eintr = true;
  // meters
  PopOpt o;
  o.max_meters = 3;
  o.max_telegrams = chance(1, 8) ? 20 : 4;
  gen_meters(b, o);
  bool endless = multi && chance(1, 200);                  // hundreds of telegrams
  if (endless) { Meter &x = b.meters[0]; x = simple_meter(x.idx, x.addr, x.id, (int)range(250, 300), 0); }
  bool shared = chance(1, 10) && b.meters.size() > 1;
  if (shared) { b.meters[1].addr = b.meters[0].addr; if (chance(1, 2)) b.meters[1].id = b.meters[0].id; }
  bool clean = chance(1, 3);
  if (!clean && chance(1, 6)) for (auto &x : b.meters) x.app_error_rate = (int)range(5, 50);
  // the address
  Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
  std::string addr;
  int form = pick(std::vector<int>{0, 0, 0, 1, 0, 1, 2, 3, 4, 5});                              // 0 primary 1 secondary 2 wildcards 3 nobody 4 any meter (254) 5 invalid
  std::vector<Meter *> hit;
  if (form == 0) { addr = std::to_string(mt.addr); for (auto &m : b.meters) if (m.addr == mt.addr) hit.push_back(&m); }
  if (form == 1 || form == 2) {
    addr = mt.address();
    if (form == 2) for (int i = 0; i < 8; i++) if (chance(1, 2)) addr[i] = 'F';
    if (form == 2 && chance(1, 2)) addr = addr.substr(0, 8) + "FFFFFFFF";
    if (chance(1, 3)) for (auto &c : addr) c = (char)tolower(c);
    uint8_t m8[8];
    REQUIRE(mask_bytes(addr, m8), "harness", "mask %s", addr.c_str());
    for (auto &m : b.meters) if (m.matches(m8)) hit.push_back(&m);
  }
  if (form == 3) {
    if (chance(1, 2)) { int a = (int)choose(251); while (b.by_addr(a)) a = (a + 1) % 251; addr = std::to_string(a); }
    else addr = "99887766FFFFFFFF";
    uint8_t m8[8];
    if (mask_bytes(addr, m8)) for (auto &m : b.meters) if (m.matches(m8)) hit.push_back(&m);
  }
  if (form == 4) { addr = "254"; for (auto &m : b.meters) hit.push_back(&m); }
  if (form == 5) addr = pick(std::vector<std::string>{"256", "-1", "1000", "255", "99999", std::to_string(mt.addr + 256), std::to_string(mt.addr - 256), std::to_string(mt.addr + 65536)});
  // arguments
  bool debug = chance(1, 6);
  size_t limit = 16;
  std::vector<std::string> args = {strf("mbus-%s-request-data%s", tcp ? "tcp" : "serial", multi ? "-multi-reply" : "")};
  if (debug) args.push_back("-d");
  if (!tcp && baud != 9600) { args.push_back("-b"); args.push_back(std::to_string(baud)); }
  if (multi && chance(1, 2)) { limit = endless ? pick(std::vector<size_t>{0, 127, 255, 256, 280, 1000})     : chance(1, 10) ? pick(std::vector<size_t>{65538, 257, 128, 32768, 65537, 2147483647}) : (size_t)choose(22); args.push_back("-f"); args.push_back(std::to_string(limit)); }
  if (tcp) { args.push_back("gw0"); args.push_back("10001"); } else args.push_back("/dev/sim0");
  args.push_back(addr);
  // what an earlier run left on the line: all but the single TCP reader reset the link first and discard it
  bool stale_rx = false;
  if ((!tcp || multi) && chance(1, 4)) {
    stale_rx = true;
    fault(F_STALE_RX);
    Bytes x;
    switch (choose(4)) {
      case 0: x = mt.telegram(choose((uint32_t)mt.telegrams.size())); break;
      case 1: x = ACK; break;
      case 2: { x = b.meters.back().telegram(0); size_t k = (size_t)range(1, x.size() - 1); x.erase(x.begin(), x.begin() + k); if (frame_anywhere(x)) x = {0x16}; break; }
      default: x = mt.telegram(0); { Bytes y = b.meters[0].telegram(b.meters[0].telegrams.size() - 1); x.insert(x.end(), y.begin(), y.end()); }
    }
    b.emit(x, g_now);
  }
  // faults
  int broken = 0;
  if (!clean) {
    static const std::vector<ReplyFault> kinds = {RF_DROP_REQ, RF_DROP_REP, RF_CORRUPT_REP, RF_TRUNC_REP, RF_CORRUPT_REQ, RF_DUP_REP, RF_LATE_REP, RF_NOISE_PRE, RF_NOISE_POST};
    gen_faults(b, kinds);
    if (chance(1, 3)) broken = (int)range(1, 6);
    if (chance(1, 8)) { uint64_t n = (uint64_t)range(1, 60); g_oom = [n](size_t) { return g_allocs == n; }; }
  }
  int seen = 0, at = broken ? (int)range(0, 12) : 0;
  bool broke = false;
  if (broken && broken <= 3) b.on_frame = [&](const Bytes &) { if (seen++ == at) { broke = true; for (int i = broken == 3 ? 80 : 1; i > 0; i--) break_transport(p, g_now + (chance(1, 2) ? 0 : (ns_t)range(0, 8) * b.window() / 8), broken - 1); } };
  if (broken == 4 || broken == 5) p->write_fault = [&](size_t n) -> ssize_t { if (seen++ < at) return SSIZE_MAX; broke = true; return broken == 4 ? -EIO : (ssize_t)range(0, (int64_t)n - 1); };
  if (broken == 6) {
    broke = true;
    if (tcp) { int k = (int)choose(3); if (k == 0) g_socket_fail = [] { return EMFILE; }; if (k == 1) g_resolve = [p](const char *, const char *, std::vector<TcpTarget> &v) { v.push_back({true, p}); return 0; }; if (k == 2) args[args.size() - 3] = "nohost"; }
    else { int k = (int)choose(2); if (k == 0) p->hup_at = 0; if (k == 1) { int f = (int)choose(3), n = 0; g_termios_fail = [f, n]() mutable { return n++ == f; }; } }
  }
  shape(0xD00 + form * 32 + (tcp ? 1 : 0) + (multi ? 2 : 0) + broken * 4);
  int (*tool)(int, char **) = multi ? (tcp ? tool_mbus_tcp_request_data_multi_reply : tool_mbus_serial_request_data_multi_reply)
                                    : (tcp ? tool_mbus_tcp_request_data : tool_mbus_serial_request_data);
  int code = run_main(tool, args);
  std::vector<Doc> docs;
  int n = read_docs(g_out, docs);
  REQUIRE(n != -1, "document", "%s ends with %d and a document that is not whole", args[0].c_str(), code);
  REQUIRE((code == 0) == (n == 1) && n <= 1, "exit", "%s ends with %d and %d documents", args[0].c_str(), code, n);
  if (code != 0) {
    if (form == 5 || hit.empty()) probe("readout of nobody fails");
    if (clean && !broke && hit.size() == 1 && form != 5)
      fail("refused", "%s for %s ends with %d without any fault: %s", args[0].c_str(), addr.c_str(), code, g_err.substr(0, 200).c_str());
    return;
  }
  REQUIRE(form != 5, "address", "%s succeeds for the address %s", args[0].c_str(), addr.c_str());
  const Doc &d = docs[0];
  // whose data is it
  std::vector<const Sent *> mine;
  for (auto &s : b.sent) for (auto m : hit) if (m->idx == s.meter) mine.push_back(&s);
  std::string shown;
  for (auto &v : d.values) shown += " [" + join(v) + "]";
  if (!d.error.empty()) {                                 // the meter answered with an application error: no data, no doubt
    REQUIRE(d.id.empty() && d.values.size() == 1 && d.values[0].empty(), "mixed", "%s prints an application error and data", args[0].c_str());
    bool sent = false;
    for (auto s : mine) if (s->telegram == -2 && s->reached) sent = true;
    REQUIRE(sent, "foreign", "%s for %s prints the application error '%s', which no addressed meter sent", args[0].c_str(), addr.c_str(), d.error.c_str());
    probe("application error printed");
    return;
  }
  const Sent *first = nullptr;
  for (auto s : mine) {
    if (s->reached == 0 || s->telegram == -2) continue;
    std::string id = strf("%02X%02X%02X%02X", s->b[10], s->b[9], s->b[8], s->b[7]);
    if (strtoul(id.c_str(), nullptr, 10) == strtoul(d.id.c_str(), nullptr, 10) && !d.id.empty() && s->b[15] == d.access && values_of(s->b) == d.values[0]) { first = s; break; }
  }
  REQUIRE(first, "foreign", "%s for %s prints %s access %ld%s, which no addressed meter sent in answer", args[0].c_str(), addr.c_str(), d.id.c_str(), d.access, shown.c_str());
  if (!multi) {
    REQUIRE(d.values.size() == 1, "mixed", "%s prints %zu telegrams", args[0].c_str(), d.values.size());
    if (fault_count(F_STALE_STATE) || stale_rx) probe("single readout after an interrupted one");
    return;
  }
  Meter &m = *hit[0];
  bool reset = form == 1 || form == 2 || (form == 3 && addr.size() == 16); // a selection resets the link of the selected
  for (auto &x : b.log)
    if (x.delivered && x.answers && x.frame.size() == 5 && x.frame[1] == 0x40 && x.frame[2] == (form == 4 ? 254 : (uint8_t)atoi(addr.c_str()))) reset = true;
  if (hit.size() != 1 || !reset) {                        // ambiguous, or where the meter stands is unknown: at least nothing foreign
    for (auto &v : d.values) {
      bool ok = false;
      for (auto s : mine) if (values_of(s->b) == v) ok = true;
      REQUIRE(ok, "foreign", "%s for %s prints the telegram [%s], which no addressed meter sent", args[0].c_str(), addr.c_str(), join(v).c_str());
    }
    probe(reset ? "several meters answer a readout tool" : "multi-reply readout without a link reset");
    return;
  }
  size_t nt = m.telegrams.size(), want = nt;
  if (limit && want > limit) want = limit;
  REQUIRE(d.values.size() == want, "incomplete", "%s for %s prints %zu telegrams%s, the meter holds %zu, limit %zu", args[0].c_str(), addr.c_str(), d.values.size(), shown.c_str(), nt, limit);
  for (size_t i = 0; i < want; i++) {
    std::vector<std::string> v = values_of(m.telegram(i));
    REQUIRE(v == d.values[i], "mixed", "%s for %s: telegram %zu is [%s], printed is [%s]", args[0].c_str(), addr.c_str(), i, join(v).c_str(), join(d.values[i]).c_str());
  }
  if (want > 1) probe("several telegrams printed");
  if (limit && nt > limit) probe("frame limit cut a readout");
}
PROPERTY("C21", c21, 200000, 2000000,
  "one run: one run of a readout tool (serial or TCP, single or multi-reply, frame limit 0 to 21) for a primary, secondary, wildcard, shared, absent or invalid address over 1 to 3 meters with up to 20 telegrams, with losses, damage, duplicates, late answers, noise, stale meter state and input, a failing allocation, or a transport that cannot be opened or fails at a chosen frame; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")
