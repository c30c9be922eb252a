// C23: a master that dies, and its successor
#include "drv.h"
#include <cerrno>
#include <climits>

extern "C" {
int tool_mbus_serial_request_data_multi_reply(int, char **);
int tool_mbus_tcp_request_data_multi_reply(int, char **);
int tool_mbus_serial_scan_secondary(int, char **);
int tool_mbus_tcp_scan_secondary(int, char **);
int tool_mbus_serial_request_data(int, char **);
int tool_mbus_serial_select_secondary(int, char **);
int tool_mbus_serial_set_address(int, char **);
}

namespace {
enum What { READ, READ2, SCAN, PROBE, TOOL_READ, TOOL_SCAN, N_WHAT, TOOL_SINGLE = N_WHAT, TOOL_SELECT, TOOL_SET };
What g_what;
int g_addr;
char g_mask[32];
long g_baud;
int g_limit;
// no object with a destructor lives in here: the process may die at every call
int session(int, char **) {
  Port *p = g_world->ports[0].get();
  mbus_handle *h = p->kind == P_TTY ? mbus_context_serial("/dev/sim0") : mbus_context_tcp("gw0", 4000);
  if (!h || mbus_connect(h) == -1) return 1;
  if (p->kind == P_TTY) mbus_serial_set_baudrate(h, g_baud);
  mbus_frame f;
  memset(&f, 0, sizeof f);
  char buf[32];
  mbus_register_found_event(h, [](mbus_handle *, mbus_frame *) {});
  switch (g_what) {
    case READ:
      mbus_send_ping_frame(h, g_addr, 1);
      mbus_sendrecv_request(h, g_addr, &f, g_limit);
      if (f.next) mbus_frame_free((mbus_frame *)f.next);
      break;
    case READ2:
      mbus_send_ping_frame(h, MBUS_ADDRESS_NETWORK_LAYER, 1);
      if (mbus_select_secondary_address(h, g_mask) == MBUS_PROBE_SINGLE) {
        mbus_sendrecv_request(h, MBUS_ADDRESS_NETWORK_LAYER, &f, g_limit);
        if (f.next) mbus_frame_free((mbus_frame *)f.next);
      }
      break;
    case SCAN: mbus_scan_2nd_address_range(h, 0, (char *)"FFFFFFFFFFFFFFFF"); break;
    default: mbus_probe_secondary_address(h, g_mask, buf);
  }
  mbus_disconnect(h);
  mbus_context_free(h);
  return 0;
}
std::vector<std::string> found;
void on_found(mbus_handle *, mbus_frame *f) {
  Bytes b = frame_bytes(f);
  if (b.size() < 15) { found.push_back("?"); return; }
  const uint8_t *d = b.data() + 7;
  found.push_back(strf("%02X%02X%02X%02X%02X%02X%02X%02X", d[3], d[2], d[1], d[0], d[4], d[5], d[6], d[7]));
}
std::vector<std::string> tool_args(bool tcp, What w, std::string addr) {
  std::vector<std::string> a = {tcp ? "mbus-tcp" : "mbus-serial"};
  a[0] += w == TOOL_READ ? "-request-data-multi-reply" : w == TOOL_SCAN ? "-scan-secondary" : w == TOOL_SINGLE ? "-request-data" : w == TOOL_SELECT ? "-select-secondary" : "-set-address";
  if (!tcp && g_baud != 9600) { a.push_back("-b"); a.push_back(std::to_string(g_baud)); }
  if (w == TOOL_READ) { a.push_back("-f"); a.push_back("0"); }
  if (tcp) { a.push_back("gw0"); a.push_back("10001"); } else a.push_back("/dev/sim0");
  if (!addr.empty()) a.push_back(addr);
  return a;
}
int (*tool_of(bool tcp, What w))(int, char **) {
  if (w == TOOL_READ) return tcp ? tool_mbus_tcp_request_data_multi_reply : tool_mbus_serial_request_data_multi_reply;
  if (w == TOOL_SCAN) return tcp ? tool_mbus_tcp_scan_secondary : tool_mbus_serial_scan_secondary;
  if (w == TOOL_SINGLE) return tool_mbus_serial_request_data;
  if (w == TOOL_SELECT) return tool_mbus_serial_select_secondary;
  return tool_mbus_serial_set_address;
}
}
static void c23() {
  found.clear();
  bool tcp = chance(1, 2);
  g_baud = tcp ? 2400 : pick(std::vector<long>{2400, 9600, 300, 38400, 1200});
  Bus &b = g_world->add(tcp ? P_TCP : P_TTY, g_baud);
  Port *p = b.port;
  b.segments = chance(1, 2);
  b.gaps = chance(1, 2);
  b.echo = chance(1, 6);
  PopOpt o;
  o.max_meters = 3;
  gen_meters(b, o);
  Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
  int lives = (int)range(1, 4);
  for (int life = 0; life < lives; life++) {
    // a process that dies at some call, or while it waits
    int w = (int)choose(tcp ? N_WHAT : TOOL_SET + 1);
    g_what = (What)w;
    Meter &x = chance(2, 3) ? mt : b.meters[choose((uint32_t)b.meters.size())];
    g_addr = x.addr;
    snprintf(g_mask, sizeof g_mask, "%s", x.address().c_str());
    if (chance(1, 3)) for (int i = 8; i < 16; i++) g_mask[i] = 'F';
    g_limit = (int)choose(4);
    static const std::vector<ReplyFault> kinds = {RF_DROP_REQ, RF_DROP_REP, RF_CORRUPT_REP, RF_TRUNC_REP, RF_DUP_REP, RF_LATE_REP, RF_NOISE_POST};
    if (chance(1, 2)) gen_faults(b, kinds); else b.rate = 0;
    if (chance(1, 6)) for (auto &y : b.meters) y.app_error_rate = (int)range(5, 50);
    bool waiting = chance(1, 3);
    int at = (int)(chance(1, 2) ? range(1, 60) : range(1, chance(1, 3) ? 3000 : 400)), n = 0;
    bool mid_write = chance(1, 6);                         // part of a request is out when it dies
    auto die = [&] { if (++n == at) proc_crash(); };
    if (waiting) g_block_hook = die; else g_seam_hook = die;
    if (mid_write) {
      g_seam_hook = nullptr;
      g_block_hook = nullptr;
      at = (int)range(1, 12);
      p->write_fault = [&](size_t len) -> ssize_t { if (++n != at) return SSIZE_MAX; g_seam_hook = [] { proc_crash(); }; return (ssize_t)range(0, (int64_t)len - 1); };
    }
    shape(0xF00 + w * 4 + (waiting ? 1 : 0) + (mid_write ? 2 : 0));
    int code;
    if (w < TOOL_READ) code = run_main(session, {"session"});
    else {
      std::string a = w == TOOL_SCAN ? "" : w == TOOL_SELECT || (w != TOOL_SET && chance(1, 2)) ? x.address() : std::to_string(x.addr);
      std::vector<std::string> args = tool_args(tcp, (What)w, a);
      if (w == TOOL_SET) args.push_back(std::to_string(x.addr)); // its own address: refused if it lives so long
      code = run_main(tool_of(tcp, (What)w), args);
    }
    g_seam_hook = nullptr;
    g_block_hook = nullptr;
    p->write_fault = nullptr;
    if (code == 137) probe(waiting ? "crash while waiting" : mid_write ? "crash in a partial write" : "crash at a call");
    proc_end(true);
    // some time passes; the line keeps what arrives, or nobody is there to take it
    int pause = (int)choose(4);
    g_now += pause == 0 ? 0 : pause == 1 ? (ns_t)range(0, 50) * MS : pause == 2 ? (ns_t)range(0, 40) * 100 * MS : 60 * SEC;
    if (chance(1, 2)) { size_t k = p->pending(g_now); p->rx.erase(p->rx.begin(), p->rx.begin() + k); }
    else if (p->pending(g_now)) probe("input left for the next process");
    b.rate = 0;
    b.held.resize(b.held.size() > 1 ? 1 : b.held.size());  // at most one answer is still under way
  }
  // the successor
  b.rate = 0;
  for (auto &y : b.meters) y.app_error_rate = 0;
  int w = (int)choose(N_WHAT);
  std::string mask = mt.address();
  size_t s0 = b.sent.size(), l0 = b.log.size();
  shape(0xF80 + w);
  std::vector<std::string> all;
  for (auto &m : b.meters) all.push_back(m.address());
  std::sort(all.begin(), all.end());
  if (w == TOOL_READ || w == TOOL_SCAN) {
    bool sec = chance(1, 2);
    std::string a = w == TOOL_SCAN ? "" : sec ? mask : std::to_string(mt.addr);
    int code = run_main(tool_of(tcp, (What)w), tool_args(tcp, (What)w, a));
    if (w == TOOL_READ) {
      std::vector<Doc> docs;
      int n = read_docs(g_out, docs);
      REQUIRE(code == 0 && n == 1, "recovery", "after %d processes that died the readout tool for %s ends with %d: %s", lives, a.c_str(), code, g_err.substr(0, 200).c_str());
      REQUIRE(docs[0].values.size() == mt.telegrams.size(), "recovery", "after %d processes that died the readout tool for %s prints %zu telegrams of %zu", lives, a.c_str(), docs[0].values.size(), mt.telegrams.size());
      for (size_t i = 0; i < mt.telegrams.size(); i++) {
        const Bytes &t = mt.telegrams[i];
        std::string want = std::to_string((int32_t)((uint32_t)t[2] | t[3] << 8 | t[4] << 16 | (uint32_t)t[5] << 24));
        REQUIRE(!docs[0].values[i].empty() && docs[0].values[i][0] == want, "recovery", "after %d processes that died the readout tool for %s prints another telegram in place %zu", lives, a.c_str(), i);
      }
    } else {
      const std::string key = "Found a device on secondary address ";
      size_t at = 0;
      while ((at = g_out.find(key, at)) != std::string::npos) { found.push_back(g_out.substr(at + key.size(), 16)); at += key.size(); }
      REQUIRE(code == 0, "recovery", "after %d processes that died the scan tool ends with %d: %s", lives, code, g_err.substr(0, 200).c_str());
    }
    probe("recovered with a tool");
  } else {
    Master m = open_master(0);
    mbus_frame f;
    memset(&f, 0, sizeof f);
    int to = w == READ ? mt.addr : 0xFD;
    // link reset; repeated until it gets through when the line was disturbed
    for (int i = 0; i < 5; i++) {
      size_t l = b.log.size();
      int r = mbus_send_ping_frame(m.h, to, 1);
      REQUIRE(r != -1, "recovery", "the link reset cannot be sent");
      bool through = false;
      for (; l < b.log.size(); l++) if (b.log[l].delivered && b.log[l].frame == f_short(0x40, (uint8_t)to)) through = true;
      if (through) break;
      REQUIRE(i < 4, "recovery", "the link reset does not reach the bus");
    }
    if (chance(1, 3)) {                                     // the repeated operation meets losses it can make up for
      int left = 3;
      Bytes prev;
      b.plan = [left, prev](const Bytes &fr) mutable -> ReplyFault {
        if (fr.size() != 5 || (fr[1] & 0x4F) != 0x4B) return RF_NONE;
        if (fr != prev) { prev = fr; left = (int)choose(3); }
        return left-- > 0 ? (chance(1, 2) ? RF_DROP_REQ : RF_DROP_REP) : RF_NONE;
      };
    }
    if (w == SCAN || w == PROBE) b.plan = nullptr;
    if (w == READ2) {
      int r = mbus_select_secondary_address(m.h, mask.c_str());
      REQUIRE(r == MBUS_PROBE_SINGLE, "recovery", "after %d processes that died selecting %s answers %d", lives, mask.c_str(), r);
      for (auto &x : b.meters) REQUIRE(x.selected == (&x == &mt), "recovery", "after selecting %s meter %s is %sselected", mask.c_str(), x.address().c_str(), x.selected ? "" : "not ");
    }
    if (w == READ || w == READ2) {
      int r = mbus_sendrecv_request(m.h, to, &f, 0);
      REQUIRE(r == 0, "recovery", "after %d processes that died the readout fails (%d)", lives, r);
      std::vector<const mbus_frame *> c = chain(&f);
      REQUIRE(c.size() == mt.telegrams.size(), "recovery", "after %d processes that died the readout returns %zu telegrams of %zu", lives, c.size(), mt.telegrams.size());
      for (size_t i = 0; i < c.size(); i++) {
        Bytes got = frame_bytes(c[i]);
        bool ok = false;
        for (size_t k = s0; k < b.sent.size(); k++) if (b.sent[k].meter == mt.idx && b.sent[k].telegram == (int)i && b.sent[k].b == got) ok = true;
        REQUIRE(ok, "recovery", "after %d processes that died telegram %zu of the readout is %s, which the meter did not send in this readout", lives, i, hex(got).c_str());
      }
      if (c.size() > 1) probe("recovered a readout of several telegrams");
    } else if (w == SCAN) {
      mbus_register_found_event(m.h, on_found);
      int r = mbus_scan_2nd_address_range(m.h, 0, (char *)"FFFFFFFFFFFFFFFF");
      REQUIRE(r == 0, "recovery", "after %d processes that died the scan fails (%d)", lives, r);
    } else {
      char buf[32] = "";
      int r = mbus_probe_secondary_address(m.h, mask.c_str(), buf);
      REQUIRE(r == MBUS_PROBE_SINGLE && mask == buf, "recovery", "after %d processes that died probing %s answers %d %s", lives, mask.c_str(), r, r == MBUS_PROBE_SINGLE ? buf : "");
      for (auto &x : b.meters) REQUIRE(x.selected == (&x == &mt), "recovery", "after probing %s meter %s is %sselected", mask.c_str(), x.address().c_str(), x.selected ? "" : "not ");
    }
    free_chain(&f);
    close_master(m);
  }
  if (w == SCAN || w == TOOL_SCAN) {
    std::sort(found.begin(), found.end());
    std::string l;
    for (auto &x : found) l += " " + x;
    REQUIRE(found == all, "recovery", "after %d processes that died the scan finds%s of %zu meters", lives, l.c_str(), all.size());
    probe("recovered a scan");
  }
}
PROPERTY("C23", c23, 90000, 1500000,
  "one run: 1 to 4 processes (library sessions and tools, each reading, selecting, probing or scanning, over a faulty line) that die at a chosen call, wait or partial write, leaving meters and line as they are, with any pause; then one that resets the link and repeats a readout, selection, probe or scan, which must be complete; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and crash points")
