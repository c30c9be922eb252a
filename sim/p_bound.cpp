// C03: every operation returns in bounded time once the line is quiet
#include "drv.h"
#include <cerrno>
#include <climits>

static Bytes junk() {
  static const std::vector<uint8_t> rc = {0x08, 0x18, 0x28, 0x38, 0x53, 0x73};
  switch (choose(7)) {
    case 0: return ACK;
    case 1: { Bytes b = f_long(pick(rc), (uint8_t)choose(256), pick(Bytes{0x72, 0x73, 0x70}), Bytes((size_t)range(0, 60), (uint8_t)choose(256))); return b; }
    case 2: { Bytes b = f_long(pick(rc), 1, 0x72, Bytes((size_t)range(0, 60), 0x1F)); b.resize((size_t)range(1, b.size() - 1)); return b; }
    case 3: return f_short(pick(Bytes{0x40, 0x5B, 0x7B}), (uint8_t)choose(256));
    case 4: { Bytes b; for (int i = (int)range(1, 12); i > 0; i--) b.push_back((uint8_t)choose(256)); return b; }
    case 5: return {0x68, 0xFF, 0xFF, 0x68};
    default: { Bytes b = f_long(0x08, 1, 0x72, {0x78, 0x56, 0x34, 0x12, 0x2D, 0x2C, 1, 4, 0, 0, 0, 0, 0x01, 0x13, 5, 0x1F}); return b; }
  }
}
static void c03() {
  Bus &b = gen_bus();
  Port *p = b.port;
  double tmo = 4.0;
  if (p->kind == P_TCP && chance(1, 2)) { tmo = pick(std::vector<double>{0.5, 1.0, 10.0}); mbus_tcp_set_timeout_set(tmo); }
  b.tcp_max_gap = (ns_t)(tmo * 0.95 * SEC);
  Master m = open_master(0);
  int n = 3, ms = 1;
  if (chance(1, 2)) { n = (int)choose(10); mbus_context_set_option(m.h, MBUS_OPTION_MAX_DATA_RETRY, n); }
  if (chance(1, 2)) { ms = (int)choose(10); mbus_context_set_option(m.h, MBUS_OPTION_MAX_SEARCH_RETRY, ms); }
  if (chance(1, 4)) mbus_context_set_option(m.h, MBUS_OPTION_PURGE_FIRST_FRAME, (long)choose(3));
  mbus_register_found_event(m.h, [](mbus_handle *, mbus_frame *) {});
  b.echo = chance(1, 3);
  b.segments = chance(1, 2);
  b.gaps = chance(1, 2);
  p->cfg_short_read = chance(1, 4);
  ns_t r = recv_window(p);
  ns_t quiet = chance(1, 4) ? 0 : (ns_t)range(1, 40) * r / 4;
  if (p->kind == P_TCP && chance(1, 2)) { p->cfg_eintr = true; p->eintr_until = quiet; p->eintr_rate = chance(1, 2) ? 20 : 80; }
  bool meters = chance(1, 2);
  if (meters) gen_meters(b, PopOpt());
  b.hostile = [&](const Bytes &, Bytes &out) {
    if (g_now >= quiet) return true;                    // silence
    if (meters && chance(1, 2)) return false;
    if (chance(1, 4)) return true;
    out = junk();
    if (chance(1, 3)) { Bytes x = junk(); out.insert(out.end(), x.begin(), x.end()); }
    return true;
  };
  // bytes nobody asked for
  ns_t t = g_now;
  for (int i = (int)range(0, 5); i > 0; i--) {
    Bytes x = junk();
    fault(F_JUNK);
    t += chance(1, 2) ? 0 : (ns_t)range(0, 20) * r / 10;
    if (t >= quiet && quiet > 0) break;
    t = b.emit(x, t);
  }
  int end = (int)choose(6);                             // 0,1 silence 2 closed 3 reset 4 device dead 5 peer stalled
  if (end == 2) { if (p->kind == P_TCP) p->fin_at = quiet; else p->hup_at = quiet; }
  if (end == 3) { if (p->kind == P_TCP) p->rst_at = quiet; else p->hup_at = quiet; }
  if (end == 4) for (int i = 0; i < 50; i++) p->read_errs.push_back({quiet, pick(std::vector<int>{EIO, EBADF, ETIMEDOUT})});
  if (end == 5 && p->kind == P_TCP) { p->stall_at = quiet; p->stall_room = choose(40); fault(F_STALL); }
  int op = (int)choose(9);
  mbus_frame fr;
  memset(&fr, 0, sizeof fr);
  char buf[32];
  ns_t t0 = g_now;
  uint64_t reads0 = p->nreads, writes0 = p->nwrites;
  size_t used0 = p->consumed.size();
  ns_t bound = 0;
  const char *name = "";
  std::string mask = "12345678FFFFFFFF";
  int res = 0;
  uint64_t attempts = 1;
  switch (op) {
    case 0: name = "receive"; res = mbus_recv_frame(m.h, &fr); bound = 3 * r; break;
    case 1: name = "purge"; res = mbus_purge_frames(m.h); bound = 6 * r; break;
    case 2: name = "ping"; res = mbus_send_ping_frame(m.h, 1, 1); bound = 6 * r; break;
    case 3: name = "readout"; res = mbus_sendrecv_request(m.h, 1, &fr, (int)choose(3)); free_chain(&fr); attempts = n + 2; bound = (n + 3) * 6 * r; break;
    case 4: name = "select"; res = mbus_select_secondary_address(m.h, mask.c_str()); bound = 8 * r; break;
    case 5: name = "probe"; res = mbus_probe_secondary_address(m.h, mask.c_str(), buf); attempts = ms + 2; bound = (ms + 3) * 8 * r; break;
    case 6: {
      mbus_address a;
      memset(&a, 0, sizeof a);
      a.secondary = (char *)mask.c_str();
      if (chance(1, 2)) { a.is_primary = 1; a.primary = 1; }
      name = "single request"; res = mbus_read_slave(m.h, &a, &fr); bound = 12 * r; break;
    }
    case 7: {
      name = "scan";
      int d = (int)range(1, 2);
      for (int i = 0; i < d; i++) mask[7 - i] = 'F';
      attempts = 10 * 17 * (ms + 2);
      res = mbus_scan_2nd_address_range(m.h, 0, (char *)mask.c_str());
      bound = (ns_t)attempts * 8 * r;
      break;
    }
    default:
      name = "two receives";
      mbus_recv_frame(m.h, &fr);
      res = mbus_recv_frame(m.h, &fr);
      bound = 6 * r;
  }
  ns_t q = std::max(std::max(quiet, p->last_arrival), t0);
  // time the master itself needs to transmit after that
  ns_t tx = 0;
  for (auto &x : p->tx) if (x.end > q) tx += x.end - std::max(x.start, q);
  shape(0x900 + op * 8 + end);
  REQUIRE(g_now - q - tx <= bound, "too-long", "%s returns %.3f s after the line fell silent (window %.3f s, bound %.3f s, result %d)", name,
          (g_now - q) / 1e9, r / 1e9, bound / 1e9, res);
  uint64_t io = (p->nreads - reads0) + (p->nwrites - writes0), got = p->consumed.size() - used0;
  uint64_t lim = 4 * got + 60 * attempts + 200 + fault_count(F_EINTR_READ) * 2 + (quiet / MS) / 50 + fault_count(F_JUNK) * 20 + b.log.size() * 40;
  REQUIRE(io <= lim, "too-many-calls", "%s made %llu I/O calls for %llu bytes", name, (unsigned long long)io, (unsigned long long)got);
  if (q > t0 && g_now > q) probe("operation outlived the traffic");
  close_master(m);
}
PROPERTY("C03", c03, 240000, 3000000,
  "one run: one operation (receive, purge, ping, readout, select, probe, single request, scan of 1 or 2 digits) with any retry settings while hostile traffic (partial, damaged, endless frames, noise, interrupted reads) lasts until a chosen instant, after which the line is silent, closed, reset, dead or stalled; the return is bounded from that instant; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")
