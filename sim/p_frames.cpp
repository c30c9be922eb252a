// C01 C04: receiving frames
#include "drv.h"
#include <cerrno>

static Bytes gen_frame(bool s2m_only) {
  int k = (int)choose(s2m_only ? 4 : 6);
  static const std::vector<uint8_t> rc = {0x08, 0x18, 0x28, 0x38}, mc = {0x53, 0x73}, sc = {0x40, 0x5B, 0x7B, 0x5A, 0x7A};
  auto payload = [&](size_t n) {
    Bytes d(n);
    int m = (int)choose(4);
    for (size_t i = 0; i < n; i++)
      d[i] = m == 0 ? (uint8_t)i : m == 1 ? pick(Bytes{0x68, 0xE5, 0x10, 0x16, 0x11, 0x13, 0x0D, 0x0A, 0x03, 0x04, 0x7F, 0xFF, 0x00}) : m == 2 ? (uint8_t)choose(256) : 0xE5;
    return d;
  };
  auto len = [&]() -> size_t {
    switch (choose(5)) {
      case 1: return 252;
      case 2: return 1;
      case 3: return (size_t)range(240, 252);
      case 4: return (size_t)range(1, 252);
    }
    return (size_t)range(1, 20);
  };
  switch (k) {
    case 0: return f_long(pick(rc), (uint8_t)choose(256), pick(Bytes{0x72, 0x73, 0x70, (uint8_t)choose(256)}), payload(len()));
    case 1: return ACK;
    case 2: return f_long(pick(rc), (uint8_t)choose(256), (uint8_t)choose(256), {});
    case 3: return f_long(pick(rc), 1, 0x72, payload(len()));
    case 4: return f_short(pick(sc), (uint8_t)choose(256));
    default: return f_long(pick(mc), (uint8_t)choose(256), (uint8_t)choose(256), payload(chance(1, 3) ? 0 : len()));
  }
}
static int type_of(const Bytes &b) {
  if (b[0] == 0xE5) return MBUS_FRAME_TYPE_ACK;
  if (b[0] == 0x10) return MBUS_FRAME_TYPE_SHORT;
  return b[1] == 3 ? MBUS_FRAME_TYPE_CONTROL : MBUS_FRAME_TYPE_LONG;
}

static void c01() {
  Bus &b = gen_bus();
  Port *p = b.port;
  double tmo = 4.0;
  if (p->kind == P_TCP && chance(1, 2)) {
    tmo = pick(std::vector<double>{0.25, 1.0, 2.5, 10.0});
    mbus_tcp_set_timeout_set(tmo);
  }
  b.tcp_max_gap = (ns_t)(tmo * 0.97 * SEC);
  Master m = open_master(0);
  bool none = chance(3, 4);
  if (none) mbus_context_set_option(m.h, MBUS_OPTION_PURGE_FIRST_FRAME, MBUS_FRAME_PURGE_NONE);
  p->cfg_eintr = p->kind == P_TCP && chance(1, 2);
  p->cfg_short_read = chance(1, 2);
  b.segments = chance(2, 3);
  b.gaps = chance(1, 2);
  int n = (int)range(1, 6);
  std::vector<Bytes> fs;
  for (int i = 0; i < n; i++) fs.push_back(gen_frame(!none));
  if (p->kind == P_TTY && p->line_baud < 1200 && n > 3) fs.resize(3), n = 3;
  // lay the whole sequence on the line, or feed frame by frame
  bool upfront = chance(1, 2);
  ns_t t = g_now;
  if (upfront)
    for (auto &f : fs) {
      int k = (int)choose(3);
      ns_t gap = k == 0 ? 0 : k == 1 ? b.window() / 10 : b.window() - b.bit(11);
      t = b.emit(f, t + gap);
    }
  mbus_frame fr;
  memset(&fr, 0, sizeof fr);
  bool reuse = chance(1, 2);
  size_t want = 0;
  for (int i = 0; i < n; i++) {
    if (!reuse) memset(&fr, 0, sizeof fr);
    if (!upfront) {
      ns_t gap = chance(1, 2) ? b.window() - b.bit(11) : 0;
      b.emit(fs[i], g_now + gap);
    }
    size_t before = p->consumed.size();
    int r = mbus_recv_frame(m.h, &fr);
    ev("recv %s", res_name(r));
    shape(type_of(fs[i]) * 8 + r + 4);
    REQUIRE(r == MBUS_RECV_RESULT_OK, "not-received", "frame %d (%zu bytes, %s) is received as %s", i, fs[i].size(), hex(fs[i]).substr(0, 40).c_str(), res_name(r));
    want += fs[i].size();
    REQUIRE(p->consumed.size() == want, "wrong-extent", "receiving frame %d of %zu bytes consumed %zu bytes", i, fs[i].size(), p->consumed.size() - before);
    REQUIRE(fr.type == type_of(fs[i]), "wrong-type", "frame %d %s is returned with type %d", i, hex(fs[i]).substr(0, 40).c_str(), fr.type);
    Bytes got = frame_bytes(&fr);
    REQUIRE(got == fs[i], "altered", "frame %d sent %s returned %s", i, hex(fs[i]).c_str(), hex(got).c_str());
    // the receiving program may take its time
    if (chance(1, 4)) block_until(g_now + range(1, 1000) * MS);
  }
  p->cfg_eintr = false;
  int r = mbus_recv_frame(m.h, &fr);
  REQUIRE(r == MBUS_RECV_RESULT_TIMEOUT || (!upfront && r == MBUS_RECV_RESULT_TIMEOUT), "phantom", "after the last frame a receive reports %s", res_name(r));
  close_master(m);
}
PROPERTY("C01", c01, 180000, 1500000,
  "one run: a transport (TCP or serial at one of 8 rates), 1 to 6 valid frames of all types and payload lengths, each delivered under a chosen segmentation, pauses up to just under the response window, short reads, EINTR; non-trivial: a delivery fault fired; distinct: different sequence of read sizes, faults and verdicts")

// ------------------------------------------------------------------ C04
// What the line carries for one receive, and what must be reported.
static void c04() {
  Bus &b = gen_bus();
  Port *p = b.port;
  double tmo = 4.0;
  if (p->kind == P_TCP && chance(1, 3)) { tmo = 1.5; mbus_tcp_set_timeout_set(tmo); }
  b.tcp_max_gap = (ns_t)(tmo * 0.95 * SEC);
  Master m = open_master(0);
  mbus_context_set_option(m.h, MBUS_OPTION_PURGE_FIRST_FRAME, MBUS_FRAME_PURGE_NONE);
  b.segments = chance(1, 2);
  b.gaps = chance(1, 3);
  p->cfg_short_read = chance(1, 4);
  p->cfg_eintr = p->kind == P_TCP && chance(1, 4);
  int rounds = (int)range(1, 3);
  for (int round = 0; round < rounds; round++) {
    Bytes frame = gen_frame(false);
    Bytes s = frame;
    int kind = (int)choose(6);
    if (kind == 1) s.clear();                                               // silence
    if (kind == 2) s = corrupt(frame, true);                                // damage
    if (kind == 3 && frame.size() > 1) s.resize(range(1, frame.size() - 1)); // stops short
    if (kind == 4) { Bytes g; for (int i = (int)range(1, 8); i > 0; i--) g.push_back((uint8_t)choose(256)); s = g; }
    if (kind == 5) { Bytes g = gen_frame(false); s.insert(s.end(), g.begin(), g.end()); }
    int end = (int)choose(6);   // how the line ends: 0..2 silence, 3 closed, 4 reset, 5 device error
    ns_t t = s.empty() ? g_now : b.emit(s, g_now + (chance(1, 2) ? b.window() - b.bit(11) : 0));
    ns_t after = chance(1, 2) ? b.window() / 3 : 0;
    int err = 0;
    if (end == 3 && p->kind == P_TCP) p->fin_at = t + after;
    else if (end == 4 && p->kind == P_TCP) p->rst_at = t + after;
    else if (end == 5) { err = p->kind == P_TCP ? pick(std::vector<int>{EIO, EBADF, ETIMEDOUT, EHOSTUNREACH, ENOBUFS}) : pick(std::vector<int>{EIO, EBADF, ENXIO, ENODEV}); p->read_errs.push_back({t + after, err}); }
    else if (end == 3 && p->kind == P_TTY && chance(1, 2)) { p->hup_at = g_now; t = g_now; }
    else end = 0;
    bool hup = p->hup_at <= g_now;
    // reference verdict
    size_t l = 0;
    int st = s.empty() ? 0 : frame_at(s.data(), s.size(), &l);
    std::set<int> okv;
    if (hup) okv = {MBUS_RECV_RESULT_ERROR};
    else if (st == 1) okv = {MBUS_RECV_RESULT_OK};
    else if (st < 0) {
      okv = {MBUS_RECV_RESULT_INVALID};
      // a failure that follows bytes already known bad may be seen first
      if (end == 3 || end == 4) okv.insert(end == 3 ? MBUS_RECV_RESULT_RESET : MBUS_RECV_RESULT_ERROR);
      if (end == 5) okv.insert(MBUS_RECV_RESULT_ERROR);
    } else if (end == 3) okv = {MBUS_RECV_RESULT_RESET};
    else if (end == 4 || end == 5) okv = {MBUS_RECV_RESULT_ERROR};
    else if (s.empty()) okv = {MBUS_RECV_RESULT_TIMEOUT};
    else okv = {MBUS_RECV_RESULT_INVALID};
    if (end == 4) okv.insert(st == 1 ? MBUS_RECV_RESULT_OK : MBUS_RECV_RESULT_ERROR), okv.insert(MBUS_RECV_RESULT_ERROR);
    if (end == 4 && st == 1) okv = {MBUS_RECV_RESULT_OK};
    if (end == 4 && st != 1) okv.insert(MBUS_RECV_RESULT_RESET);   // the peer ended the connection either way
    mbus_frame fr;
    memset(&fr, 0, sizeof fr);
    bool through = chance(1, 2);
    size_t before = p->consumed.size();
    int r = through ? mbus_recv_frame(m.h, &fr) : p->kind == P_TTY ? mbus_serial_recv_frame(m.h, &fr) : mbus_tcp_recv_frame(m.h, &fr);
    ev("recv %s", res_name(r));
    shape(0x100 + kind * 64 + end * 8 + r + 4);
    REQUIRE(okv.count(r), "verdict", "line carried %s then %s: receive reports %s", s.empty() ? "nothing" : hex(s).c_str(),
            end == 3 ? (p->kind == P_TTY ? "hung up before" : "was closed") : end == 4 ? "was reset" : end == 5 ? "failed" : "silence", res_name(r));
    if (r == MBUS_RECV_RESULT_OK) {
      Bytes want(s.begin(), s.begin() + l);
      REQUIRE(frame_bytes(&fr) == want, "altered", "sent %s returned %s", hex(want).c_str(), canon(&fr).c_str());
      REQUIRE(p->consumed.size() - before == l, "wrong-extent", "consumed %zu bytes for a frame of %zu", p->consumed.size() - before, l);
    }
    if (r == MBUS_RECV_RESULT_TIMEOUT) {
      probe("timeout");
      REQUIRE(p->consumed.size() == before, "lost-bytes", "timeout although bytes were taken");
    }
    if (end) {                                         // the connection is gone
      if (p->hup_at <= g_now || p->fin_at <= g_now) {
        p->rx.clear();
        r = mbus_recv_frame(m.h, &fr);
        REQUIRE(r == (p->kind == P_TTY ? MBUS_RECV_RESULT_ERROR : MBUS_RECV_RESULT_RESET), "verdict", "a receive on a %s reports %s",
                p->kind == P_TTY ? "hung-up line" : "closed connection", res_name(r));
      }
      if (chance(1, 2)) break;
      if (p->fin_at < NEVER || p->rst_at < NEVER || p->hup_at < NEVER) break;
    }
    p->read_errs.clear();
    // quiet before the next round
    p->rx.clear();
    block_until(std::max(g_now, p->last_arrival) + 10 * SEC);
    p->rx.clear();
  }
  // not open
  mbus_disconnect(m.h);
  mbus_frame fr;
  memset(&fr, 0, sizeof fr);
  int r = mbus_recv_frame(m.h, &fr);
  REQUIRE(r == MBUS_RECV_RESULT_ERROR, "verdict", "a receive on a disconnected handle reports %s", res_name(r));
  mbus_context_free(m.h);
}
PROPERTY("C04", c04, 240000, 1500000,
  "one run: a transport and 1 to 3 receives, each with a chosen input (valid, none, damaged, cut short, noise, two frames), delivery and end of line (silence, close, reset, device error, hang-up); the verdict is compared with a reference; non-trivial: a fault fired; distinct: different sequence of reads, faults and verdicts")
