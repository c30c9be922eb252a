// C12: converters that echo what the master sends
#include "drv.h"

namespace {
// the echo setting on its own
bool slave_frame(const Bytes &f) { return f[0] == 0xE5 || !((f[0] == 0x10 ? f[1] : f[4]) & 0x40); }
Bytes any_frame() {
  switch (choose(5)) {
    case 0: return f_short(pick(Bytes{0x40, 0x5B, 0x7B, 0x5A, 0x7A}), (uint8_t)choose(256));
    case 1: return ACK;
    case 2: { Bytes d((size_t)range(0, 30)); for (auto &x : d) x = (uint8_t)choose(256); return f_long(pick(Bytes{0x53, 0x73}), (uint8_t)choose(256), (uint8_t)choose(256), d); }
    case 3: { Bytes d((size_t)range(0, 252)); for (auto &x : d) x = (uint8_t)choose(256); return f_long(pick(Bytes{0x08, 0x18, 0x28, 0x38}), (uint8_t)choose(256), 0x72, d); }
  }
  return f_long(0x08, (uint8_t)choose(256), (uint8_t)choose(256), {});
}
void direct() {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  Master m = open_master(0);
  b.segments = chance(1, 3);
  int set = MBUS_FRAME_PURGE_M2S;                          // the default
  auto choose_setting = [&] {
    if (!chance(3, 4)) return;
    static const std::vector<int> v = {MBUS_FRAME_PURGE_M2S, MBUS_FRAME_PURGE_S2M, MBUS_FRAME_PURGE_NONE};
    int s = pick(v);
    int r = mbus_context_set_option(m.h, MBUS_OPTION_PURGE_FIRST_FRAME, s);
    REQUIRE(r == 0, "option", "echo setting %d is rejected", s);
    set = s;
    if (chance(1, 3)) {
      long bad = pick(std::vector<long>{3, -1, 100, 256, 257});
      r = mbus_context_set_option(m.h, MBUS_OPTION_PURGE_FIRST_FRAME, bad);
      REQUIRE(r != 0, "option", "echo setting %ld is accepted", bad);
    }
  };
  int rounds = (int)range(1, 3);
  for (int k = 0; k < rounds; k++) {
    choose_setting();
    int n = (int)range(1, 6);
    std::deque<Bytes> q;
    ns_t t = g_now;
    for (int i = 0; i < n; i++) {
      Bytes f = any_frame();
      q.push_back(f);
      t = b.emit(f, t + (chance(1, 4) ? b.window() / 2 : 0));
    }
    mbus_frame fr;
    memset(&fr, 0, sizeof fr);
    for (int i = 0; i < n + 1; i++) {
      int r = mbus_recv_frame(m.h, &fr);
      shape(0x1200 + r + 8 * set);
      bool skip = false;
      if (!q.empty()) {
        bool s = slave_frame(q.front());
        skip = (set == MBUS_FRAME_PURGE_M2S && !s) || (set == MBUS_FRAME_PURGE_S2M && s);
        if (skip) { q.pop_front(); fault(F_ECHO); }
      }
      if (q.empty()) {
        REQUIRE(r == MBUS_RECV_RESULT_TIMEOUT, "echo-setting", "with setting %d and nothing but skipped frames left a receive reports %s", set, res_name(r));
        probe(skip ? "only a skipped frame on the line" : "line empty");
        break;
      }
      REQUIRE(r == MBUS_RECV_RESULT_OK, "echo-setting", "with setting %d a receive reports %s although %s is on the line", set, res_name(r), hex(q.front()).c_str());
      Bytes got = frame_bytes(&fr);
      REQUIRE(got == q.front(), "echo-setting", "with setting %d a receive returns %s, not %s", set, hex(got).c_str(), hex(q.front()).c_str());
      q.pop_front();
    }
    p->rx.clear();
    mbus_purge_frames(m.h);
  }
  close_master(m);
}

// the same story with and without echo
void story(bool echo, std::vector<std::string> &out, std::vector<Bytes> &tx) {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  if (p->kind == P_TCP) { mbus_tcp_set_timeout_set(2.5); }
  b.echo = echo;
  Master m = open_master(0);
  PopOpt po;
  po.rich = true;
  gen_meters(b, po);
  if (chance(1, 3)) { b.meters[0].id = b.meters.back().id; b.meters[0].man[0] ^= 1; }
  gen_limited_faults(b, {RF_DROP_REQ, RF_DROP_REP, RF_CORRUPT_REP, RF_TRUNC_REP, RF_CORRUPT_REQ, RF_STRAY_ACK, RF_DUP_REP, RF_NOISE_PRE, RF_NOISE_POST}, 60);
  b.segments = chance(1, 3);
  b.gaps = chance(1, 4);
  if (chance(1, 2)) mbus_context_set_option(m.h, MBUS_OPTION_MAX_DATA_RETRY, (long)choose(5));
  if (chance(1, 2)) mbus_context_set_option(m.h, MBUS_OPTION_MAX_SEARCH_RETRY, (long)choose(3));
  ops_watch(m, &out);
  int n = (int)range(1, 4);
  for (int i = 0; i < n; i++) {
    random_op(m, out);
    out.push_back(strf("purge %d", mbus_purge_frames(m.h)));
  }
  for (auto &t : p->tx) tx.push_back(t.b);
  close_master(m);
  ops_watch(m, nullptr);
}
void twin() {
  std::vector<std::string> a, c;
  std::vector<Bytes> ta, tc;
  size_t m0 = twin_mark();
  ns_t t0 = g_now;
  story(false, a, ta);
  size_t m1 = twin_mark();
  world_reset();
  lib_statics_restore();
  g_now = t0;
  twin_replay(m0, m1);
  story(true, c, tc);
  twin_done();
  for (size_t i = 0; i < a.size() || i < c.size(); i++) {
    std::string x = i < a.size() ? a[i] : "(nothing)", y = i < c.size() ? c[i] : "(nothing)";
    REQUIRE(x == y, "echo-changes", "step %zu without echo: %s; with echo: %s", i, x.c_str(), y.c_str());
  }
  REQUIRE(ta == tc, "echo-changes-requests", "%zu requests without echo, %zu with echo, or different ones", ta.size(), tc.size());
}
}
static void c12() { if (chance(1, 4)) direct(); else twin(); }
PROPERTY("C12", c12, 100000, 2000000,
  "one run: either 1 to 6 frames of either direction received under one of the three echo settings, or a story of readouts, reads, selections, probes and scans under loss, damage, truncation, duplication, noise and stray acknowledges executed twice, without and with echo, and compared; non-trivial: a fault fired (an echo counts); distinct: different sequence of frames, reads, faults and verdicts")
