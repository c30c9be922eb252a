// C19: stamps, and a wall clock that jumps
#include "drv.h"
#include <ctime>

extern "C" void sim_free(void *);

namespace {
std::string utc(int64_t t) {                              // written without the C library
  int64_t days = t / 86400, s = t % 86400;
  int64_t z = days + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
  return strf("%04d-%02d-%02dT%02d:%02d:%02dZ", (int)y, (int)m, (int)d, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60));
}
struct Story {
  std::vector<std::string> out;
  std::vector<std::pair<ns_t, Bytes>> tx;
  ns_t end = 0;
  int stamps = 0;
};
Port *port;
// the frame's stamp is the wall clock when its last byte was taken from the line
void check_stamp(const mbus_frame *f, size_t from, const char *what) {
  Bytes b = frame_bytes(f);
  if (b.empty()) return;
  bool found = false;
  std::string seen;
  for (size_t i = from; i + b.size() <= port->consumed.size(); i++) {
    if (!std::equal(b.begin(), b.end(), port->consumed.begin() + i)) continue;
    found = true;
    int64_t w = 0;
    for (auto &x : port->walls) if (x.first >= i + b.size()) { w = x.second; break; }
    if (w == (int64_t)f->timestamp) return;
    seen += strf(" %lld", (long long)w);
  }
  if (!found) return;                                     // what it is instead is not this property's concern
  fail("stamp", "%s: a frame received at%s carries the time %lld (now %lld)", what, seen.c_str(), (long long)f->timestamp, (long long)wall_sec());
}
size_t g_from;
Story *g_story;
void on_found(mbus_handle *, mbus_frame *f) { check_stamp(f, g_from, "a frame found by a scan"); g_story->out.push_back("found " + canon(f)); }
void check_text(const std::string &x, const std::vector<const mbus_frame *> &fs, const char *what) {
  size_t at = 0;
  while ((at = x.find("<DataRecord", at)) != std::string::npos) {
    size_t e = x.find("</DataRecord>", at), h = x.find('>', at);
    if (e == std::string::npos || h == std::string::npos) break;
    std::string head = x.substr(at, h - at), rec = x.substr(at, e - at);
    size_t k = head.find("frame=\""), n = 0;
    if (k != std::string::npos) n = (size_t)atoi(head.c_str() + k + 7);
    at = e;
    REQUIRE(n < fs.size(), "text", "%s: a record of frame %zu of %zu", what, n, fs.size());
    std::string want = utc(fs[n]->timestamp);
    size_t a = rec.find("<Timestamp>"), b = rec.find("</Timestamp>");
    REQUIRE(a != std::string::npos && b != std::string::npos, "text", "%s: a record of a frame received at %s shows no time", what, want.c_str());
    std::string got = rec.substr(a + 11, b - a - 11);
    REQUIRE(got == want, "text", "%s: a record of a frame received at %s shows the time %s", what, want.c_str(), got.c_str());
    probe("time shown in text");
  }
}
void story(Story &s) {
  g_story = &s;
  Bus &b = gen_bus(false);
  Port *p = port = b.port;
  if (p->kind == P_TCP) mbus_tcp_set_timeout_set(1.0);
  b.tcp_max_gap = 900 * MS;
  Master m = open_master(0);
  PopOpt po;
  po.rich = true;
  gen_meters(b, po);
  gen_limited_faults(b, ALL_FAULTS, 30);
  b.segments = chance(1, 3);
  b.gaps = chance(1, 3);
  b.echo = chance(1, 6);
  if (chance(1, 3)) mbus_context_set_option(m.h, MBUS_OPTION_MAX_DATA_RETRY, (long)choose(5));
  mbus_register_found_event(m.h, on_found);
  int n = (int)range(1, 5);
  for (int i = 0; i < n; i++) {
    if (chance(1, 8)) block_until(g_now + range(1, 100) * SEC);
    size_t from = g_from = p->consumed.size();
    Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
    mbus_frame f;
    memset(&f, 0, sizeof f);
    int how = (int)choose(5), r = 0;
    if (how <= 1) {                                       // a readout, shown as text
      mbus_send_ping_frame(m.h, mt.addr, 1);
      from = p->consumed.size();
      r = mbus_sendrecv_request(m.h, mt.addr, &f, (int)choose(4));
      s.out.push_back(strf("readout %d", r));
      if (r == 0) {
        auto ch = chain(&f);
        for (auto x : ch) { check_stamp(x, from, "a telegram of a readout"); s.out.back() += " " + canon(x); s.stamps++; }
        if (chance(1, 3)) block_until(g_now + range(1, 100) * SEC);
        char *x = mbus_frame_xml(&f);
        if (x) { check_text(x, ch, "a readout"); sim_free(x); }
        for (auto q : ch) {
          mbus_frame_data *d = mbus_frame_data_new();
          if (mbus_frame_data_parse((mbus_frame *)q, d) == 0 && d->type == MBUS_DATA_TYPE_VARIABLE) {
            for (auto rec = d->data_var.record; rec; rec = (mbus_data_record *)rec->next)
              REQUIRE(rec->timestamp == q->timestamp, "record", "a record of a frame received at %lld carries the time %lld", (long long)q->timestamp, (long long)rec->timestamp);
            x = mbus_frame_data_xml(d);
            if (x) { check_text(x, {q}, "a telegram"); sim_free(x); }
          }
          if (d->data_var.record) mbus_data_record_free(d->data_var.record);
          d->data_var.record = nullptr;
          mbus_frame_data_free(d);
        }
      }
    } else if (how == 2) {                                // single frames
      ns_t t = g_now;
      int k = (int)range(1, 3);
      for (int j = 0; j < k; j++) {
        Bytes x = chance(1, 3) ? ACK : chance(1, 3) ? f_short(0x5B, 5) : f_long(0x08, 5, 0x72, Bytes((size_t)range(0, 252), (uint8_t)choose(256)));
        t = b.emit(x, t + range(0, 8) * 100 * MS);
      }
      for (int j = 0; j <= k; j++) {
        r = mbus_recv_frame(m.h, &f);
        s.out.push_back(strf("receive %s", res_name(r)));
        if (r == MBUS_RECV_RESULT_OK) { check_stamp(&f, from, "a received frame"); s.out.back() += " " + canon(&f); s.stamps++; }
      }
    } else if (how == 3) {                                // one telegram
      mbus_address ad;
      memset(&ad, 0, sizeof ad);
      std::string a = mt.address();
      if (chance(1, 2)) { ad.is_primary = 1; ad.primary = mt.addr; } else ad.secondary = (char *)a.c_str();
      r = mbus_read_slave(m.h, &ad, &f);
      s.out.push_back(strf("read %d", r));
      if (r == 0) { check_stamp(&f, from, "a telegram"); s.out.back() += " " + canon(&f); s.stamps++; }
    } else random_op(m, s.out);
    free_chain(&f);
    if (chance(1, 2)) s.out.push_back(strf("purge %d", mbus_purge_frames(m.h)));
  }
  for (auto &t : p->tx) s.tx.push_back({t.start, t.b});
  s.end = g_now;
  close_master(m);
  for (int i = 0; i < s.stamps; i++) probe("frame stamped");
}
}
static void c19() {
  setenv("TZ", pick(std::vector<const char *>{"UTC0", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "HST10"}), 1);
  tzset();
  static const std::vector<int64_t> base = {1700000000, 951782399, 1709164799, 4102444799LL, 2147483647, 1, 1711846799, 1262304000, 86399};
  int64_t w0 = (pick(base) + (chance(1, 2) ? range(0, 400000) : 0)) * SEC + (int64_t)range(0, 999) * MS;
  g_wall0 = w0 - g_now;
  ns_t t0 = g_now;
  size_t m0 = twin_mark();
  Story a;
  story(a);
  size_t m1 = twin_mark();
  // again, while the clock is set
  Stream ws;
  stream_init(ws, 1 + choose(1u << 30));
  uint32_t rate = pick(std::vector<uint32_t>{2, 20, 100});
  world_reset();
  lib_statics_restore();
  g_now = t0;
  g_wall0 = w0 - g_now;
  g_block_hook = [&] {
    Stream *keep = stream_use(&ws);
    if (chance(rate, 100)) {
      int64_t d = 0, now = g_wall0 + g_now;
      switch (choose(6)) {
        case 0: d = range(1, 5000) * MS; break;
        case 1: d = -range(1, 5000) * MS; break;
        case 2: d = range(1, 1000000) * SEC; break;
        case 3: d = -range(1, 1000000) * SEC; break;
        case 4: d = pick(base) * SEC - now; break;
        default: d = range(1, 30) * 365 * 86400 * SEC;
      }
      if (now + d < SEC) d = SEC - now;
      if (now + d > 6000000000LL * SEC) d = 0;
      g_wall0 += d;
      fault(F_WALL_STEP);
      shape(0x1900 + (d < 0));
      ev("wall clock %+.3f s", d / 1e9);
    }
    stream_use(keep);
  };
  Story b;
  twin_replay(m0, m1);
  story(b);
  twin_done();
  g_block_hook = nullptr;
  for (size_t i = 0; i < a.out.size() || i < b.out.size(); i++) {
    std::string x = i < a.out.size() ? a.out[i] : "(nothing)", y = i < b.out.size() ? b.out[i] : "(nothing)";
    REQUIRE(x == y, "clock-changes-results", "step %zu with a steady clock: %s; with a jumping one: %s", i, x.c_str(), y.c_str());
  }
  REQUIRE(a.tx.size() == b.tx.size(), "clock-changes-requests", "%zu requests with a steady clock, %zu with a jumping one", a.tx.size(), b.tx.size());
  for (size_t i = 0; i < a.tx.size(); i++) {
    REQUIRE(a.tx[i].second == b.tx[i].second, "clock-changes-requests", "request %zu differs when the clock jumps", i);
    REQUIRE(a.tx[i].first == b.tx[i].first, "clock-changes-waits", "request %zu is sent at %.6f s with a steady clock, %.6f s with a jumping one", i, a.tx[i].first / 1e9, b.tx[i].first / 1e9);
  }
  REQUIRE(a.end == b.end, "clock-changes-waits", "the operations take %.6f s with a steady clock, %.6f s with a jumping one", a.end / 1e9, b.end / 1e9);
}
PROPERTY("C19", c19, 75000, 1500000,
  "one run: 1 to 5 readouts, receives, reads and other operations under faults, in one of five time zones, from 1970 to 2100, executed with a steady wall clock and again while it is set forwards and backwards at the moments the library waits; stamps of all frames and of all records shown as text are compared with the clock at their receipt, results, requests and waiting times with the steady execution; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults, steps and verdicts")
