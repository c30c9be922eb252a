// C13 C14: how the line is set up and how long it is waited for
#include "drv.h"
#include <cerrno>
#include <cmath>

static const std::vector<long> RATES = {2400, 9600, 300, 38400, 4800, 1200, 600, 19200};
static speed_t speed_of(long b) {
  switch (b) {
    case 300: return B300; case 600: return B600; case 1200: return B1200; case 2400: return B2400;
    case 4800: return B4800; case 9600: return B9600; case 19200: return B19200; case 38400: return B38400;
  }
  return 0;
}
void check_line(Port *p, long baud, const char *after) {
  const termios &t = p->tio;
  REQUIRE(p->tio_set, "line", "%s: the line is not set up", after);
  REQUIRE(cfgetispeed(&t) == speed_of(baud) && cfgetospeed(&t) == speed_of(baud), "line:rate", "%s: the line rate is not %ld in both directions", after, baud);
  REQUIRE((t.c_cflag & CSIZE) == CS8, "line:bits", "%s: not 8 data bits (cflag %x)", after, t.c_cflag);
  REQUIRE((t.c_cflag & PARENB) && !(t.c_cflag & PARODD), "line:parity", "%s: not even parity (cflag %x)", after, t.c_cflag);
  REQUIRE(!(t.c_cflag & CSTOPB), "line:stop", "%s: two stop bits (cflag %x)", after, t.c_cflag);
  REQUIRE(t.c_cflag & CREAD, "line:receiver", "%s: the receiver is off (cflag %x)", after, t.c_cflag);
  REQUIRE(!(t.c_cflag & CRTSCTS), "line:flow", "%s: hardware flow control (cflag %x)", after, t.c_cflag);
  REQUIRE(!(t.c_iflag & (ISTRIP | IXON | IXOFF | ICRNL | INLCR | IGNCR | PARMRK | IUCLC)), "line:input", "%s: input is processed (iflag %x)", after, t.c_iflag);
  REQUIRE(!(t.c_oflag & OPOST), "line:output", "%s: output is processed (oflag %x)", after, t.c_oflag);
  REQUIRE(!(t.c_lflag & (ICANON | ISIG | ECHO | IEXTEN)), "line:line", "%s: line processing (lflag %x)", after, t.c_lflag);
}
static Bytes all_bytes(size_t n, int from) {
  Bytes d(n);
  for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(from + i);
  return d;
}
static void c13() {
  long rate = pick(RATES);
  Bus &b = g_world->add(P_TTY, 2400);
  Port *p = b.port;
  // what the line was set to before
  if (chance(3, 4)) {
    p->tio.c_iflag = pick(std::vector<tcflag_t>{0, ICRNL | IXON, ISTRIP | IXOFF | IGNCR, INLCR | PARMRK | INPCK});
    p->tio.c_cflag = pick(std::vector<tcflag_t>{CS8 | CREAD, CS7 | PARENB | CREAD, CS8 | CSTOPB, CS8 | PARENB | PARODD | CREAD | CRTSCTS});
    p->tio.c_lflag = pick(std::vector<tcflag_t>{0, ICANON | ECHO | ISIG | IEXTEN, ICANON});
    cfsetispeed(&p->tio, speed_of(pick(RATES)));
    cfsetospeed(&p->tio, speed_of(pick(RATES)));
  }
  Meter mt = simple_meter(1, any_addr(), dec_id((uint32_t)range(1, 99999999)), 1, 3);
  if (chance(1, 2)) { Bytes t = {0x0D, 0x78, (uint8_t)0}; int n = (int)range(1, 190); t[2] = (uint8_t)n; Bytes a = all_bytes(n, (int)choose(256)); t.insert(t.end(), a.begin(), a.end()); mt.telegrams[0] = t; }
  b.meters.push_back(mt);
  mbus_handle *h = mbus_context_serial("/dev/sim0");
  REQUIRE(h, "open", "no context");
  if (chance(1, 6)) {                                   // failing devices
    int kind = (int)choose(3);
    if (kind == 0) g_open_dev = [](const char *) -> Port * { fault(F_OPEN_FAIL); return nullptr; };
    else if (kind == 1) g_termios_fail = [] { return true; };
    else p->hup_at = g_now;
    int r = mbus_connect(h);
    REQUIRE(r != 0, "device-failure", "connecting succeeds although the device fails (%d)", kind);
    REQUIRE(seam_open_lib_fds() == 0, "device-failure", "a failed connect leaves its descriptor open");
    probe("connect to a failing device");
    if (kind == 2) { mbus_context_free(h); return; }
    g_termios_fail = nullptr;
    g_open_dev = [p](const char *) -> Port * { return p; };
  }
  int r = mbus_connect(h);
  REQUIRE(r == 0, "open", "connecting fails (%d)", r);
  check_line(p, 2400, "after connecting");
  long now = 2400;
  Master m{h, p, &b, 0};
  int n = (int)range(1, 5);
  for (int i = 0; i < n; i++) {
    switch (choose(6)) {
      case 0: break;                                    // stay
      case 1: {
        long bad = pick(std::vector<long>{0, 110, 150, 301, 1, -1, 2401, 57600, 115200, 1800, 4294967296L + 2400, -2400});
        r = mbus_serial_set_baudrate(h, bad);
        REQUIRE(r != 0, "unsupported-rate", "the unsupported rate %ld is accepted", bad);
        check_line(p, now, "after an unsupported rate");
        probe("unsupported rate");
        break;
      }
      case 2: {
        g_termios_fail = [] { return true; };
        r = mbus_serial_set_baudrate(h, pick(RATES));
        REQUIRE(r != 0, "device-failure", "setting a rate succeeds although the device fails");
        g_termios_fail = nullptr;
        // the line is as before or as asked: ask again
        now = pick(RATES);
        r = mbus_serial_set_baudrate(h, now);
        REQUIRE(r == 0, "rate", "setting %ld baud fails (%d)", now, r);
        probe("rate set after a failure");
        break;
      }
      case 3: {
        mbus_disconnect(h);
        r = mbus_connect(h);
        REQUIRE(r == 0, "open", "connecting again fails (%d)", r);
        check_line(p, 2400, "after connecting again");
        now = 2400;
        break;
      }
      default: {
        now = i == 0 ? rate : pick(RATES);
        r = mbus_serial_set_baudrate(h, now);
        REQUIRE(r == 0, "rate", "setting %ld baud fails (%d)", now, r);
      }
    }
    check_line(p, now, "after setting a rate");
    p->line_baud = now;
    b.delay_mode = chance(3, 4) ? 1 : -1;               // the latest moment
    b.segments = chance(1, 4);
    // an exchange at this rate
    int addr = b.meters[0].addr;
    mbus_frame f;
    memset(&f, 0, sizeof f);
    int how = (int)choose(4);
    Bytes sent;
    size_t u0 = b.meters[0].user_data.size();
    if (how == 0) {
      r = mbus_send_request_frame(h, addr);
    } else if (how == 1) {
      sent = all_bytes((size_t)range(1, 252), (int)choose(256));
      if (sent.size() == 3 && sent[0] == 1) sent[0] = 2;
      r = mbus_send_user_data_frame(h, addr, sent.data(), sent.size());
    } else if (how == 2) {
      r = mbus_send_ping_frame(h, addr, 0);
    } else {
      r = mbus_send_select_frame(h, b.meters[0].address().c_str());
    }
    REQUIRE(r == 0, "send", "sending fails (%d)", r);
    r = mbus_recv_frame(h, &f);
    shape(0x1300 + how * 8 + (int)(std::find(RATES.begin(), RATES.end(), now) - RATES.begin()) * 32);
    REQUIRE(r == MBUS_RECV_RESULT_OK, "unheard", "an answer within the permitted time at %ld baud is not received: %s", now, res_name(r));
    Bytes got = frame_bytes(&f);
    if (how == 0) {
      Bytes want = b.sent.empty() ? Bytes() : b.sent.back().b;
      REQUIRE(got == want, "bytes", "received %s instead of %s", hex(got).c_str(), hex(want).c_str());
    } else REQUIRE(got == ACK, "bytes", "received %s instead of an acknowledge", hex(got).c_str());
    if (how == 1) {
      REQUIRE(b.meters[0].user_data.size() == u0 + 1 && b.meters[0].user_data.back() == sent, "bytes", "the meter did not get the %zu bytes sent to it", sent.size());
      if (sent.size() > 200) probe("long request before the answer");
    }
    mbus_purge_frames(h);
  }
  mbus_disconnect(h);
  mbus_context_free(h);
}
PROPERTY("C13", c13, 300000, 3000000,
  "one run: a serial line left in any earlier setting, a connect that may first meet a failing device, then 1 to 5 rate changes (supported, unsupported, failing, reconnect) each followed by an exchange whose answer mostly starts at the latest permitted moment, requests of 5 to 261 bytes with every byte value; non-trivial: a fault fired or the answer came at the latest moment; distinct: different sequence of rates, requests, reads and faults")

// ------------------------------------------------------------------ C14
static double gen_timeout() {
  switch (choose(6)) {
    case 1: return (double)range(1, 999) / 1000;
    case 2: return (double)range(1, 60);
    case 3: if (chance(1, 6)) return pick(std::vector<double>{61, 255, 256.5, 300, 1000.25, 3600, 32767, 32768, 65536.5, 86400, 1000000});
      return (double)range(50, 9999) / 1000;
    case 4: return pick(std::vector<double>{0.05, 0.999999, 1.000001, 2.5, 4.0, 60.0, 0.1, 0.3, 1.999, 0.001});
    case 5: return (double)range(1, 5000000) / 1e6 + 0.001;
  }
  return 1.5;
}
static void c14() {
  int nb = (int)range(1, 3);
  std::vector<double> conf(nb, 4.0);
  double cur = 4.0;
  std::vector<mbus_handle *> hs(nb, nullptr);
  for (int i = 0; i < nb; i++) {
    Bus &b = g_world->add(P_TCP, 2400);
    Meter mt = simple_meter(1, 5, dec_id(1000 + i), 1, 2);
    b.meters.push_back(mt);
  }
  auto set = [&] {
    double v = gen_timeout();
    int r = mbus_tcp_set_timeout_set(v);
    REQUIRE(r == 0, "timeout-rejected", "the timeout %g is rejected", v);
    cur = v;
    if (chance(1, 3)) {
      double bad = pick(std::vector<double>{-1, -0.5, -1e-3, -1e9, -4});
      r = mbus_tcp_set_timeout_set(bad);
      REQUIRE(r != 0, "negative-timeout", "the timeout %g is accepted", bad);
      probe("negative timeout");
    }
  };
  int n = (int)range(2, 8);
  for (int i = 0; i < n; i++) {
    if (chance(1, 2)) set();
    int k = (int)choose((uint32_t)nb);
    Port *p = g_world->ports[k].get();
    Bus &b = *g_world->buses[k];
    if (hs[k] && chance(1, 4)) { mbus_disconnect(hs[k]); mbus_context_free(hs[k]); hs[k] = nullptr; }
    if (!hs[k]) {
      hs[k] = mbus_context_tcp(strf("gw%d", k).c_str(), 4000);
      REQUIRE(hs[k], "open", "no context");
      if (chance(1, 4)) set();
      p->rx.clear();
      p->rcvto = p->sndto = 0;
      p->stall_at = NEVER;
      if (chance(1, 6)) {                                // the timeout cannot be applied
        int n = 0, at = (int)choose(2);
        bool lasting = chance(1, 2);
        g_sockopt_fail = [=]() mutable { int i = n++; return lasting ? i >= at : i == at; };
      }
      bool odd = g_sockopt_fail != nullptr;
      int r = mbus_connect(hs[k]);
      g_sockopt_fail = nullptr;
      if (odd && r != 0) {
        probe("a connection whose timeout cannot be set is refused");
        r = mbus_connect(hs[k]);
      }
      REQUIRE(r == 0, "open", "connecting fails (%d)", r);
      conf[k] = cur;
      if (chance(1, 4)) set();                          // afterwards: changes nothing here
    }
    mbus_handle *h = hs[k];
    double T = conf[k];
    ns_t want = (ns_t)llround(T * 1e9), lo = want - 2 * US, hi = want + want / 10 + 20 * MS;
    b.plan = nullptr;
    mbus_frame f;
    memset(&f, 0, sizeof f);
    int how = (int)choose(4);
    shape(0x1400 + how);
    if (how == 0) {                                      // silence
      fault(F_SILENT);
      b.plan = [](const Bytes &) { return RF_DROP_REP; };
      int r = mbus_send_request_frame(h, 5);
      REQUIRE(r == 0, "send", "sending fails (%d)", r);
      ns_t t0 = g_now;
      r = mbus_recv_frame(h, &f);
      ns_t d = g_now - t0;
      REQUIRE(r == MBUS_RECV_RESULT_TIMEOUT, "silence", "silence is reported as %s", res_name(r));
      REQUIRE(d >= lo, "too-early", "with a timeout of %.6f s silence is reported after %.6f s", T, d / 1e9);
      REQUIRE(d <= hi, "too-late", "with a timeout of %.6f s silence is reported after %.6f s", T, d / 1e9);
    } else if (how == 1) {                               // an answer before then
      fault(F_SLOW_REPLY);
      ns_t lead = chance(1, 2) ? want / 50 + 3 * US : want / 2;
      b.tcp_max_gap = want - lead;
      b.delay_mode = 1;
      ns_t t0 = g_now;
      int r = mbus_send_request_frame(h, 5);
      REQUIRE(r == 0, "send", "sending fails (%d)", r);
      r = mbus_recv_frame(h, &f);
      REQUIRE(r == MBUS_RECV_RESULT_OK, "answer-missed", "with a timeout of %.6f s an answer after %.6f s is reported as %s", T, (want - lead) / 1e9, res_name(r));
      REQUIRE(g_now - t0 <= want + 1 * MS, "answer-late", "an answer after %.6f s is returned after %.6f s", (want - lead) / 1e9, (g_now - t0) / 1e9);
      b.delay_mode = 0;
    } else if (how == 2) {                               // a readout meets silence, its retries take that often
      b.plan = [](const Bytes &) { return RF_DROP_REQ; };
      int q = (int)choose(4);
      mbus_context_set_option(h, MBUS_OPTION_MAX_DATA_RETRY, q);
      ns_t t0 = g_now;
      int r = mbus_sendrecv_request(h, 5, &f, 1);
      ns_t d = g_now - t0;
      REQUIRE(r != 0, "silence", "a readout without answer succeeds");
      REQUIRE(d >= lo * (q + 1), "too-early", "with a timeout of %.6f s %d attempts take %.6f s", T, q + 1, d / 1e9);
      REQUIRE(d <= hi * (q + 1), "too-late", "with a timeout of %.6f s %d attempts take %.6f s", T, q + 1, d / 1e9);
      free_chain(&f);
    } else {                                             // the peer stops accepting data
      p->stall_at = g_now;
      p->stall_room = choose(3) ? 0 : (size_t)range(0, 4);
      ns_t t0 = g_now;
      int r = chance(1, 2) ? mbus_send_request_frame(h, 5) : mbus_send_ping_frame(h, 5, 0);
      ns_t d = g_now - t0;
      REQUIRE(r != 0, "stall", "sending to a peer that accepts nothing succeeds");
      REQUIRE(d >= lo, "too-early", "with a timeout of %.6f s a stalled send fails after %.6f s", T, d / 1e9);
      REQUIRE(d <= 2 * hi, "too-late", "with a timeout of %.6f s a stalled send fails after %.6f s", T, d / 1e9);
      probe("stalled peer");
      mbus_disconnect(h);
      mbus_context_free(h);
      hs[k] = nullptr;
    }
    p->rx.clear();
  }
  for (auto h : hs) if (h) { mbus_disconnect(h); mbus_context_free(h); }
}
PROPERTY("C14", c14, 300000, 3000000,
  "one run: 1 to 3 connections opened under changing timeouts of 1 ms to 60 s (fractions, negative ones in between), each exchange meeting silence, an answer shortly before the timeout, silence through all retries or a peer that stops accepting data; non-trivial: a fault fired; distinct: different sequence of exchanges, reads and faults")
