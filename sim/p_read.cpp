// C02 C05 C06 C24: readouts, damage, retries, purging
#include "drv.h"
#include "recs.h"
#include <cerrno>
#include <climits>

static std::string short_hex(const Bytes &b) { return b.size() > 24 ? hex(b.data(), 24) + strf("...(%zu)", b.size()) : hex(b); }

// ------------------------------------------------------------------ C02
static Bytes piece(int &kind) {
  kind = (int)choose(6);
  static const std::vector<uint8_t> rc = {0x08, 0x18, 0x28, 0x38};
  Bytes d((size_t)range(0, 40));
  for (auto &x : d) x = (uint8_t)(chance(1, 3) ? pick(Bytes{0x68, 0xE5, 0x10, 0x16, 0x08}) : choose(256));
  Bytes f = chance(1, 5) ? f_short(0x5B, (uint8_t)choose(256)) : f_long(pick(rc), (uint8_t)choose(256), 0x72, d);
  if (kind == 0 || kind == 4) return f;
  if (kind == 1) { fault(F_CORRUPT_REP); return corrupt(f, true); }
  if (kind == 2) { fault(F_TRUNC_REP); f.resize((size_t)range(1, f.size() - 1)); return f; }
  if (kind == 3) { fault(F_STRAY_ACK); return ACK; }
  fault(F_NOISE_PRE);
  Bytes n((size_t)range(1, 10));
  for (auto &x : n) x = (uint8_t)(chance(1, 3) ? pick(Bytes{0x68, 0x10, 0x16}) : choose(256));
  return n;
}
static void c02_stream() {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  Master m = open_master(0);
  if (chance(2, 3)) mbus_context_set_option(m.h, MBUS_OPTION_PURGE_FIRST_FRAME, (long)choose(3));
  b.segments = chance(1, 2);
  p->cfg_short_read = chance(1, 4);
  int n = (int)range(1, 8);
  ns_t t = g_now;
  for (int i = 0; i < n; i++) {
    int k;
    Bytes x = piece(k);
    t = b.emit(x, t + (chance(1, 4) ? b.window() * 2 : chance(1, 4) ? b.window() / 2 : 0));
  }
  mbus_frame fr;
  memset(&fr, 0, sizeof fr);
  int quiet = 0;
  for (int i = 0; i < 2000 && quiet < 3; i++) {
    size_t before = p->consumed.size();
    int r = mbus_recv_frame(m.h, &fr);
    shape(0x200 + r + 4);
    if (r == MBUS_RECV_RESULT_TIMEOUT) { quiet = g_now > p->last_arrival && p->rx.empty() ? quiet + 1 : 0; continue; }
    quiet = 0;
    REQUIRE(r == MBUS_RECV_RESULT_OK || r == MBUS_RECV_RESULT_INVALID, "verdict", "receive reports %s", res_name(r));
    if (r != MBUS_RECV_RESULT_OK) continue;
    Bytes got = frame_bytes(&fr);
    size_t l = 0;
    REQUIRE(frame_at(got.data(), got.size(), &l) == 1 && l == got.size(), "unverified", "a frame %s that does not verify is reported as received", short_hex(got).c_str());
    size_t took = p->consumed.size() - before;
    REQUIRE(got.size() <= took && std::equal(got.begin(), got.end(), p->consumed.end() - got.size()), "invented",
            "frame %s was never on the line (last %zu bytes taken: %s)", short_hex(got).c_str(), took, hex(p->consumed.data() + before, took).c_str());
    probe("frame received from a damaged stream");
  }
  close_master(m);
}
// every telegram handed out was sent by the addressed meter during this readout
static void check_sent(Bus &b, size_t from, const Meter &mt, const mbus_frame *f, const char *what) {
  Bytes got = frame_bytes(f);
  for (size_t i = from; i < b.sent.size(); i++)
    if (b.sent[i].meter == mt.idx && b.sent[i].b == got) return;
  for (size_t i = 0; i < b.sent.size(); i++)
    if (b.sent[i].b == got) fail("foreign-data", "%s delivers a telegram of meter %d that was %s", what, b.sent[i].meter, i < from ? "sent before" : "not asked for");
  fail("damaged-data", "%s delivers %s, which no meter sent", what, short_hex(got).c_str());
}
static void c02_readout() {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  Master m = open_master(0);
  PopOpt po;
  po.rich = true;
  gen_meters(b, po);
  gen_faults(b, {RF_CORRUPT_REP, RF_TRUNC_REP, RF_STRAY_ACK, RF_NOISE_PRE, RF_NOISE_POST, RF_CORRUPT_REQ, RF_DROP_REP, RF_DUP_REP, RF_DROP_REQ});
  b.segments = chance(1, 2);
  b.gaps = chance(1, 3);
  b.echo = chance(1, 4);
  p->cfg_short_read = chance(1, 5);
  if (chance(1, 2)) mbus_context_set_option(m.h, MBUS_OPTION_MAX_DATA_RETRY, (long)choose(10));
  int rounds = (int)range(1, 4);
  for (int i = 0; i < rounds; i++) {
    Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
    int how = (int)choose(5);
    mbus_frame reply;
    memset(&reply, 0, sizeof reply);
    mbus_send_ping_frame(m.h, mt.addr, 1);
    size_t from = b.sent.size();
    int r;
    std::string addr = mt.address();
    const char *what;
    if (how <= 1) {
      what = "a readout";
      r = mbus_sendrecv_request(m.h, mt.addr, &reply, (int)choose(4));
    } else if (how == 2) {
      what = "a readout by secondary address";
      r = mbus_select_secondary_address(m.h, addr.c_str());
      if (r != MBUS_PROBE_SINGLE) { mbus_purge_frames(m.h); continue; }
      // a stray acknowledge may have answered instead of the meter
      bool really = mt.selected;
      int others = 0;
      for (auto &o : b.meters) if (&o != &mt && o.selected) others++;
      if (!really || others) continue;
      from = b.sent.size();
      r = mbus_sendrecv_request(m.h, 0xFD, &reply, 0);
    } else {
      what = "mbus_read_slave";
      mbus_address a;
      memset(&a, 0, sizeof a);
      if (how == 3) { a.is_primary = 1; a.primary = mt.addr; }
      else { a.secondary = (char *)addr.c_str(); for (auto &o : b.meters) o.selected = false; }
      r = mbus_read_slave(m.h, &a, &reply);
    }
    shape(0x300 + how * 8 + (r ? 1 : 0));
    if (r == 0) {
      for (auto f : chain(&reply)) {
        Bytes got = frame_bytes(f);
        size_t l;
        REQUIRE(frame_at(got.data(), got.size(), &l) == 1 && l == got.size(), "unverified", "%s delivers %s, which does not verify", what, short_hex(got).c_str());
        if (how <= 2 || got.size() > 5) check_sent(b, from, mt, f, what);
      }
      if (faults_total()) probe("readout succeeded despite faults");
    }
    free_chain(&reply);
    mbus_purge_frames(m.h);
  }
  close_master(m);
}
static void c02() { if (chance(1, 2)) c02_stream(); else c02_readout(); }
PROPERTY("C02", c02, 180000, 3000000,
  "one run: either a stream of 1 to 8 valid, damaged, cut and noise pieces received frame by frame, or 1 to 4 readouts (primary, secondary, single request) of a random population while replies are damaged, cut, duplicated, preceded or followed by noise or stray acknowledges; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")

// ------------------------------------------------------------------ C05
static void c05() {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  Master m = open_master(0);
  PopOpt o;
  o.max_telegrams = 6;
  o.rich = true;
  gen_meters(b, o);
  if (chance(1, 12)) {                                   // many telegrams
    Meter &x = b.meters[0];
    x = simple_meter(x.idx, x.addr, x.id, chance(1, 20) ? (int)range(250, 300) : (int)range(10, 40), 0);
  }
  if (chance(1, 10)) {                                   // a meter with fixed data: one telegram
    Meter &x = b.meters[choose((uint32_t)b.meters.size())];
    x.fixed = true;
    x.telegrams = {Bytes(11)};
    for (auto &c : x.telegrams[0]) c = (uint8_t)choose(256);
    x.l0 = x.lfd = Link();
  }
  gen_faults(b, ALL_FAULTS);
  if (chance(1, 6)) for (auto &x : b.meters) x.app_error_rate = (int)range(5, 50);
  b.segments = chance(1, 2);
  b.gaps = chance(1, 3);
  b.echo = chance(1, 5);
  p->cfg_short_read = chance(1, 6);
  p->cfg_eintr = p->kind == P_TCP && chance(1, 6);
  bool sec = chance(1, 3);
  int rounds = (int)range(1, 2);
  for (int i = 0; i < rounds; i++) {
    Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
    if (i && chance(1, 3)) make_stale(b, mt);
    int addr = mt.addr;
    uint64_t g0 = mt.generation;
    std::string a = mt.address();
    bool reset = false;
    for (int k = 0; k < 8 && !reset; k++) {
      if (sec) {
        if (chance(1, 3)) for (auto &c : a) if (c >= 'A') c = (char)(c - 'A' + 'a');
        int r = mbus_select_secondary_address(m.h, a.c_str());
        if (r != MBUS_PROBE_SINGLE) mbus_purge_frames(m.h);
        reset = mt.generation > g0 && mt.selected;
        for (auto &x : b.meters) if (&x != &mt && x.selected) reset = false;
      } else {
        mbus_send_ping_frame(m.h, addr, 1);
        reset = mt.generation > g0;
      }
    }
    if (!reset) { if (i == 0) discard("no link reset got through"); continue; }
    int n = (int)mt.telegrams.size();
    int k = (int)range(0, n + 1);
    size_t log0 = b.log.size(), f0 = faults_total();
    mbus_frame reply;
    memset(&reply, 0, sizeof reply);
    int r = mbus_sendrecv_request(m.h, sec ? 0xFD : addr, &reply, k);
    bool disturbed = false;
    for (size_t j = log0; j < b.log.size(); j++) if (b.log[j].fault != RF_NONE) disturbed = true;
    (void)f0;
    int want = k == 0 || k > n ? n : k;
    shape(0x500 + (r ? 64 : 0) + want);
    auto ch = chain(&reply);
    bool refused = false;                                // the meter answered with an application error
    for (auto &x : b.sent) if (x.meter == mt.idx && x.generation == mt.generation && x.telegram == -2) refused = true;
    const Sent *only = nullptr;
    if (r == 0 && ch.size() == 1) for (auto &x : b.sent) if (x.b == frame_bytes(ch[0]) && x.meter == mt.idx && x.telegram == -2) only = &x;
    if (only) {
      REQUIRE(only->generation == mt.generation, "foreign", "a readout returns an application error from before it");
      probe("application error handed out");
    } else if (r == 0) {
      for (size_t j = 0; j < ch.size(); j++) {
        Bytes got = frame_bytes(ch[j]);
        const Sent *s = nullptr;
        for (auto &x : b.sent) if (x.b == got) s = &x;
        if (s && s->telegram == -2) fail("incomplete", "position %zu of a successful readout is an application error (limit %d, %d telegrams)", j, k, n);
        REQUIRE(s, "altered", "telegram %zu of the readout is %s, which was never sent", j, short_hex(got).c_str());
        REQUIRE(s->meter == mt.idx, "foreign", "telegram %zu of the readout comes from meter %d, not %d", j, s->meter, mt.idx);
        REQUIRE(s->telegram == (int)j && s->generation == mt.generation, s->telegram > (int)j ? "missing" : "repeated",
                "position %zu of the readout holds telegram %d of %d (limit %d)", j, s->telegram, n, k);
      }
      REQUIRE((int)ch.size() == want, "incomplete", "a readout with limit %d of a meter with %d telegrams returns %zu and success", k, n, ch.size());
      if (disturbed) probe("complete readout despite faults");
      if (want > 1) probe("multi-telegram readout");
    } else if (refused) probe("readout fails after an application error");
    else if (!disturbed && b.held.empty()) {
      bool late = false;
      for (size_t j = log0 ? log0 - 1 : 0; j < b.log.size(); j++) if (b.log[j].fault != RF_NONE) late = true;
      if (!late) fail("undisturbed-failure", "an undisturbed readout of %d telegrams with limit %d fails (%d)", n, k, r);
    }
    free_chain(&reply);
    mbus_purge_frames(m.h);
  }
  close_master(m);
}
PROPERTY("C05", c05, 120000, 3000000,
  "one run: 1 to 3 meters holding 1 to 40 telegrams in any stale link state, a link reset or selection that got through, then a readout with limit 0 to n+1 under loss, damage, truncation, duplication, late replies, noise and stray acknowledges; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")

// ------------------------------------------------------------------ C06
static void c06() {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  Master m = open_master(0);
  int n = 3;                                            // the default
  if (chance(3, 4)) {
    n = (int)choose(10);
    int r = mbus_context_set_option(m.h, MBUS_OPTION_MAX_DATA_RETRY, n);
    REQUIRE(r == 0, "option", "data retry %d is rejected", n);
  }
  if (chance(1, 3)) {
    long v = pick(std::vector<long>{-1, 10, 11, 100, -9, 256, 65536, 259, 4294967299L, -4294967295L});
    int r = mbus_context_set_option(m.h, MBUS_OPTION_MAX_DATA_RETRY, v);
    REQUIRE(r != 0, "option", "data retry %ld is accepted", v);
    probe("invalid retry setting");
  }
  if (chance(1, 3)) mbus_context_set_option(m.h, MBUS_OPTION_MAX_SEARCH_RETRY, (long)choose(10));
  uint8_t addr = any_addr();
  if (addr == 0xE5) addr = 7;
  int nt = (int)range(1, 5);
  Meter mt = simple_meter(1, addr, dec_id((uint32_t)range(1, 9999999)), nt, 4);
  mt.access_changes = false;
  if (chance(1, 2)) {
    enrich(mt);
    for (auto &t : mt.telegrams) for (auto &c : t) if (c == 0xE5 || c == 0x10 || c == 0x68) c = 0x11;
    for (int i = 0; i < nt; i++) if (!well_formed(mt.telegrams[i], i + 1 < nt)) discard("records no longer well-formed without the start bytes");
  }
  for (int i = 0; i < nt; i++)
    for (int tries = 0;; tries++) {                     // no byte that reads as an acknowledge
      Bytes t = mt.telegram(i);
      if (std::find(t.begin(), t.end(), 0xE5) == t.end()) break;
      if (tries > 20 || mt.telegrams[i].size() + 3 > 252 - 12) discard("acknowledge byte in every variant");
      mt.telegrams[i].insert(mt.telegrams[i].begin(), {0x01, 0x78, (uint8_t)(tries * 3 + 1)});
    }
  b.meters.push_back(mt);
  b.segments = chance(1, 3);
  b.echo = chance(1, 5);
  bool sec = chance(1, 4);
  for (int i = 0; i < 1; i++) {
    if (sec) {
      int r = mbus_select_secondary_address(m.h, mt.address().c_str());
      REQUIRE(r == MBUS_PROBE_SINGLE, "select", "selecting an undisturbed meter answers %d", r);
    } else mbus_send_ping_frame(m.h, addr, 1);
  }
  // budget per telegram
  int scenario = (int)choose(4);                        // 0 within budget, 1 one telegram exceeds it, 2 transport failure, 3 never answers
  std::vector<int> budget(nt);
  int limit = (int)range(0, nt);
  int want = limit ? std::min(limit, nt) : nt;
  for (auto &x : budget) x = chance(1, 3) ? n : (int)range(0, n);
  int bad = -1;
  if (scenario == 1) { bad = (int)choose((uint32_t)want); budget[bad] = n + 1; }
  if (scenario == 3) { bad = 0; budget[0] = 1000; }
  std::vector<int> done(nt, 0);
  std::vector<int> count(nt, 0);
  int cur = 0;
  b.plan = [&](const Bytes &f) -> ReplyFault {
    if (f[0] != 0x10 || (f[1] & 0x4F) != 0x4B || cur >= nt) return RF_NONE;
    count[cur]++;
    if (done[cur] < budget[cur]) {
      done[cur]++;
      if (scenario == 3) return RF_DROP_REQ;
      static const std::vector<ReplyFault> k = {RF_DROP_REQ, RF_DROP_REP, RF_CORRUPT_REQ, RF_CORRUPT_REP, RF_TRUNC_REP};
      return pick(k);
    }
    cur++;
    return RF_NONE;
  };
  b.corrupt_may_ack = false;
  size_t tx0 = p->tx.size();
  int stop_after = -1, kind = 0;
  bool wfail = false;
  int again = 0;
  if (scenario == 2) {
    int total = 0;
    for (int i = 0; i < want; i++) total += budget[i] + 1;
    stop_after = (int)choose((uint32_t)total);          // the failure hits with this transmission
    kind = (int)choose(4);
    int seen = 0;
    if (kind == 3) {
      wfail = true;
      size_t rest = 0;
      p->write_fault = [=, &again](size_t len) mutable -> ssize_t {
        if (seen++ < stop_after) return SSIZE_MAX;
        if (seen > stop_after + 1 && len != rest) again++;  // going on with the rest of the same frame is no further transmission
        uint32_t c = choose(3);
        ssize_t k = c == 0 || (c == 2 && len < 2) ? -EIO : c == 1 ? 0 : (ssize_t)range(1, (int64_t)len - 1);
        rest = k > 0 ? len - (size_t)k : 0;
        return k;
      };
    } else {
      b.on_frame = [=, &b](const Bytes &) mutable {
        if (seen++ == stop_after) { b.port->rx.clear(); break_transport(b.port, g_now, kind); }
      };
    }
  }
  mbus_frame reply;
  memset(&reply, 0, sizeof reply);
  int r = mbus_sendrecv_request(m.h, sec ? 0xFD : addr, &reply, limit);
  auto ch = chain(&reply);
  shape(0x600 + scenario * 16 + (r ? 8 : 0));
  size_t ntx = p->tx.size() - tx0;
  if (scenario == 0) {
    REQUIRE(r == 0, "gave-up", "a readout with %d retries fails although no telegram needed more (budgets%s)", n,
            [&] { std::string s; for (auto x : budget) s += strf(" %d", x); return s; }().c_str());
    REQUIRE((int)ch.size() == want, "incomplete", "%zu of %d telegrams", ch.size(), want);
    for (int i = 0; i < want; i++)
      REQUIRE(count[i] == budget[i] + 1, "transmissions", "telegram %d was requested %d times, needing %d", i, count[i], budget[i] + 1);
    REQUIRE((int)ntx == [&] { int s = 0; for (int i = 0; i < want; i++) s += budget[i] + 1; return s; }(), "transmissions", "%zu transmissions", ntx);
    if (n && budget[0] == n) probe("budget used to the last retry");
  } else if (scenario == 1 || scenario == 3) {
    REQUIRE(r != 0, "endless", "success although telegram %d was not answered in %d attempts", bad, n + 1);
    REQUIRE(count[bad] == n + 1, "transmissions", "an unanswered request was sent %d times with %d retries", count[bad], n);
    int total = 0;
    for (int i = 0; i <= bad; i++) total += i == bad ? n + 1 : budget[i] + 1;
    REQUIRE((int)ntx == total, "transmissions", "%zu transmissions instead of %d", ntx, total);
    for (size_t i = p->tx.size() - (n + 1); i < p->tx.size(); i++)
      REQUIRE(p->tx[i].b == p->tx.back().b, "transmissions", "a repetition differs from the request: %s and %s", hex(p->tx[i].b).c_str(), hex(p->tx.back().b).c_str());
    probe("retries exhausted");
  } else {
    REQUIRE(r != 0, "transport-ignored", "a readout succeeds although the transport failed at transmission %d", stop_after);
    if (wfail) REQUIRE(again == 0, "after-failure", "%d further transmissions although number %d failed", again, stop_after);
    else {
      // a hang-up can look like silence to the receive it interrupts; the next send meets it
      REQUIRE((int)ntx <= stop_after + 1, "after-failure", "%zu transmissions although the transport failed at number %d", ntx, stop_after);
    }
    probe("transport failed during readout");
  }
  free_chain(&reply);
  p->write_fault = nullptr;
  close_master(m);
}
PROPERTY("C06", c06, 150000, 2000000,
  "one run: a retry setting 0 to 9 (or the default, or a rejected one), a meter with 1 to 5 telegrams and a chosen number of lost or damaged exchanges per telegram (within the budget, one beyond it, never answering, or the transport failing at a chosen transmission); transmissions are counted; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")

// ------------------------------------------------------------------ C24
static void c24() {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  double tmo = 4.0;
  if (p->kind == P_TCP && chance(1, 3)) { tmo = 1.0; mbus_tcp_set_timeout_set(tmo); }
  b.tcp_max_gap = (ns_t)(tmo * 0.95 * SEC);
  Master m = open_master(0);
  bool any = chance(1, 2);                              // any direction, echo setting off
  if (any) mbus_context_set_option(m.h, MBUS_OPTION_PURGE_FIRST_FRAME, MBUS_FRAME_PURGE_NONE);
  b.segments = chance(1, 2);
  p->cfg_short_read = chance(1, 4);
  PopOpt po;
  po.rich = true;
  gen_meters(b, po);
  Meter &mt = b.meters[0];
  int rounds = (int)range(1, 3);
  for (int round = 0; round < rounds; round++) {
    bool ping = chance(1, 3);
    int to = mt.addr;
    if (ping) {
      uint32_t who = choose(6);
      if (who == 0) to = 254;
      if (who == 1) to = 255;
      if (who >= 4) {                                   // the selected meter
        std::string mask = mt.address();
        int r = mbus_select_secondary_address(m.h, mask.c_str());
        REQUIRE(r == MBUS_PROBE_SINGLE && mt.selected, "select", "selecting %s gives %d", mask.c_str(), r);
        to = 253;
        probe("ping to a selected meter");
      }
    }
    int k = (int)range(0, 6);
    ns_t t = g_now;
    Bytes all;
    for (int i = 0; i < k; i++) {
      Bytes x;
      switch (choose(5)) {
        case 0: x = mt.telegram(choose((uint32_t)mt.telegrams.size())); break;
        case 1: x = ACK; break;
        case 2: for (int j = (int)range(1, 6); j > 0; j--) x.push_back((uint8_t)choose(256)); if (frame_anywhere(x)) x = {0x7F}; break;
        case 3: x = mt.telegram(0); x.resize((size_t)range(1, x.size() - 1)); break;
        default: x = any ? f_short(0x5B, 3) : f_long(0x08, 9, 0x72, Bytes((size_t)range(0, 250), 0x11)); break;
      }
      ns_t gap = i == 0 ? (chance(1, 2) ? 0 : b.window() - b.bit(11)) : chance(1, 3) ? b.window() - b.bit(11) : 0;
      t = b.emit(x, std::max(t, g_now) + gap);
      all.insert(all.end(), x.begin(), x.end());
      fault(F_STALE_RX);
    }
    size_t before = p->consumed.size(), nsent = b.sent.size();
    (void)nsent;
    if (ping) {
      b.plan = [&](const Bytes &) { static const std::vector<ReplyFault> v = {RF_NONE, RF_DUP_REP, RF_NOISE_POST, RF_NOISE_PRE, RF_STRAY_ACK, RF_CORRUPT_REP}; return chance(1, 2) ? pick(v) : RF_NONE; };
      mbus_send_ping_frame(m.h, to, 1);
      b.plan = nullptr;
    } else {
      int r = mbus_purge_frames(m.h);
      shape(0x700 + (r ? 1 : 0));
      REQUIRE((r != 0) == (k > 0), "return", "a purge that met %s returns %d", k ? hex(all).c_str() : "silence", r);
    }
    REQUIRE(p->rx.empty(), "left-over", "%zu bytes are left behind by the purge", p->rx.size());
    if (!ping) REQUIRE(p->consumed.size() - before == all.size(), "left-over", "%zu of %zu bytes discarded", p->consumed.size() - before, all.size());
    // the next exchange sees what arrives later, whole
    if (chance(1, 2)) {
      mbus_frame fr;
      memset(&fr, 0, sizeof fr);
      Bytes x = mt.telegram(0);
      b.emit(x, g_now + (chance(1, 2) ? b.window() / 2 : 0));
      int r = mbus_recv_frame(m.h, &fr);
      REQUIRE(r == MBUS_RECV_RESULT_OK && frame_bytes(&fr) == x, "next-exchange", "after a purge the next frame is received as %s", res_name(r));
    } else {
      uint64_t g = mt.generation;
      mbus_send_ping_frame(m.h, mt.addr, 1);
      REQUIRE(mt.generation > g, "ping", "the ping does not reach the meter");
      mbus_frame reply;
      memset(&reply, 0, sizeof reply);
      size_t f0 = b.sent.size();
      int r = mbus_sendrecv_request(m.h, mt.addr, &reply, 0);
      REQUIRE(r == 0, "next-exchange", "the readout after a purge fails (%d)", r);
      auto ch = chain(&reply);
      REQUIRE(ch.size() == mt.telegrams.size(), "next-exchange", "the readout after a purge returns %zu of %zu telegrams", ch.size(), mt.telegrams.size());
      for (size_t i = 0; i < ch.size(); i++) REQUIRE(frame_bytes(ch[i]) == b.sent[f0 + i].b, "next-exchange", "telegram %zu of the readout after a purge differs", i);
      free_chain(&reply);
    }
  }
  close_master(m);
}
PROPERTY("C24", c24, 150000, 2000000,
  "one run: 1 to 3 rounds of 0 to 6 pieces (frames, acknowledges, noise, cut frames) with pauses up to just under the response window, a purge or a ping with purge (its answer damaged, doubled or followed by noise), then a clean exchange that must see only its own answer; non-trivial: a fault fired; distinct: different sequence of reads, faults and verdicts")
