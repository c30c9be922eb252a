// C15 C16: what is put on the line, and what the callbacks show of it
#include "drv.h"
#include <cerrno>
#include <climits>
#include <memory>

extern "C" int tool_mbus_tcp_raw_send(int, char **);

// ------------------------------------------------------------------ C15
namespace {
struct Req { std::string what; std::function<int(mbus_handle *)> call; std::vector<Bytes> frames; bool valid; };
int bad_address() { return pick(std::vector<int>{-1, 256, 1000, INT_MAX, INT_MIN, -255, 512, 65536 + 5}); }
uint8_t good_address() { return chance(1, 3) ? pick(Bytes{0, 250, 253, 254, 255, 1}) : (uint8_t)choose(256); }
std::vector<Bytes> ud(uint8_t a, uint8_t ci, const Bytes &d) { return {f_long(0x53, a, ci, d), f_long(0x73, a, ci, d)}; }
std::string upper(std::string s) { for (auto &c : s) c = (char)toupper(c); return s; }
Req gen_req() {
  Req q;
  q.valid = !chance(1, 3);
  static Bytes data;                                     // set anew in every request
  switch (choose(8)) {
    case 7: {                                             // a frame the caller made
      mbus_frame *f = nullptr;
      static std::shared_ptr<mbus_frame> keep;
      keep.reset((mbus_frame *)calloc(1, sizeof(mbus_frame)), ::free);
      f = keep.get();
      int type = pick(std::vector<int>{MBUS_FRAME_TYPE_ACK, MBUS_FRAME_TYPE_SHORT, MBUS_FRAME_TYPE_CONTROL, MBUS_FRAME_TYPE_LONG});
      f->control = (uint8_t)choose(256);
      f->address = (uint8_t)choose(256);
      f->control_information = (uint8_t)choose(256);
      f->start1 = type == MBUS_FRAME_TYPE_ACK ? 0xE5 : type == MBUS_FRAME_TYPE_SHORT ? 0x10 : 0x68;
      f->start2 = 0x68;
      f->stop = 0x16;
      Bytes d(type == MBUS_FRAME_TYPE_LONG ? (size_t)range(1, 252) : 0);
      for (auto &x : d) x = (uint8_t)choose(256);
      f->data_size = d.size();
      if (!d.empty()) memcpy(f->data, d.data(), d.size());
      f->type = type;
      if (!q.valid) {
        if (chance(1, 3)) f = nullptr;
        else f->type = pick(std::vector<int>{MBUS_FRAME_TYPE_ANY, 5, 99, -1});
      }
      q.what = strf("frame of type %d", f ? f->type : -100);
      q.call = [=](mbus_handle *h) { return mbus_send_frame(h, f); };
      if (q.valid) q.frames = {type == MBUS_FRAME_TYPE_ACK ? ACK : type == MBUS_FRAME_TYPE_SHORT ? f_short(f->control, f->address) : f_long(f->control, f->address, f->control_information, d)};
      break;
    }
    case 0: {
      int a = q.valid ? good_address() : bad_address();
      bool purge = chance(1, 4);
      q.what = strf("ping %d", a);
      q.call = [=](mbus_handle *h) { return mbus_send_ping_frame(h, a, purge); };
      q.frames = {f_short(0x40, (uint8_t)a)};
      break;
    }
    case 1: {
      int a = q.valid ? good_address() : bad_address();
      q.what = strf("request %d", a);
      q.call = [=](mbus_handle *h) { return mbus_send_request_frame(h, a); };
      q.frames = {f_short(0x5B, (uint8_t)a), f_short(0x7B, (uint8_t)a)};
      break;
    }
    case 2: {
      std::string s;
      for (int i = 0; i < 16; i++) s += (i < 8 && !chance(1, 8)) ? (chance(1, 3) ? 'F' : (char)('0' + choose(10))) : "0123456789ABCDEFabcdef"[choose(22)];
      if (chance(1, 4)) for (auto &c : s) c = (char)tolower(c);
      if (!q.valid) {
        if (chance(1, 4)) { q.what = "select NULL"; q.call = [](mbus_handle *h) { return mbus_send_select_frame(h, nullptr); }; break; }
        if (chance(1, 2)) s[choose(16)] = pick(std::vector<char>{'G', ' ', 'x', '-', '+', '/', ':', '@', 'g', '.'});
        else if (chance(1, 2)) s.resize(choose(16)); else s += "0";
      }
      q.what = "select " + s;
      q.call = [=](mbus_handle *h) { return mbus_send_select_frame(h, s.c_str()); };
      uint8_t m[8];
      if (q.valid && mask_bytes(s, m)) q.frames = ud(0xFD, 0x52, Bytes(m, m + 8));
      break;
    }
    case 3: {
      int a = good_address();
      size_t n = chance(1, 4) ? (size_t)pick(std::vector<int>{1, 252, 251, 2}) : (size_t)range(1, 252);
      bool null = false;
      if (!q.valid) switch (choose(3)) {
        case 0: a = bad_address(); break;
        case 1: n = pick(std::vector<size_t>{0, 253, 254, 255, 256, 1000, SIZE_MAX, 65537}); break;
        default: null = true;
      }
      data.resize(n <= 252 ? n : 252);
      for (auto &x : data) x = (uint8_t)choose(256);
      data.shrink_to_fit();
      q.what = strf("user data %d %zu bytes%s", a, n, null ? " NULL" : "");
      const uint8_t *dp = null ? nullptr : data.data();
      if (!null && !dp) dp = (const uint8_t *)"";
      q.call = [=](mbus_handle *h) { return mbus_send_user_data_frame(h, a, dp, n); };
      if (q.valid) q.frames = ud((uint8_t)a, 0x51, data);
      break;
    }
    case 4: {
      int a = good_address(), sub = chance(1, 2) ? (int)choose(256) : -(int)range(1, 300);
      if (!q.valid) { if (chance(1, 2)) a = bad_address(); else sub = pick(std::vector<int>{256, 257, 1000, INT_MAX}); }
      q.what = strf("application reset %d %d", a, sub);
      q.call = [=](mbus_handle *h) { return mbus_send_application_reset_frame(h, a, sub); };
      q.frames = ud((uint8_t)a, 0x50, sub < 0 ? Bytes() : Bytes{(uint8_t)sub});
      break;
    }
    case 5: {
      int a = good_address();
      static const std::vector<std::pair<long, int>> tab = {{300, 0xB8}, {600, 0xB9}, {1200, 0xBA}, {2400, 0xBB}, {4800, 0xBC}, {9600, 0xBD}, {19200, 0xBE}, {38400, 0xBF}};
      auto e = pick(tab);
      if (!q.valid) { if (chance(1, 2)) a = bad_address(); else e.first = pick(std::vector<long>{0, -1, 301, 57600, 115200, 1800, 4294967296L + 2400}); }
      q.what = strf("baud rate %d %ld", a, e.first);
      q.call = [=](mbus_handle *h) { return mbus_send_switch_baudrate_frame(h, a, e.first); };
      q.frames = ud((uint8_t)a, (uint8_t)e.second, {});
      break;
    }
    default: {
      int a = good_address(), n = (int)choose(251);
      if (!q.valid) { if (chance(1, 3)) a = bad_address(); else if (chance(1, 2)) n = bad_address(); else n = (int)range(253, 255); }
      q.what = strf("set address %d %d", a, n);
      q.call = [=](mbus_handle *h) { return mbus_set_primary_address(h, a, n); };
      q.frames = ud((uint8_t)a, 0x51, {0x01, 0x7A, (uint8_t)n});
    }
  }
  return q;
}
Bytes line_bytes(Port *p, size_t from) {
  Bytes b;
  for (size_t i = from; i < p->tx.size(); i++) b.insert(b.end(), p->tx[i].b.begin(), p->tx[i].b.end());
  return b;
}
void c15_ops() {
  Bus &b = gen_bus(true);
  Port *p = b.port;
  if (p->kind == P_TCP) mbus_tcp_set_timeout_set(0.2);
  b.tcp_max_gap = 150 * MS;
  Master m = open_master(0);
  if (chance(1, 2)) gen_meters(b, PopOpt());
  int n = (int)range(1, 6);
  for (int i = 0; i < n; i++) {
    Req q = gen_req();
    bool faulty = chance(1, 3);
    size_t fired = 0;
    int kind = -1;
    if (faulty) {
      kind = (int)choose(p->kind == P_TCP ? 7 : 5);
      auto f0 = &fired;
      switch (kind) {
        case 0: p->write_fault = [f0](size_t) -> ssize_t { ++*f0; return -EIO; }; break;
        case 1: p->write_fault = [f0](size_t len) -> ssize_t { ++*f0; return len > 1 ? (ssize_t)range(1, (int64_t)len - 1) : 0; }; break;
        case 2: p->write_fault = [f0](size_t) -> ssize_t { ++*f0; return 0; }; break;
        case 3: { int once = 0; p->write_fault = [f0, once](size_t len) mutable -> ssize_t { if (once++) return SSIZE_MAX; ++*f0; return len > 1 ? (ssize_t)len - 1 : 0; }; break; }
        case 4: if (p->kind == P_TTY) p->hup_at = g_now; else p->rst_at = g_now; break;
        case 5: p->fin_at = g_now; break;
        case 6: p->stall_at = g_now; p->stall_room = (size_t)choose(8); break;
      }
    }
    size_t tx0 = p->tx.size();
    uint64_t w0 = p->nwrites;
    int r = q.call(m.h);
    Bytes got = line_bytes(p, tx0);
    shape(0x1500 + (q.valid ? 1 : 0) + (r ? 2 : 0) + (kind + 1) * 4);
    ev("%s: %d, line %s", q.what.c_str(), r, hex(got).c_str());
    if (!q.valid) {
      REQUIRE(r != 0, "invalid-accepted", "%s reports success", q.what.c_str());
      REQUIRE(got.empty() && p->nwrites == w0, "invalid-sent", "%s transmits %s", q.what.c_str(), hex(got).c_str());
      probe("invalid arguments");
    } else if (r == 0) {
      bool ok = std::find(q.frames.begin(), q.frames.end(), got) != q.frames.end();
      REQUIRE(ok, kind < 0 ? "wrong-frame" : "failure-ignored", "%s reports success with %s on the line instead of %s", q.what.c_str(), hex(got).c_str(), hex(q.frames[0]).c_str());
    } else {
      REQUIRE(kind >= 0, "refused", "%s fails (%d) although nothing is wrong with the line", q.what.c_str(), r);
      REQUIRE(kind != 5 || p->fin_reset, "refused", "%s fails", q.what.c_str());
      probe("transport failed");
    }
    p->write_fault = nullptr;
    if (kind >= 4) {                                    // a new connection
      mbus_disconnect(m.h);
      p->hup_at = p->rst_at = p->fin_at = p->stall_at = NEVER;
      p->rst_seen = p->fin_reset = p->half = false;
      p->rx.clear();
      if (chance(1, 2)) {                               // nothing is sent by a handle that is not connected
        Req x = gen_req();
        size_t t0 = p->tx.size();
        r = x.call(m.h);
        REQUIRE(r != 0, "unconnected", "%s on a handle that is not connected reports success", x.what.c_str());
        REQUIRE(p->tx.size() == t0, "unconnected", "%s on a handle that is not connected transmits", x.what.c_str());
        probe("request on an unconnected handle");
      }
      r = mbus_connect(m.h);
      REQUIRE(r == 0, "open", "connecting again fails (%d)", r);
      if (p->kind == P_TTY) mbus_serial_set_baudrate(m.h, p->line_baud);
    }
    b.acc.clear();
    if (chance(1, 2)) mbus_purge_frames(m.h); else p->rx.clear();
    if (chance(1, 12)) {                                // no handle at all
      Req x = gen_req();
      r = x.call(nullptr);
      REQUIRE(r != 0, "no-handle", "%s without a handle reports success", x.what.c_str());
    }
  }
  close_master(m);
}
void c15_raw() {
  Bus &b = g_world->add(P_TCP, 2400);
  Port *p = b.port;
  gen_meters(b, PopOpt());
  // a frame as text
  Bytes f;
  int addr = chance(2, 3) ? b.meters[0].addr : (int)choose(256);
  bool valid = true;
  switch (choose(4)) {
    case 0: f = f_short(pick(Bytes{0x40, 0x5B, 0x7B, 0x5A, 0x7A}), (uint8_t)addr); break;
    case 1: f = f_long(0x53, (uint8_t)addr, (uint8_t)choose(256), {}); break;
    case 2: { Bytes d((size_t)(chance(1, 4) ? range(240, 252) : range(1, 252))); for (auto &x : d) x = (uint8_t)choose(256); f = f_long(pick(Bytes{0x53, 0x73}), (uint8_t)addr, pick(Bytes{0x51, 0x50, 0x99}), d); break; }
    default: f = ACK;
  }
  if (f.size() > 1 && chance(1, 4)) {
    valid = false;
    if (chance(1, 2)) f.resize((size_t)range(1, f.size() - 1)); else f = corrupt(f, false);
  }
  std::string text;
  for (auto x : f) {
    text += strf(chance(1, 4) ? "%02x" : "%02X", x);
    while (chance(1, 3)) text += pick(std::vector<char>{' ', '\n', '\t', '\r'});
  }
  bool from_stdin = chance(1, 4), secondary = chance(1, 3), nofile = !from_stdin && chance(1, 12);
  if (!nofile) g_files[from_stdin ? "-" : "/tmp/frame"] = text;
  size_t bad = SIZE_MAX, last = text.find_last_not_of(" \t\r\n");
  if (!nofile && valid && chance(1, 10)) { bad = (size_t)range(0, (int64_t)text.size() - 1); g_file_bad[from_stdin ? "-" : "/tmp/frame"] = bad; }
  // with a secondary address the meter is selected first
  Bytes sel;
  size_t nhit = 0;
  std::string target = strf("%d", b.meters[0].addr);
  if (secondary) {
    target = b.meters[choose((uint32_t)b.meters.size())].address();
    if (chance(1, 3)) for (int i = 0; i < 8; i++) if (chance(1, 2)) target[i] = 'F';
    if (chance(1, 3)) target[choose(8)] = (char)('0' + choose(10));
    uint8_t m8[8];
    REQUIRE(mask_bytes(target, m8), "harness", "mask %s", target.c_str());
    for (auto &m : b.meters) if (m.matches(m8)) nhit++;
    sel = f_long(0x73, 0xFD, 0x52, Bytes(m8, m8 + 8));
  }
  int kind = chance(1, 3) ? (int)range(0, 3) : -1;
  if (kind == 0) p->write_fault = [](size_t) -> ssize_t { return -EIO; };
  if (kind == 1) p->write_fault = [](size_t n) -> ssize_t { return (ssize_t)range(0, (int64_t)n - 1); };
  if (kind == 2) p->rst_at = 0;
  if (kind == 3) b.plan = [](const Bytes &) { return RF_DROP_REP; };
  bool dbg = chance(1, 4);
  std::vector<std::string> args = {"mbus-tcp-raw-send"};
  if (dbg) args.push_back("-d");
  args.insert(args.end(), {"gw0", "4000", target});
  if (!from_stdin) args.push_back("/tmp/frame");
  int r = run_main(tool_mbus_tcp_raw_send, args);
  Bytes got = line_bytes(p, 0);
  if (secondary) {
    if (got.size() > 4 && got[4] == 0x53) { sel[4] = 0x53; sel[15] = (uint8_t)(sel[15] - 0x20); } // either frame count bit
    bool whole = got.size() >= sel.size() && std::equal(sel.begin(), sel.end(), got.begin());
    REQUIRE(whole || kind >= 0, "raw:select", "the raw send tool puts %s on the line for the meter %s", hex(got).c_str(), target.c_str());
    if (!whole) { REQUIRE(r != 0 && got.size() <= sel.size() && std::equal(got.begin(), got.end(), sel.begin()), "raw:select", "the raw send tool ends with %d and %s on the line for the meter %s", r, hex(got).c_str(), target.c_str()); return; }
    got.erase(got.begin(), got.begin() + sel.size());
    if (nhit == 0 || kind == 3) {
      REQUIRE(r != 0 && got.empty(), "raw:select", "the raw send tool ends with %d and %s on the line although %zu meters match %s", r, hex(got).c_str(), nhit, target.c_str());
      probe("raw: nobody selected");
      return;
    }
    if (nhit > 1 && r != 0) return;
    probe("raw: secondary address");
  }
  if (nofile) { REQUIRE(r != 0 && got.empty(), "raw:file", "the raw send tool ends with %d and %s on the line without an input file", r, hex(got).c_str()); return; }
  shape(0x1580 + (r ? 1 : 0) + (kind + 1) * 2 + (valid ? 16 : 0));
  if (bad <= last) {
    REQUIRE(r != 0 && got.empty(), "raw:unread", "the raw send tool ends with %d and %s on the line although only %zu bytes of %s can be read", r, hex(got).c_str(), bad, text.c_str());
    probe("raw: unreadable input");
    return;
  }
  if (bad != SIZE_MAX && valid && r != 0 && got.empty()) return;   // nothing is lost, but the tool may be careful
  if (!valid) {
    REQUIRE(r != 0, "raw:invalid", "the raw send tool reports success for %s", text.c_str());
    REQUIRE(got.empty(), "raw:invalid", "the raw send tool transmits %s for %s", hex(got).c_str(), text.c_str());
    probe("raw: not a frame");
    return;
  }
  if (r == 0) {
    REQUIRE(got == f, "raw:frame", "the raw send tool puts %s on the line instead of %s", hex(got).c_str(), hex(f).c_str());
    REQUIRE(kind < 0 || kind > 2, "raw:failure", "the raw send tool reports success although the connection failed");
    bool answered = false;
    for (auto &x : b.log) if (x.answers && (!secondary || &x != &b.log[0])) answered = true;
    REQUIRE(answered && kind != 3, "raw:no-answer", "the raw send tool reports success without an answer");
  } else if (kind < 0) {
    bool answered = false;                                // by one meter; several at once may collide
    for (auto &x : b.log) if (x.answers == 1 && (!secondary || &x != &b.log[0])) answered = true;
    REQUIRE(!answered && got == f, "raw:failed", "the raw send tool fails (%d) with %s on the line for %s", r, hex(got).c_str(), hex(f).c_str());
  }
}
}
static void c15() { if (chance(1, 5)) c15_raw(); else c15_ops(); }
PROPERTY("C15", c15, 320000, 4000000,
  "one run: 1 to 6 request operations of all kinds (valid at every address, length, rate and subcode; invalid address, length, rate, subcode, mask, data or handle) on a line that may fail, accept a part, hang up, reset or stall; or one frame given as text in a file or on standard input to the raw send tool, for a primary or secondary address; non-trivial: a fault fired; distinct: different sequence of requests, faults and verdicts")

// ------------------------------------------------------------------ C16
namespace {
struct Evt { bool rx; unsigned char type; Bytes b; size_t at[2]; };
struct Rec { std::vector<Evt> v; } *rec;
void on_send(unsigned char t, const char *d, size_t n) {
  Evt e{false, t, Bytes(d, d + n), {0, 0}};
  for (size_t i = 0; i < 2 && i < g_world->ports.size(); i++) e.at[i] = g_world->ports[i]->tx.size();
  ev_bytes("send event", (const uint8_t *)d, n);
  rec->v.push_back(e);
}
void on_recv(unsigned char t, const char *d, size_t n) {
  Evt e{true, t, Bytes(d, d + n), {0, 0}};
  for (size_t i = 0; i < 2 && i < g_world->ports.size(); i++) e.at[i] = g_world->ports[i]->consumed.size();
  ev_bytes("receive event", (const uint8_t *)d, n);
  rec->v.push_back(e);
}
struct Story { std::vector<std::string> out; std::vector<Bytes> tx; Rec rec; size_t consumed[2] = {0, 0}; };
void story(Story &s, int which) {                        // which: bit 0 send, bit 1 receive callback
  rec = &s.rec;
  Bus &b = gen_bus(false);
  Port *p = b.port;
  unsigned char type = p->kind == P_TTY ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP;
  if (p->kind == P_TCP) mbus_tcp_set_timeout_set(1.0);
  b.tcp_max_gap = 900 * MS;
  Master m = open_master(0);
  bool second = chance(1, 4);                            // another connection of the other kind, without callbacks of its own
  Master o;
  if (second) {
    Bus &b2 = g_world->add(p->kind == P_TTY ? P_TCP : P_TTY, 2400);
    gen_meters(b2, PopOpt());
    b2.tcp_max_gap = 900 * MS;
    o = open_master(1);
  }
  if (which & 1) mbus_register_send_event(m.h, on_send);
  if (which & 2) mbus_register_recv_event(m.h, on_recv);
  gen_meters(b, PopOpt());
  gen_limited_faults(b, ALL_FAULTS, 40);
  b.segments = chance(1, 3);
  b.gaps = chance(1, 4);
  b.echo = chance(1, 4);
  int echo_set = MBUS_FRAME_PURGE_M2S;
  if (chance(1, 4)) { echo_set = (int)choose(3); mbus_context_set_option(m.h, MBUS_OPTION_PURGE_FIRST_FRAME, echo_set); }
  mbus_context_set_option(m.h, MBUS_OPTION_MAX_DATA_RETRY, (long)choose(3));
  bool broken = false;
  int n = (int)range(1, 5);
  size_t tx_done = 0, ev_done = 0, rx_end = 0;
  Bytes acc;
  for (int i = 0; i < n; i++) {
    int how = (int)choose(6);
    if (chance(1, 8)) {
      int kind = (int)choose(6);
      if (kind < 3) { broken = true; break_transport(p, g_now + (chance(1, 2) ? 0 : 30 * MS), kind); }
      else if (kind == 3) p->write_fault = [](size_t) -> ssize_t { return -EIO; };
      else if (kind == 4) p->write_fault = [](size_t k) -> ssize_t { return (ssize_t)range(0, (int64_t)k - 1); };
      else p->read_errs.push_back({g_now, EIO}), broken = true;
    }
    size_t e0 = s.rec.v.size(), c0 = p->consumed.size();
    if (how >= 3) {                                      // one receive on its own
      int k = (int)range(0, 3);
      ns_t t = g_now;
      for (int j = 0; j < k; j++) {
        Bytes f = chance(1, 4) ? f_short(0x5B, 5) : chance(1, 3) ? ACK : f_long(0x08, 5, 0x72, Bytes((size_t)range(0, 252), 0x33));
        if (chance(1, 4)) { fault(F_TRUNC_REP); f.resize((size_t)range(1, f.size())); }
        else if (chance(1, 4)) { fault(F_CORRUPT_REP); f = corrupt(f, true); }
        t = b.emit(f, t);
      }
      mbus_frame f;
      memset(&f, 0, sizeof f);
      int r = mbus_recv_frame(m.h, &f);
      s.out.push_back(strf("receive %s %s", res_name(r), r == MBUS_RECV_RESULT_OK ? canon(&f).c_str() : ""));
      Bytes took(p->consumed.begin() + c0, p->consumed.end());
      if (which & 2) {
        std::vector<Evt> ev;
        for (size_t j = e0; j < s.rec.v.size(); j++) if (s.rec.v[j].rx) ev.push_back(s.rec.v[j]);
        Bytes all;
        for (auto &x : ev) all.insert(all.end(), x.b.begin(), x.b.end());
        if (r == MBUS_RECV_RESULT_OK || r == MBUS_RECV_RESULT_INVALID) {
          REQUIRE(all == took, "recv-event", "a receive that reports %s took %s from the line, the callback saw %s", res_name(r), hex(took).c_str(), hex(all).c_str());
          REQUIRE(ev.size() == 1 || ev.size() == 2, "recv-event", "%zu callbacks for one receive", ev.size());
          if (r == MBUS_RECV_RESULT_OK) REQUIRE(ev.back().b == frame_bytes(&f), "recv-event", "the callback saw %s for frame %s", hex(ev.back().b).c_str(), canon(&f).c_str());
          if (ev.size() == 2) {
            size_t l;
            REQUIRE(frame_at(ev[0].b.data(), ev[0].b.size(), &l) == 1 && l == ev[0].b.size(), "recv-event", "two callbacks for one receive, the first with %s", hex(ev[0].b).c_str());
          }
        } else if (r == MBUS_RECV_RESULT_TIMEOUT) REQUIRE(all == took, "recv-event", "a receive took %s, the callback saw %s", hex(took).c_str(), hex(all).c_str());
      }
      if (r != MBUS_RECV_RESULT_TIMEOUT && chance(2, 3)) s.out.push_back(strf("purge %d", mbus_purge_frames(m.h)));
    } else random_op(m, s.out);
    if (second && chance(1, 2)) {
      size_t e1 = s.rec.v.size();
      std::vector<std::string> other;
      random_op(o, other);
      REQUIRE(s.rec.v.size() == e1, "other-handle", "the callbacks of one handle are called for another");
    }
    p->write_fault = nullptr;
    // everything so far
    std::vector<Evt> sends;
    for (size_t j = ev_done; j < s.rec.v.size(); j++) {
      Evt &x = s.rec.v[j];
      REQUIRE(x.type == type, "type", "a %s callback is tagged %d on a connection of kind %d", x.rx ? "receive" : "send", x.type, type);
      if (!x.rx) { sends.push_back(x); continue; }
      size_t end = x.at[0];
      REQUIRE(x.b.size() <= end, "recv-event", "the receive callback saw more than was taken");
      size_t start = end - x.b.size();
      REQUIRE(std::equal(x.b.begin(), x.b.end(), p->consumed.begin() + start), "recv-event", "the receive callback saw %s, the last bytes taken are %s", hex(x.b).c_str(), hex(p->consumed.data() + start, x.b.size()).c_str());
      REQUIRE(start >= rx_end, "recv-event", "the receive callback saw bytes twice");
      REQUIRE(start == rx_end || broken, "recv-event", "%zu bytes were taken from the line without a callback", start - rx_end);
      size_t l;
      REQUIRE(!(frame_at(x.b.data(), x.b.size(), &l) == 1 && l < x.b.size()), "recv-event", "one callback for a frame and what follows it: %s", hex(x.b).c_str());
      rx_end = end;
    }
    ev_done = s.rec.v.size();
    if (which & 2) REQUIRE(rx_end == p->consumed.size() || broken, "recv-event", "%zu bytes were taken from the line without a callback", p->consumed.size() - rx_end);
    if (which & 1) {
      std::vector<Bytes> want;
      for (; tx_done < p->tx.size(); tx_done++) {
        auto &t = p->tx[tx_done];
        size_t l;
        if (t.complete && frame_at(t.b.data(), t.b.size(), &l) == 1 && l == t.b.size()) { acc.clear(); want.push_back(t.b); continue; }
        acc.insert(acc.end(), t.b.begin(), t.b.end());   // the rest of a frame that was taken in pieces
        if (frame_at(acc.data(), acc.size(), &l) == 1 && l == acc.size()) { want.push_back(acc); acc.clear(); }
      }
      REQUIRE(sends.size() == want.size(), "send-event", "%zu frames were handed over, the send callback was called %zu times", want.size(), sends.size());
      for (size_t j = 0; j < want.size(); j++) REQUIRE(sends[j].b == want[j], "send-event", "frame %s was sent, the callback saw %s", hex(want[j]).c_str(), hex(sends[j].b).c_str());
    } else REQUIRE(sends.empty(), "send-event", "a callback that was not registered is called");
    if (broken) break;
  }
  for (auto &t : p->tx) s.tx.push_back(t.b);
  s.consumed[0] = p->consumed.size();
  shape(0x1600 + which + (broken ? 8 : 0));
  close_master(m);
  if (second) close_master(o);
  rec = nullptr;
}
}
static void c16() {
  size_t m0 = twin_mark();
  ns_t t0 = g_now;
  Story a;
  story(a, 3);
  size_t m1 = twin_mark();
  if (!chance(1, 2)) return;
  int which = (int)choose(3);
  world_reset();
  lib_statics_restore();
  g_now = t0;
  Story b;
  twin_replay(m0, m1);
  story(b, which);
  twin_done();
  REQUIRE(a.out == b.out, "callbacks-change", "the results differ with %d and without callbacks", which);
  REQUIRE(a.tx == b.tx, "callbacks-change", "the requests differ with %d and without callbacks", which);
  REQUIRE(a.consumed[0] == b.consumed[0], "callbacks-change", "what is taken from the line differs with %d and without callbacks", which);
  probe("compared with a run without callbacks");
}
PROPERTY("C16", c16, 125000, 2500000,
  "one run: 1 to 5 operations of any kind and single receives of valid, cut and damaged input with both callbacks registered, faults of every kind, failing and partial writes and breaking transports, mostly next to a second connection; half of the runs executed again with fewer callbacks and compared; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")
