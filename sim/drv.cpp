#include "drv.h"
#include <cerrno>
#include "recs.h"

Master open_master(size_t n) {
  Master m;
  m.n = (int)n;
  m.p = g_world->ports[n].get();
  m.b = g_world->buses[n].get();
  if (m.p->kind == P_TTY) {
    m.h = mbus_context_serial(strf("/dev/sim%zu", n).c_str());
  } else {
    m.h = mbus_context_tcp(strf("gw%zu", n).c_str(), 4000);
  }
  REQUIRE(m.h, "open", "no context");
  int r = mbus_connect(m.h);
  REQUIRE(r == 0, "open", "connect to a working port fails (%d)", r);
  if (m.p->kind == P_TTY && m.p->line_baud != 2400) {
    r = mbus_serial_set_baudrate(m.h, m.p->line_baud);
    REQUIRE(r == 0, "open", "setting %ld baud fails (%d)", m.p->line_baud, r);
  }
  return m;
}
void close_master(Master &m) {
  mbus_disconnect(m.h);
  mbus_context_free(m.h);
  m.h = nullptr;
}
Bus &gen_bus(bool allow_slow) {
  static const std::vector<long> rates = {2400, 9600, 300, 38400, 4800, 1200, 600, 19200};
  static const std::vector<long> fast = {2400, 9600, 38400, 4800, 19200};
  if (chance(1, 2)) return g_world->add(P_TCP, 2400);
  return g_world->add(P_TTY, allow_slow ? pick(rates) : pick(fast));
}
Bytes frame_bytes(const mbus_frame *f) {
  Bytes b;
  switch (f->type) {
    case MBUS_FRAME_TYPE_ACK: return {f->start1};
    case MBUS_FRAME_TYPE_SHORT: return {f->start1, f->control, f->address, f->checksum, f->stop};
    case MBUS_FRAME_TYPE_CONTROL:
    case MBUS_FRAME_TYPE_LONG:
      b = {f->start1, f->length1, f->length2, f->start2, f->control, f->address, f->control_information};
      for (size_t i = 0; i < f->data_size && i < sizeof f->data; i++) b.push_back(f->data[i]);
      b.push_back(f->checksum);
      b.push_back(f->stop);
      return b;
  }
  return b;
}
std::string canon(const mbus_frame *f) { return hex(frame_bytes(f)); }
void free_chain(mbus_frame *head) {
  if (head->next) { mbus_frame_free((mbus_frame *)head->next); head->next = nullptr; }
}
std::vector<const mbus_frame *> chain(const mbus_frame *head) {
  std::vector<const mbus_frame *> v;
  for (auto f = head; f; f = (const mbus_frame *)f->next) {
    v.push_back(f);
    REQUIRE(v.size() < 10000, "chain", "endless chain of frames");
  }
  return v;
}
const char *res_name(int r) {
  switch (r) {
    case MBUS_RECV_RESULT_OK: return "ok";
    case MBUS_RECV_RESULT_ERROR: return "error";
    case MBUS_RECV_RESULT_INVALID: return "invalid";
    case MBUS_RECV_RESULT_TIMEOUT: return "timeout";
    case MBUS_RECV_RESULT_RESET: return "reset";
  }
  return "?";
}
ns_t recv_window(const Port *p) {
  if (p->kind == P_TCP) return p->rcvto;
  return 3 * (ns_t)p->tio.c_cc[VTIME] * 100 * MS;
}
uint8_t any_addr() {
  switch (choose(4)) {
    case 1: return 0;
    case 2: return 250;
    case 3: return (uint8_t)range(0, 250);
  }
  return 5;
}
void gen_meters(Bus &b, const PopOpt &o) {
  int n = (int)range(1, o.max_meters);
  std::set<int> used;
  for (int i = 0; i < n; i++) {
    int a = any_addr();
    while (used.count(a) || a > 250) a = (a + 1) % 251;
    used.insert(a);
    uint32_t id = dec_id((uint32_t)range(1, 99) * 1000003u % 100000000u + i * 7);
    Meter m = simple_meter(i + 1, (uint8_t)a, id, (int)range(1, o.max_telegrams), o.max_extra);
    m.ver = (uint8_t)(1 + i);
    m.med = (uint8_t)(2 + choose(6));
    m.access = (uint8_t)choose(256);
    if (chance(1, 2)) { m.status = (uint8_t)choose(256); m.sig = (uint16_t)choose(65536); }
    if (o.rich && chance(1, 2)) enrich(m);
    b.meters.push_back(m);
  }
  if (o.stale) for (auto &m : b.meters) if (chance(1, 2)) make_stale(b, m);
}
void make_stale(Bus &, Meter &m) {
  fault(F_STALE_STATE);
  m.cursor = choose((uint32_t)m.telegrams.size());
  m.l0.valid = true;
  m.l0.fcb = chance(1, 2);
  int i = (int)((m.cursor + m.telegrams.size() - 1) % m.telegrams.size());
  m.l0.last = m.telegram(i);
  m.l0.last_idx = i;
  if (chance(1, 3)) { m.selected = true; m.lfd = m.l0; m.lfd.fcb = chance(1, 2); }
}
const std::vector<ReplyFault> ALL_FAULTS = {RF_DROP_REQ, RF_DROP_REP, RF_CORRUPT_REP, RF_TRUNC_REP, RF_CORRUPT_REQ, RF_DUP_REP, RF_LATE_REP,
                                            RF_NOISE_PRE, RF_NOISE_POST, RF_STRAY_ACK};
void gen_faults(Bus &b, const std::vector<ReplyFault> &kinds) {
  int mode = (int)choose(4);
  b.rate = mode == 0 ? 0 : mode == 1 ? 8 : mode == 2 ? 20 : 40;
  b.kinds.clear();
  if (!b.rate) return;
  if (chance(1, 2)) b.kinds = kinds;
  else { b.kinds.push_back(pick(kinds)); if (chance(1, 2)) b.kinds.push_back(pick(kinds)); }
}
void break_transport(Port *p, ns_t at, int kind) {
  if (kind == 2) { p->read_errs.push_back({at, p->kind == P_TCP ? pick(std::vector<int>{EIO, ETIMEDOUT, EHOSTUNREACH, ENETDOWN, ENOBUFS, ENOMEM}) : pick(std::vector<int>{EIO, ENXIO, ENODEV})}); return; }
  if (p->kind == P_TTY) { p->hup_at = at; return; }
  if (kind == 0) { p->fin_at = at; p->half = chance(1, 3); } else p->rst_at = at;
}
