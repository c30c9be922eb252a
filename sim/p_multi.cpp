// C17: several masters in one process
#include "drv.h"
#include <cerrno>
#include <climits>

extern "C" void sim_free(void *);

namespace {
struct Res { std::vector<std::string> out; Bytes tx; };
std::vector<char> unreachable;                            // per master; set by its own story

void pause_a_little() { block_until(g_now + (chance(1, 2) ? 0 : range(1, 400) * MS)); }
void reopen(Master &m, Res &r) {
  Port *p = m.p;
  p->hup_at = p->rst_at = p->fin_at = p->stall_at = NEVER;
  p->rst_seen = p->fin_reset = p->half = false;
  p->read_errs.clear();
  p->write_fault = nullptr;
  p->rx.clear();
  m.b->acc.clear();
  if (chance(1, 3)) {
    unreachable[m.n] = 1;
    r.out.push_back(strf("connect to nothing %d", mbus_connect(m.h)));
    unreachable[m.n] = 0;
    pause_a_little();
  }
  r.out.push_back(strf("connect %d", mbus_connect(m.h)));
  if (p->kind == P_TTY) r.out.push_back(strf("rate %d", mbus_serial_set_baudrate(m.h, p->line_baud)));
}
void readout_held(Master &m, Res &r) {                    // the result stays with the caller while others work
  mbus_frame f;
  memset(&f, 0, sizeof f);
  Meter &mt = m.b->meters[choose((uint32_t)m.b->meters.size())];
  int q = mbus_sendrecv_request(m.h, mt.addr, &f, (int)choose(4));
  pause_a_little();
  std::string s = strf("held readout %d", q);
  if (q == 0) for (auto x : chain(&f)) {
    s += " " + canon(x);
    pause_a_little();
    mbus_frame_data d;
    memset(&d, 0, sizeof d);
    if (mbus_frame_data_parse((mbus_frame *)x, &d) == 0) {
      pause_a_little();
      char *xml = d.type == MBUS_DATA_TYPE_VARIABLE ? mbus_frame_data_xml(&d) : nullptr;
      if (xml) {
        std::string t = xml;
        sim_free(xml);
        size_t a, e;
        while ((a = t.find("<Timestamp>")) != std::string::npos && (e = t.find("</Timestamp>", a)) != std::string::npos) t.erase(a, e + 12 - a);
        s += t;
      }
      if (d.data_var.record) mbus_data_record_free(d.data_var.record);
    }
  }
  r.out.push_back(s);
  free_chain(&f);
}
void body(int i, Stream &st, Res &r) {
  Stream *keep = stream_use(&st);
  Bus &b = *g_world->buses[i];
  Port *p = b.port;
  b.tcp_max_gap = 400 * MS;
  PopOpt po;
  po.rich = true;
  gen_meters(b, po);
  if (chance(1, 4) && b.meters.size() > 1) { b.meters[0].id = b.meters[1].id; }
  pause_a_little();
  Master m = open_master((size_t)i);
  pause_a_little();
  gen_limited_faults(b, ALL_FAULTS, 25);
  b.segments = chance(1, 3);
  b.gaps = chance(1, 3);
  if (p->kind == P_TTY && chance(1, 2)) b.tty_max_gap = (p->line_baud <= 300 ? 3000 : p->line_baud <= 600 ? 1900 : p->line_baud <= 1200 ? 1200 : p->line_baud <= 4800 ? 750 : 500) * MS;
  b.echo = chance(1, 8);
  ops_watch(m, &r.out);
  int n = (int)range(1, 5);
  bool broken = false;
  for (int k = 0; k < n; k++) {
    switch (choose(8)) {
      case 1: r.out.push_back(strf("option %d", mbus_context_set_option(m.h, MBUS_OPTION_MAX_DATA_RETRY, (long)choose(12)))); break;
      case 2: r.out.push_back(strf("option %d", mbus_context_set_option(m.h, MBUS_OPTION_MAX_SEARCH_RETRY, (long)choose(12)))); break;
      case 3: r.out.push_back(strf("option %d", mbus_context_set_option(m.h, MBUS_OPTION_PURGE_FIRST_FRAME, (long)choose(4)))); break;
      case 4: {
        r.out.push_back(strf("disconnect %d", mbus_disconnect(m.h)));
        broken = false;
        pause_a_little();
        if (chance(1, 3)) random_op(m, r.out);            // on a closed handle
        reopen(m, r);
        break;
      }
      case 5: {
        if (broken) break;
        broken = true;
        int kind = (int)choose(5);
        if (kind < 3) break_transport(p, g_now + (chance(1, 2) ? 0 : range(1, 300) * MS), kind);
        else if (kind == 3) p->write_fault = [](size_t) -> ssize_t { return -EIO; };
        else p->write_fault = [](size_t z) -> ssize_t { return (ssize_t)z / 2; };
        break;
      }
      case 6: pause_a_little(); break;
    }
    if (chance(1, 3)) readout_held(m, r); else random_op(m, r.out);
    r.out.push_back(strf("purge %d", mbus_purge_frames(m.h)));
    if (chance(1, 3)) pause_a_little();
  }
  ops_watch(m, nullptr);
  close_master(m);
  for (auto &t : p->tx) r.tx.insert(r.tx.end(), t.b.begin(), t.b.end());
  stream_use(keep);
}
struct Plan { PortKind k; long baud; uint32_t seed; };
void build(const std::vector<Plan> &v, double timeout) {
  for (auto &x : v) g_world->add(x.k, x.baud);
  unreachable.assign(v.size(), 0);
  auto od = g_open_dev;
  auto re = g_resolve;
  g_open_dev = [od](const char *d) -> Port * { Port *p = od(d); for (size_t i = 0; i < unreachable.size(); i++) if (p == g_world->ports[i].get() && unreachable[i]) { fault(F_OPEN_FAIL); return nullptr; } return p; };
  g_resolve = [re](const char *h, const char *s, std::vector<TcpTarget> &t) -> int {
    int r = re(h, s, t);
    if (r == 0) for (size_t i = 0; i < unreachable.size(); i++) if (t[0].port == g_world->ports[i].get() && unreachable[i]) { fault(F_CONNECT_FAIL); t[0].refuse = true; }
    return r;
  };
  mbus_tcp_set_timeout_set(timeout);
}
}
static void c17() {
  int n = chance(1, 4) ? (int)range(3, 4) : 2;
  static const std::vector<long> fast = {2400, 9600, 38400, 4800, 19200};
  std::vector<Plan> v;
  for (int i = 0; i < n; i++) {
    Plan p;
    p.k = chance(1, 2) ? P_TCP : P_TTY;
    p.baud = p.k == P_TTY ? pick(fast) : 2400;
    p.seed = choose(1u << 30);
    v.push_back(p);
  }
  double timeout = chance(1, 2) ? 1.0 : 0.5;
  ns_t t0 = g_now;
  std::vector<Res> alone(n), both(n);
  for (int i = 0; i < n; i++) {
    world_reset();
    lib_statics_restore();
    g_now = t0;
    build(v, timeout);
    Stream st;
    stream_init(st, v[i].seed);
    run_fibers({[&] { body(i, st, alone[i]); }});
  }
  world_reset();
  lib_statics_restore();
  g_now = t0;
  build(v, timeout);
  std::vector<Stream> st(n);
  std::vector<std::function<void()>> bodies;
  for (int i = 0; i < n; i++) {
    stream_init(st[i], v[i].seed);
    bodies.push_back([&, i] { body(i, st[i], both[i]); });
  }
  // besides waiting for its line a master may lose the processor at any other call
  uint32_t rate = pick(std::vector<uint32_t>{0, 10, 50});
  Stream ys;
  stream_init(ys, rate ? 1 + choose(1u << 30) : 0);
  if (rate) g_seam_hook = [&ys, rate] {
    if (current_fiber() < 0) return;
    Stream *k = stream_use(&ys);
    bool y = chance(rate, 100);
    stream_use(k);
    if (y) block_until(g_now);
  };
  ev("together");
  run_fibers(bodies);
  g_seam_hook = nullptr;
  for (int i = 0; i < n; i++) {
    for (size_t k = 0; k < alone[i].out.size() || k < both[i].out.size(); k++) {
      std::string x = k < alone[i].out.size() ? alone[i].out[k] : "(nothing)", y = k < both[i].out.size() ? both[i].out[k] : "(nothing)";
      REQUIRE(x == y, "disturbed", "master %d of %d, step %zu alone: %s; with the others: %s", i, n, k, x.c_str(), y.c_str());
    }
    REQUIRE(alone[i].tx == both[i].tx, "disturbed-requests", "master %d of %d puts other requests on its line than alone", i, n);
    shape(0x1700 + (uint32_t)alone[i].out.size());
  }
  REQUIRE(seam_open_lib_fds() == 0, "descriptors", "descriptors are left open after all masters closed");
}
PROPERTY("C17", c17, 12000, 400000,
  "one run: 2 to 4 masters on serial and TCP lines, each with its own meters, faults, failing or closing transport, option changes and reconnects; each story is executed alone and then all together under a seeded scheduler that switches whenever one waits, and at a third of the calls besides; results, scan events and transmitted bytes are compared; non-trivial: a fault fired or a switch happened; distinct: different sequence of frames, reads, faults, switches and verdicts")
