// C09: file descriptors are conserved
#include "drv.h"
#include <cerrno>
#include <netdb.h>

namespace {
struct H { mbus_handle *h; int port; bool tty; bool up; };
}
static void c09() {
  int nb = (int)range(1, 3);
  for (int i = 0; i < nb; i++) {
    Bus &b = chance(1, 2) ? g_world->add(P_TTY, 2400) : g_world->add(P_TCP, 2400);
    PopOpt o;
    o.max_meters = 1;
    gen_meters(b, o);
  }
  if (chance(1, 2)) mbus_tcp_set_timeout_set(0.3);
  g_fd_strict = true;
  // the surrounding program
  std::vector<int> foreign;
  bool no_stdin = chance(1, 3);
  if (no_stdin) { g_fd.erase(0); probe("descriptor 0 is free"); }
  auto program_opens = [&] {
    int fd = 0;
    while (g_fd.count(fd)) fd++;
    g_fd[fd] = {D_FOREIGN, nullptr, 0, nullptr, false};
    foreign.push_back(fd);
    ev("program opens %d", fd);
  };
  for (int i = (int)range(0, 2); i > 0; i--) program_opens();
  // failures of this run
  bool bad_open = chance(1, 2), bad_sock = chance(1, 3), bad_conn = chance(1, 2), bad_res = chance(1, 3), bad_tio = chance(1, 3);
  auto open0 = g_open_dev;
  g_open_dev = [=](const char *d) -> Port * {
    Port *p = open0 ? open0(d) : nullptr;
    if (bad_open && chance(1, 3)) { fault(F_OPEN_FAIL); return nullptr; }
    if (p && chance(1, 2)) p->hup_at = NEVER;
    return p;
  };
  auto res0 = g_resolve;
  g_resolve = [=](const char *h, const char *s, std::vector<TcpTarget> &v) -> int {
    if (bad_res && chance(1, 3)) return EAI_AGAIN;
    int r = res0(h, s, v);
    if (r) return r;
    for (auto &t : v) if (t.port) { t.port->fin_at = t.port->rst_at = NEVER; t.port->rst_seen = t.port->fin_reset = t.port->half = false; t.port->rx.clear(); }
    if (chance(1, 3)) v.insert(v.begin(), TcpTarget{true, nullptr});            // the first address does not answer
    if (bad_conn && chance(1, 2)) for (auto &t : v) if (chance(2, 3)) t.refuse = true;
    return 0;
  };
  g_socket_fail = [=]() -> int { return bad_sock && chance(1, 3) ? pick(std::vector<int>{EMFILE, EAFNOSUPPORT}) : 0; };
  g_termios_fail = [=]() -> bool { return bad_tio && chance(1, 4); };
  g_sockopt_fail = [=]() -> bool { return bad_tio && chance(1, 4); };
  std::vector<H> hs;
  auto fresh = [&](int port) {
    bool tty = g_world->ports[port]->kind == P_TTY;
    H x = {tty ? mbus_context_serial(chance(1, 12) ? "/dev/none" : strf("/dev/sim%d", port).c_str()) : mbus_context_tcp(strf("gw%d", port).c_str(), 4000), port, tty, false};
    REQUIRE(x.h, "open", "no context");
    mbus_context_set_option(x.h, MBUS_OPTION_MAX_DATA_RETRY, 0);
    mbus_context_set_option(x.h, MBUS_OPTION_MAX_SEARCH_RETRY, 0);
    hs.push_back(x);
  };
  for (int i = 0; i < nb; i++) fresh(i);
  auto census = [&](const char *after) {
    int want = 0;
    for (auto &x : hs) want += x.up;
    int got = seam_open_lib_fds();
    REQUIRE(got <= want, "leaked", "after %s the library holds %d descriptors for %d open connections", after, got, want);
    REQUIRE(got >= want, "lost", "after %s the library holds %d descriptors for %d open connections", after, got, want);
    for (int fd : foreign) REQUIRE(g_fd.count(fd) && g_fd[fd].kind == D_FOREIGN, "fd:foreign", "after %s descriptor %d of the program is gone", after, fd);
  };
  int n = (int)range(3, g_thorough ? 40 : 16);
  for (int i = 0; i < n; i++) {
    H &x = hs[choose((uint32_t)hs.size())];
    Port *p = g_world->ports[x.port].get();
    switch (choose(8)) {
      case 0: case 1: {                                  // connect, also when connected already
        bool again = x.up;
        int r = mbus_connect(x.h);
        if (again) probe("connect on a connected handle");
        if (r == 0) x.up = true;
        else if (again) {                                // an open connection may have been given up for it
          int others = 0;
          for (auto &y : hs) if (&y != &x) others += y.up;
          x.up = seam_open_lib_fds() > others;
        } else x.up = false;
        shape(0x1000 + again * 2 + (r == 0));
        census(r == 0 ? "a connect" : "a failed connect");
        break;
      }
      case 2: {
        int r = mbus_disconnect(x.h);
        if (x.up) REQUIRE(r == 0, "disconnect", "disconnecting an open connection answers %d", r);
        else probe("disconnect without connection");
        shape(0x1010 + x.up);
        x.up = false;
        census("a disconnect");
        break;
      }
      case 3: case 4: {                                  // use
        uint64_t io = 0;
        for (auto &q : g_world->ports) io += q->nreads + q->nwrites;
        mbus_frame fr;
        memset(&fr, 0, sizeof fr);
        mbus_address a;
        memset(&a, 0, sizeof a);
        a.is_primary = 1;
        a.primary = 1;
        char buf[32], mask[] = "1234567FFFFFFFFF";
        int k = (int)choose(9);
        if (x.up && k == 8) k = 0;
        int r = 0;
        bool ok = false;
        const char *name = "";
        switch (k) {
          case 0: name = "receive"; r = mbus_recv_frame(x.h, &fr); ok = r == MBUS_RECV_RESULT_OK || (!x.up && r != MBUS_RECV_RESULT_ERROR && r != MBUS_RECV_RESULT_RESET); break;
          case 1: name = "ping"; r = mbus_send_ping_frame(x.h, 1, 1); ok = r == 0; break;
          case 2: name = "request"; r = mbus_send_request_frame(x.h, 1); ok = r == 0; break;
          case 3: name = "readout"; r = mbus_sendrecv_request(x.h, 1, &fr, 0); free_chain(&fr); ok = r == 0; break;
          case 4: name = "select"; r = mbus_select_secondary_address(x.h, "12345678FFFFFFFF"); ok = r != MBUS_PROBE_ERROR; break;
          case 5: name = "probe"; r = mbus_probe_secondary_address(x.h, "12345678FFFFFFFF", buf); ok = r != MBUS_PROBE_ERROR; break;
          case 6: name = "read slave"; r = mbus_read_slave(x.h, &a, &fr); ok = r == 0; break;
          case 7:
            if (x.tty) { name = "set baud rate"; r = mbus_serial_set_baudrate(x.h, 2400); ok = r == 0; }
            else { name = "user data"; uint8_t d[2] = {1, 2}; r = mbus_send_user_data_frame(x.h, 1, d, 2); ok = r == 0; }
            break;
          default: name = "scan"; r = mbus_scan_2nd_address_range(x.h, 0, mask); ok = r == 0;
        }
        shape(0x1020 + k * 2 + x.up);
        if (!x.up) {
          uint64_t io2 = 0;
          for (auto &q : g_world->ports) io2 += q->nreads + q->nwrites;
          REQUIRE(io == io2, "fd:other", "a %s on a handle that is not connected uses another connection", name);
          REQUIRE(!ok, "succeeds", "a %s on a handle that is not connected answers %d", name, r);
          probe("operation without connection");
        }
        census(name);
        break;
      }
      case 5:                                            // the world fails or heals
        if (p->kind == P_TTY) p->hup_at = p->hup_at == NEVER ? g_now : NEVER;
        else if (chance(1, 2)) p->fin_at = g_now;
        else p->rst_at = g_now;
        fault(p->kind == P_TTY ? F_HANGUP : F_FIN);
        break;
      case 6:
        program_opens();
        break;
      case 7: {                                          // give the handle up and make a new one
        if (x.up) { mbus_disconnect(x.h); x.up = false; }
        mbus_context_free(x.h);
        int port = x.port;
        hs.erase(hs.begin() + (&x - hs.data()));
        census("freeing a context");
        fresh(port);
        break;
      }
    }
  }
  for (auto &x : hs) {
    if (x.up) mbus_disconnect(x.h);
    x.up = false;
    census("the last disconnect");
    mbus_context_free(x.h);
  }
}
PROPERTY("C09", c09, 300000, 4000000,
  "one run: 1 to 3 handles on serial and TCP ports, 3 to 16 (thorough: up to 40) connects (also repeated), disconnects, operations, broken transports, and descriptors opened by the surrounding program (descriptor 0 possibly free), with failing open, resolver, socket, connect and termios calls; after each the open descriptors are counted; non-trivial: a fault fired; distinct: different sequence of operations, outcomes and faults")
