// C07 C08: secondary addresses
#include "drv.h"
#include <cctype>
#include <cerrno>
#include <climits>

extern "C" int tool_mbus_serial_scan_secondary(int, char **);
extern "C" int tool_mbus_tcp_scan_secondary(int, char **);

static std::vector<std::string> found;
static std::vector<std::string> found_masks;
static void on_found(mbus_handle *, mbus_frame *f) {
  Bytes b = frame_bytes(f);
  if (b.size() < 15) { found.push_back("?"); return; }
  const uint8_t *d = b.data() + 7;
  found.push_back(strf("%02X%02X%02X%02X%02X%02X%02X%02X", d[3], d[2], d[1], d[0], d[4], d[5], d[6], d[7]));
}
static void on_progress(mbus_handle *, const char *mask) {
  found_masks.push_back(mask);
  shape(0x800 + (uint32_t)strcspn(mask, "Ff"));
}
// a population whose identification numbers crowd together or not
static void gen_population(Bus &b, int maxn, bool twins) {
  int n = (int)range(1, maxn);
  std::set<uint32_t> ids;
  std::set<int> addrs;
  uint32_t base = (uint32_t)choose(100000) * 1000 + choose(1000);
  int spread = (int)choose(4);
  for (int i = 0; i < n; i++) {
    uint32_t v;
    switch (spread) {
      case 0: v = base + i; break;                                          // neighbours
      case 1: v = (base + (uint32_t)range(0, 99)) % 100000000; break;       // last digits
      case 2: v = (base % 10000000 + 10000000 * choose(10)) % 100000000; break; // first digit
      default: { static const uint32_t p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000}; v = (base + p10[choose(8)] * choose(10)) % 100000000; }
    }
    uint32_t id = dec_id(v);
    bool twin = ids.count(id);
    if (twin && !twins) continue;
    ids.insert(id);
    int a = (int)range(0, 250);
    while (addrs.count(a)) a = (a + 1) % 251;
    if (!chance(1, 6)) addrs.insert(a);                                     // several meters may share a primary address
    Meter m = simple_meter(i + 1, (uint8_t)a, id, (int)range(1, 3), 2);
    m.ver = (uint8_t)choose(256);
    m.med = (uint8_t)pick(Bytes{4, 2, 3, 6, 7, 0x0E, 0xF0, 0x99});
    if (m.ver == 0xFF) m.ver = 0x10;
    if (chance(1, 3)) { m.man[0] = (uint8_t)choose(255); m.man[1] = (uint8_t)choose(127); }
    if (twin) { m.man[0] = (uint8_t)(i + 1); m.ver = (uint8_t)(i + 1); probe("two meters share an identification number"); }
    m.access = (uint8_t)choose(256);
    b.meters.push_back(m);
  }
  for (auto &m : b.meters) if (chance(1, 3)) make_stale(b, m);
}
static std::string gen_mask(Bus &b) {
  // identification number partly or wholly wildcard
  const Meter &m = b.meters[choose((uint32_t)b.meters.size())];
  std::string s = m.address();
  int mode = (int)choose(5);                               // 4: all of it known
  if (mode == 0) for (int i = 0; i < 8; i++) s[i] = 'F';
  if (mode == 1) { int k = (int)range(1, 7); for (int i = k; i < 8; i++) s[i] = 'F'; }           // prefix known
  if (mode == 2) { int k = (int)range(1, 7); for (int i = 0; i < k; i++) s[i] = 'F'; }           // suffix known
  if (mode == 3) { bool any = false; for (int i = 0; i < 8; i++) if (chance(1, 2)) { s[i] = 'F'; any = true; } if (!any) s[7] = 'F'; }
  int rest = (int)choose(4);
  if (rest == 0) for (int i = 8; i < 16; i++) s[i] = 'F';
  if (rest == 1) { s[8] = s[9] = s[10] = s[11] = 'F'; }
  if (rest == 2) { s[12] = s[13] = s[14] = s[15] = 'F'; }
  if (chance(1, 5)) for (auto &c : s) c = (char)tolower(c);
  if (chance(1, 12)) s[choose(8)] = (char)('0' + choose(10));
  if (chance(1, 10)) {                                     // or a complete address
    std::string c = m.address();
    if (chance(1, 4)) c[choose(8)] = (char)('0' + choose(10));
    if (chance(1, 6)) c[15] = pick(std::vector<char>{'0', '1', '5', '9', 'A', 'E'});
    if (chance(1, 3)) for (auto &x : c) x = (char)tolower(x);
    if (c.find_first_of("fF") == std::string::npos) return c;
  }
  bool wild = false;
  for (int i = 0; i < 8; i++) if (toupper(s[i]) == 'F') wild = true;
  if (!wild && s.substr(8).find_first_of("fF") == std::string::npos) s[7] = 'F';
  return s;
}

static void c07() {
  found.clear();
  found_masks.clear();
  Bus &b = chance(1, 2) ? g_world->add(P_TCP, 2400) : g_world->add(P_TTY, pick(std::vector<long>{2400, 9600, 38400}));
  Port *p = b.port;
  bool tool = chance(1, 4), tcp = p->kind == P_TCP;
  if (tcp && !tool) { mbus_tcp_set_timeout_set(1.0); b.tcp_max_gap = 900 * MS; }
  Master m;
  if (!tool) m = open_master(0);
  int ms = 1;
  if (!tool && chance(2, 3)) { ms = (int)choose(4); mbus_context_set_option(m.h, MBUS_OPTION_MAX_SEARCH_RETRY, ms); }
  gen_population(b, chance(1, g_thorough ? 20 : 60) ? 30 : 6, true);
  std::string mask = gen_mask(b);
  b.echo = chance(1, 5);
  b.segments = chance(1, 3);
  bool cb = !tool && chance(3, 4);
  if (cb) mbus_register_found_event(m.h, on_found);
  if (!tool) mbus_register_scan_progress(m.h, on_progress);
  bool lossy = chance(1, 2);
  bool broken = chance(1, 6);
  std::map<Bytes, int> lost;
  ns_t broke_at = NEVER;
  int frames = 0, break_at = broken ? (int)range(0, 120) : -1, kind = broken ? (int)choose(4) : 0;
  b.plan = [&](const Bytes &f) -> ReplyFault {
    if (!lossy || f.size() < 17 || f[6] != 0x52) return RF_NONE;
    if (lost[f] >= ms || !chance(1, 3)) return RF_NONE;
    lost[f]++;
    return chance(1, 2) ? RF_DROP_REQ : RF_DROP_REP;
  };
  size_t errs = 0;                                       // read errors in store
  bool disturbed = !tool && !broken && chance(1, 5);     // only what must never be reported is then checked
  if (disturbed) {
    gen_limited_faults(b, ALL_FAULTS, (int)range(1, 20));
    if (chance(1, 3)) for (auto &x : b.meters) if (chance(1, 2)) x.app_error_rate = 30;
    if (chance(1, 3)) b.meter_drop_rate = 10;
  }
  if (broken && kind < 3)
    b.on_frame = [&](const Bytes &) {
      if (frames++ == break_at && broke_at == NEVER) {
        broke_at = g_now;
        // a single read error strikes the receive that follows at once; one that comes later may strike the purge of
        // a collision, which need not report it, so it lasts
        bool later = chance(1, 2);
        break_transport(p, g_now + (later ? b.window() / 3 : 0), kind);
        if (later && kind == 2) for (int i = 0; i < 200; i++) break_transport(p, g_now + b.window() / 3, kind);
        errs = p->read_errs.size();
      }
    };
  if (broken && kind == 3)
    p->write_fault = [&](size_t n) -> ssize_t {
      if (frames++ < break_at) return SSIZE_MAX;
      broke_at = g_now;
      return chance(1, 2) ? -EIO : (ssize_t)range(0, (int64_t)n - 1);
    };
  std::string arg = mask;
  int r;
  if (!tool && chance(1, 15)) {                            // a scan that cannot start
    std::string x = mask;
    int k = (int)choose(5);
    if (k == 0) x = x.substr(0, choose(16));
    if (k == 1) x += pick(std::vector<char>{'0', 'F', ' '});
    if (k == 2) x[choose(16)] = pick(std::vector<char>{'G', ' ', '-', 'x', '/', ':', '@', '`', 'g'});
    const std::string x0 = x;
    r = mbus_scan_2nd_address_range(k == 3 ? nullptr : m.h, 0, k == 4 ? nullptr : (char *)x.c_str());
    REQUIRE(r == -1, "verdict", "the scan over '%s' of %s answers %d", k == 4 ? "(null)" : x.c_str(), k == 3 ? "no handle" : "a handle", r);
    REQUIRE(found.empty() && g_out.find("Found a device") == std::string::npos, "phantom", "a scan that cannot start reports a device");
    REQUIRE(p->tx.empty(), "frames", "the scan over '%s' transmits", x.c_str());
    REQUIRE(x == x0, "mask-changed", "the scan changes the caller's mask");
    probe("scan with invalid arguments");
    close_master(m);
    return;
  }
  if (tool) {
    std::vector<std::string> args = {tcp ? "mbus-tcp-scan-secondary" : "mbus-serial-scan-secondary"};
    bool debug = !tcp && chance(1, 6);
    if (debug) args.push_back("-d");
    if (!tcp && (p->line_baud != 9600 || debug)) { args.push_back("-b"); args.push_back(std::to_string(p->line_baud)); }
    if (tcp) { args.push_back("gw0"); args.push_back("10001"); } else args.push_back("/dev/sim0");
    if (mask != "FFFFFFFFFFFFFFFF" || chance(1, 2)) args.push_back(mask);
    if (chance(1, 10)) {                                   // a scan that cannot start
      std::string why;
      size_t dev = 0;
      while (dev < args.size() && args[dev] != "gw0" && args[dev] != "/dev/sim0") dev++;
      int bad = (int)choose(5);
      if (bad == 0) {
        std::string x = mask;
        int k = (int)choose(3);
        if (k == 0) x = x.substr(0, choose(16));
        if (k == 1) x += pick(std::vector<char>{'0', 'F', ' '});
        if (k == 2) x[choose(16)] = pick(std::vector<char>{'G', ' ', '-', 'x', '/', ':', '@', '`', 'g'});
        args.resize(dev + (tcp ? 2 : 1));
        args.push_back(x);
        why = "an invalid mask " + x;
      } else if (bad == 1) { args[dev] = tcp ? "nohost" : "/dev/none"; why = "an unknown device or host"; }
      else if (bad == 2 && tcp) { g_socket_fail = [] { return EMFILE; }; why = "no socket"; }
      else if (bad == 2) { int k = (int)choose(2), n = 0; g_termios_fail = [k, n]() mutable { return n++ >= k; }; why = "a line that cannot be set up"; }
      else if (bad == 3 && tcp) { g_resolve = [p](const char *, const char *, std::vector<TcpTarget> &v) { v.push_back({true, p}); return 0; }; why = "a refused connection"; }
      else if (bad == 3) { p->hup_at = 0; why = "a device that is gone"; }
      else if (tcp) { args[dev + 1] = pick(std::vector<std::string>{"65536", "-1", "700000"}); why = "a port out of range"; }
      else { args = {args[0], "-b", pick(std::vector<std::string>{"9601", "0", "115", "-2400"}), "/dev/sim0", mask}; why = "an unsupported rate"; }
      r = run_main(tcp ? tool_mbus_tcp_scan_secondary : tool_mbus_serial_scan_secondary, args);
      REQUIRE(r != 0, "exit", "the scan tool succeeds with %s", why.c_str());
      REQUIRE(g_out.find("Found a device") == std::string::npos, "phantom", "the scan tool reports a device with %s", why.c_str());
      if (bad != 2 && bad != 3) REQUIRE(p->tx.empty(), "frames", "the scan tool transmits with %s", why.c_str());
      probe("scan tool refuses to scan");
      return;
    }
    r = run_main(tcp ? tool_mbus_tcp_scan_secondary : tool_mbus_serial_scan_secondary, args);
    probe("scan tool");
  } else r = mbus_scan_2nd_address_range(m.h, 0, (char *)arg.c_str());
  REQUIRE(arg == mask, "mask-changed", "the scan changes the caller's mask");
  if (!cb) {                                            // the default report goes to standard output
    size_t at = 0;
    const std::string key = "Found a device on secondary address ";
    while ((at = g_out.find(key, at)) != std::string::npos) { found.push_back(g_out.substr(at + key.size(), 16)); at += key.size(); }
  }
  std::map<std::string, int> n;
  for (auto &a : found) n[a]++;
  std::map<uint32_t, int> idn;
  for (auto &x : b.meters) idn[x.id]++;
  shape(0x880 + (r ? 1 : 0));
  for (auto &a : n) {
    const Meter *who = nullptr;
    for (auto &x : b.meters) if (x.address() == a.first) who = &x;
    REQUIRE(who, "phantom", "the scan over %s reports %s, which no meter has", mask.c_str(), a.first.c_str());
    if (idn[who->id] == 1) REQUIRE(a.second == 1, "repeated", "the scan over %s reports %s %d times", mask.c_str(), a.first.c_str(), a.second);
    uint8_t m8[8];
    REQUIRE(mask_bytes(mask, m8) && who->matches(m8), "outside-mask", "the scan over %s reports %s", mask.c_str(), a.first.c_str());
  }
  if (disturbed) {
    if (r) fail("scan-fails", "the scan over %s fails (%d) on a working transport", mask.c_str(), r);
    probe("scan of a disturbed bus");
    close_master(m);
    return;
  }
  bool was_broken = broke_at != NEVER;
  if (was_broken) {
    probe("transport failed during a scan");
    bool last = p->kind == P_TTY && kind < 2 && !p->tx.empty() && broke_at >= p->tx.back().start; // a hang-up during the very last answer looks like silence
    if (r == 0 && !last && !(kind == 2 && p->read_errs.size() == errs)) {
      // success is only right when nothing was left to ask: the list is complete
      uint8_t m8[8];
      REQUIRE(mask_bytes(mask, m8), "harness", "bad mask %s", mask.c_str());
      for (auto &x : b.meters)
        if (idn[x.id] == 1 && x.matches(m8))
          REQUIRE(n.count(x.address()), "short-list", "the scan over %s reports success without %s although the transport failed", mask.c_str(), x.address().c_str());
    }
  }
  if (r == 0 && !was_broken) {
    uint8_t m8[8];
    REQUIRE(mask_bytes(mask, m8), "harness", "bad mask %s", mask.c_str());
    for (auto &x : b.meters)
      if (idn[x.id] == 1 && x.matches(m8))
        REQUIRE(n.count(x.address()), "missed", "the scan over %s misses %s (%zu meters on the bus, %d retries)", mask.c_str(), x.address().c_str(), b.meters.size(), ms);
    if (found.size() > 1) probe("several meters found");
    if (fault_count(F_COLL_MERGE)) probe("scan met merged acknowledges");
  } else if (!was_broken) fail("scan-fails", "the scan over %s fails (%d) on a working transport", mask.c_str(), r);
  p->write_fault = nullptr;
  if (!tool) close_master(m);
}
PROPERTY("C07", c07, 120000, 1200000,
  "one run: 1 to 6 meters (thorough: up to 30) with decimal identification numbers that crowd together or spread, some shared, any mask with wildcards in the number, collisions merged, garbled or in sequence, selections lost within the retry setting, the transport failing at a chosen frame, or a disturbed bus (loss, damage, duplicates, late answers, noise, application errors) on which only the addresses reported are checked; non-trivial: a fault fired; distinct: different sequence of probed positions, collisions, faults and verdicts")

// ------------------------------------------------------------------ C08
static void c08() {
  found.clear();
  Bus &b = gen_bus(false);
  Port *p = b.port;
  if (p->kind == P_TCP && chance(1, 2)) { mbus_tcp_set_timeout_set(1.0); b.tcp_max_gap = 900 * MS; }
  Master m = open_master(0);
  if (chance(1, 2)) mbus_context_set_option(m.h, MBUS_OPTION_MAX_SEARCH_RETRY, (long)choose(10));
  bool cb = chance(1, 2);
  if (cb) mbus_register_found_event(m.h, on_found);
  gen_population(b, 5, true);
  b.echo = chance(1, 5);
  b.segments = chance(1, 3);
  b.collision_kind = (int)choose(3);
  bool disturbed = chance(1, 4);                         // only what must never be answered is then checked
  if (disturbed) {
    gen_faults(b, ALL_FAULTS);
    if (chance(1, 2)) for (auto &x : b.meters) if (chance(1, 2)) x.app_error_rate = pick(std::vector<int>{30, 100});
    if (chance(1, 3)) b.meter_drop_rate = 15;
  }
  int rounds = (int)range(1, 4);
  for (int i = 0; i < rounds; i++) {
    const Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
    std::string mask = mt.address();
    switch (choose(5)) {
      case 1: for (int k = (int)choose(8); k < 8; k++) mask[k] = 'F'; break;
      case 2: for (auto &c : mask) if (chance(1, 4)) c = 'F'; break;
      case 3: mask = "FFFFFFFFFFFFFFFF"; break;
      case 4: mask[choose(8)] = (char)('0' + choose(10)); break;
    }
    // manufacturer, version and medium are matched as wholes
    if (mask[8] == 'F' || mask[9] == 'F' || mask[10] == 'F' || mask[11] == 'F') if (mask.substr(8, 4) != mt.address().substr(8, 4)) for (int k = 8; k < 12; k++) mask[k] = 'F';
    for (int k = 12; k < 16; k += 2) if (mask[k] == 'F' || mask[k + 1] == 'F') if (mask.substr(k, 2) != mt.address().substr(k, 2)) mask[k] = mask[k + 1] = 'F';
    if (chance(1, 5)) for (auto &c : mask) c = (char)tolower(c);
    int what = (int)choose(disturbed ? 3 : 4);           // 0 select 1 probe 2 read 3 bad mask / broken transport
    std::vector<Meter *> hit;
    uint8_t m8[8];
    REQUIRE(mask_bytes(mask, m8), "harness", "mask %s", mask.c_str());
    for (auto &x : b.meters) if (x.matches(m8)) hit.push_back(&x);
    size_t nhit = hit.size();
    const char *names[] = {"nothing", "single", "collision"};
    char out[64];
    memset(out, 'x', sizeof out);
    out[63] = 0;
    shape(0xA00 + what * 8 + (nhit > 2 ? 2 : (uint32_t)nhit));
    if (what == 3) {
      int bad = (int)choose(4);
      if (bad == 3) {                                    // nothing to work with
        mbus_address none;
        memset(&none, 0, sizeof none);
        mbus_frame fr;
        memset(&fr, 0, sizeof fr);
        size_t tx0 = p->tx.size();
        int which = (int)choose(5), r;
        switch (which) {
          case 0: r = mbus_probe_secondary_address(m.h, mask.c_str(), nullptr); break;
          case 1: r = mbus_read_slave(nullptr, &none, &fr); break;
          case 2: r = mbus_read_slave(m.h, nullptr, &fr); break;
          case 3: r = mbus_read_slave(m.h, &none, &fr); break;
          default: none.is_primary = 1; none.primary = pick(std::vector<int>{-1, 256, 1000, -254}); r = mbus_read_slave(m.h, &none, &fr);
        }
        REQUIRE(r == -1, "verdict", "%s answers %d", which ? which == 4 ? "reading an address that is none" : "reading nothing" : "probing without room for the address", r);
        REQUIRE(p->tx.size() == tx0, "transmitted", "a call with invalid arguments transmits");
        continue;
      }
      if (bad == 0) {                                    // invalid mask
        std::string x = mask;
        int k = (int)choose(4);
        if (k == 0) x = x.substr(0, choose(16));
        if (k == 1) x += "0";
        if (k == 2) x[choose(16)] = pick(std::vector<char>{'G', ' ', '-', 'x', '/', ':', '@', '`', 'g'});
        const char *arg = k == 3 ? nullptr : x.c_str();
        size_t tx0 = p->tx.size();
        int which = (int)choose(2);
        int r = which ? mbus_probe_secondary_address(m.h, arg, out) : mbus_select_secondary_address(m.h, arg);
        REQUIRE(r == MBUS_PROBE_ERROR, "verdict", "%s an invalid mask '%s' answers %d", which ? "probing" : "selecting", arg ? arg : "(null)", r);
        REQUIRE(p->tx.size() == tx0, "transmitted", "an invalid mask is transmitted");
      } else {                                           // broken transport
        int kind = (int)choose(4), when = (int)choose(2);
        int seen = 0;
        ns_t broke = NEVER;
        if (kind == 3) p->write_fault = [&](size_t n) -> ssize_t { if (seen++ < when) return SSIZE_MAX; broke = g_now; return chance(1, 2) ? -EIO : (ssize_t)range(0, (int64_t)n - 1); };
        else b.on_frame = [&](const Bytes &) { if (seen++ == when) { broke = g_now; break_transport(p, g_now, kind); } };
        int which = (int)choose(2);
        int r = which ? mbus_probe_secondary_address(m.h, mask.c_str(), out) : mbus_select_secondary_address(m.h, mask.c_str());
        b.on_frame = nullptr;
        p->write_fault = nullptr;
        if (broke != NEVER) {
          probe("transport failed during a selection");
          bool quiet_hup = p->kind == P_TTY && kind < 2;  // a hang-up looks like silence to the receive it interrupts
          if (!(kind == 2 && !p->read_errs.empty()))
            REQUIRE(r == MBUS_PROBE_ERROR || (quiet_hup && r == MBUS_PROBE_NOTHING) || (quiet_hup && when == 1 && r == MBUS_PROBE_NOTHING), "verdict",
                    "%s over a failing transport answers %d", which ? "probing" : "selecting", r);
          break;
        }
      }
      continue;
    }
    if (disturbed && what == 1) {
      found.clear();
      int r = mbus_probe_secondary_address(m.h, mask.c_str(), out);
      REQUIRE(r == MBUS_PROBE_NOTHING || r == MBUS_PROBE_SINGLE || r == MBUS_PROBE_COLLISION, "verdict", "probing %s over a working transport answers %d", mask.c_str(), r);
      if (r == MBUS_PROBE_SINGLE) {
        bool ok = false;
        for (auto x : hit) if (memchr(out, 0, 17) && x->address() == out) ok = true;
        REQUIRE(ok, "address", "probing %s on a disturbed bus answers %.16s, no matching meter has that address", mask.c_str(), out);
        if (cb) REQUIRE(found.size() == 1 && found[0] == out, "callback", "the found callback is called %zu times", found.size());
        probe("single on a disturbed bus");
      } else REQUIRE(found.empty(), "callback", "the found callback is called without a single meter");
    } else if (disturbed && what == 0) {
      int r = mbus_select_secondary_address(m.h, mask.c_str());
      REQUIRE(r == MBUS_PROBE_NOTHING || r == MBUS_PROBE_SINGLE || r == MBUS_PROBE_COLLISION, "verdict", "selecting %s over a working transport answers %d", mask.c_str(), r);
    } else if (what == 0) {
      int r = mbus_select_secondary_address(m.h, mask.c_str());
      bool merged = nhit > 1 && b.collision_kind == 0;   // one acknowledge as seen from the master
      int want = nhit == 0 ? MBUS_PROBE_NOTHING : nhit == 1 || merged ? MBUS_PROBE_SINGLE : MBUS_PROBE_COLLISION;
      REQUIRE(r == want, "verdict", "selecting %s with %zu matching meters answers %d (%s)", mask.c_str(), nhit, r, r >= 0 && r < 3 ? names[r] : "error");
      if (r == MBUS_PROBE_SINGLE && nhit == 1)
        for (auto &x : b.meters) REQUIRE(x.selected == (&x == hit[0]), "selection", "after selecting %s meter %s is %sselected", mask.c_str(), x.address().c_str(), x.selected ? "" : "not ");
    } else if (what == 1) {
      found.clear();
      int r = mbus_probe_secondary_address(m.h, mask.c_str(), out);
      int want = nhit == 0 ? MBUS_PROBE_NOTHING : nhit == 1 ? MBUS_PROBE_SINGLE : MBUS_PROBE_COLLISION;
      REQUIRE(r == want, "verdict", "probing %s with %zu matching meters answers %d (%s)", mask.c_str(), nhit, r, r >= 0 && r < 3 ? names[r] : "error");
      if (r == MBUS_PROBE_SINGLE) {
        REQUIRE(memchr(out, 0, 17) && hit[0]->address() == out, "address", "probing %s answers %.16s, the meter is %s", mask.c_str(), out, hit[0]->address().c_str());
        for (auto &x : b.meters) REQUIRE(x.selected == (&x == hit[0]), "selection", "after probing %s meter %s is %sselected", mask.c_str(), x.address().c_str(), x.selected ? "" : "not ");
        if (cb) REQUIRE(found.size() == 1 && found[0] == hit[0]->address(), "callback", "the found callback is called %zu times", found.size());
      } else REQUIRE(found.empty(), "callback", "the found callback is called without a single meter");
    } else {
      mbus_address a;
      memset(&a, 0, sizeof a);
      a.secondary = (char *)mask.c_str();
      bool primary = chance(1, 3);
      if (primary) {                                     // by primary address: of a meter, of several, of none, of the selected one, of all
        a.secondary = nullptr;
        a.is_primary = 1;
        a.primary = chance(1, 4) ? pick(std::vector<int>{253, 254, (int)choose(251)}) : (int)mt.addr;
        hit.clear();
        for (auto &x : b.meters) if (a.primary == 254 || (a.primary == 253 ? x.selected : x.addr == a.primary)) hit.push_back(&x);
        nhit = hit.size();
        probe(nhit ? "read by primary address" : "read of a primary address nobody has");
        mask = std::to_string(a.primary);
      }
      mbus_frame fr;
      memset(&fr, 0, sizeof fr);
      size_t s0 = b.sent.size();
      int r = mbus_read_slave(m.h, &a, &fr);
      if (r == 0) {
        REQUIRE(nhit == 1 || disturbed || (primary && nhit), "ambiguous", "reading %s with %zu matching meters succeeds", mask.c_str(), nhit);
        Bytes got = frame_bytes(&fr);
        bool ok = false;
        for (size_t k = primary && disturbed ? 0 : s0; k < b.sent.size(); k++) {
          if (primary && disturbed && b.sent[k].b == got) ok = true; // perhaps a late answer: the primary address is all that tells
          if (disturbed && b.sent[k].telegram == -2 && b.sent[k].b == got) ok = true; // an application error does not tell whose it is
          for (auto x : hit) if (b.sent[k].meter == x->idx && b.sent[k].b == got) ok = true;
        }
        REQUIRE(ok, "foreign", "reading %s returns data that meter did not send", mask.c_str());
      } else REQUIRE(disturbed || nhit != 1, "verdict", "reading the only meter matching %s fails", mask.c_str());
      mbus_purge_frames(m.h);
    }
  }
  close_master(m);
}
PROPERTY("C08", c08, 240000, 2000000,
  "one run: 1 to 5 meters, 1 to 4 selections, probes or reads with exact, wildcard, missing and invalid masks, collisions merged, garbled or in sequence, a transport failing at a chosen frame, or a disturbed bus (loss, damage, duplicates, late answers, noise, application errors) on which only addresses and data are checked; verdicts are compared with the number of matching meters; non-trivial: a fault fired; distinct: different sequence of frames, reads, collisions and verdicts")

// ------------------------------------------------------------------ C30
namespace {
struct ScanEv { char kind; std::string s; size_t sent; };
std::vector<ScanEv> g_evs;
mbus_handle *g_scan_h;
Bus *g_scan_b;
bool g_inner, g_in_inner;
struct ScanStory { int r = 0; std::vector<Bytes> tx; std::vector<std::string> addrs; std::string mask; size_t finds = 0; };
std::string mask_of(const Bytes &f) {                       // of a selection
  return strf("%02X%02X%02X%02X%02X%02X%02X%02X", f[10], f[9], f[8], f[7], f[11], f[12], f[13], f[14]);
}
std::string upper(std::string s) { for (auto &c : s) c = (char)toupper(c); return s; }
std::string addr_of(const Bytes &b) {
  if (b.size() < 15) return "?";
  const uint8_t *d = b.data() + 7;
  return strf("%02X%02X%02X%02X%02X%02X%02X%02X", d[3], d[2], d[1], d[0], d[4], d[5], d[6], d[7]);
}
void ev_progress(mbus_handle *h, const char *mask) {
  REQUIRE(h == g_scan_h, "handle", "the progress callback is called with another handle");
  g_evs.push_back({'P', std::string(mask, strnlen(mask, 40)), g_scan_b->sent.size()});
}
void ev_found(mbus_handle *h, mbus_frame *f) {
  REQUIRE(h == g_scan_h, "handle", "the found callback is called with another handle");
  Bytes b = frame_bytes(f);
  g_evs.push_back({'F', std::string(b.begin(), b.end()), g_scan_b->sent.size()});
  REQUIRE(f->next == nullptr, "frame", "the found callback gets a chain of frames");
  mbus_frame_data data;
  memset(&data, 0, sizeof data);
  int r = mbus_frame_data_parse(f, &data);                  // what a program does with it
  REQUIRE(r == 0, "frame", "the frame given to the found callback cannot be decoded");
  if (data.data_var.record) mbus_data_record_free(data.data_var.record);
  if (!g_inner) return;
  g_in_inner = true;
  mbus_frame reply;
  memset(&reply, 0, sizeof reply);
  mbus_sendrecv_request(h, MBUS_ADDRESS_NETWORK_LAYER, &reply, 16);
  free_chain(&reply);
  g_in_inner = false;
  probe("the found callback reads the meter");
}
}
static void c30_story(ScanStory &st, bool prog, bool fnd, bool inner) {
  g_evs.clear();
  Bus &b = chance(1, 2) ? g_world->add(P_TCP, 2400) : g_world->add(P_TTY, pick(std::vector<long>{2400, 9600, 38400}));
  Port *p = b.port;
  if (p->kind == P_TCP) { mbus_tcp_set_timeout_set(1.0); b.tcp_max_gap = 900 * MS; }
  Master m = open_master(0);
  g_scan_h = m.h;
  g_scan_b = &b;
  g_inner = inner;
  g_in_inner = false;
  int ms = 1;
  if (chance(1, 2)) { ms = (int)choose(4); mbus_context_set_option(m.h, MBUS_OPTION_MAX_SEARCH_RETRY, ms); }
  gen_population(b, 6, true);
  std::string mask = st.mask = gen_mask(b);
  b.echo = chance(1, 5);
  b.segments = chance(1, 3);
  int mode = (int)choose(4);                                // 0 lost selections, 1 nothing, 2 any fault, 3 broken transport
  std::map<Bytes, int> lost;
  if (mode == 0)
    b.plan = [&](const Bytes &f) -> ReplyFault {
      if (f.size() < 17 || f[6] != 0x52 || lost[f] >= ms || !chance(1, 3)) return RF_NONE;
      lost[f]++;
      return chance(1, 2) ? RF_DROP_REQ : RF_DROP_REP;
    };
  if (mode == 2) {
    gen_limited_faults(b, ALL_FAULTS, (int)range(1, 20));
    if (chance(1, 3)) b.meter_drop_rate = 10;
  }
  bool broke = false;
  int seen = 0, at = mode == 3 ? (int)range(0, 60) : -1, kind = mode == 3 ? (int)choose(4) : 0;
  if (mode == 3 && kind == 3) p->write_fault = [&](size_t n) -> ssize_t { if (seen++ < at) return SSIZE_MAX; broke = true; return -EIO; };
  b.on_frame = [&](const Bytes &f) {
    if (mode == 3 && kind < 3 && seen++ == at) { broke = true; break_transport(p, g_now, kind); }
    if (g_in_inner) return;
    if (f.size() == 17 && f[0] == 0x68 && f[6] == 0x52) g_evs.push_back({'S', mask_of(f), b.sent.size()});
    else g_evs.push_back({'R', hex(f), b.sent.size()});
  };
  if (prog) mbus_register_scan_progress(m.h, ev_progress);
  if (fnd) mbus_register_found_event(m.h, ev_found);
  std::string arg = mask;
  size_t o0 = g_out.size();
  st.r = mbus_scan_2nd_address_range(m.h, 0, (char *)arg.c_str());
  b.on_frame = nullptr;
  p->write_fault = nullptr;
  if (st.r == 0 && broke) probe("scan over a failing transport ends with success");
  // ---- the events in order
  std::string now;                                          // the mask announced or selected last
  int sels = 0, progs = 0, nf = 0;
  bool requested = false, found_one = false;
  size_t s_at = 0;
  for (size_t i = 0; i < g_evs.size(); i++) {
    const ScanEv &e = g_evs[i];
    switch (e.kind) {
      case 'P':
        REQUIRE(e.s.size() == 16, "mask", "the progress callback gets '%s'", e.s.c_str());
        REQUIRE(!progs || sels, "progress", "mask %s is announced but not selected (next is %s)", now.c_str(), e.s.c_str());
        for (size_t k = 0; k < 16; k++)
          REQUIRE(toupper(e.s[k]) == toupper(mask[k]) || toupper(mask[k]) == 'F', "mask", "a scan over %s announces %s", mask.c_str(), e.s.c_str());
        now = e.s;
        progs++;
        sels = 0;
        requested = found_one = false;
        break;
      case 'S':
        if (prog) {
          REQUIRE(progs, "progress", "mask %s is selected before any progress is shown", e.s.c_str());
          REQUIRE(upper(now) == e.s, "progress", "mask %s is selected, %s was announced", e.s.c_str(), now.c_str());
          REQUIRE(++sels <= ms + 1, "progress", "mask %s is selected %d times after one announcement (%d retries)", now.c_str(), sels, ms);
        }
        requested = found_one = false;
        s_at = e.sent;
        break;
      case 'R': requested = true; break;
      case 'F': {
        Bytes got(e.s.begin(), e.s.end());
        REQUIRE(requested, "found", "a device is reported found before it was asked for its data");
        REQUIRE(!found_one, "found", "the found callback is called twice for mask %s", now.c_str());
        found_one = true;
        bool ok = false;
        const Meter *who = nullptr;
        for (size_t k = mode == 2 ? 0 : s_at; k < e.sent; k++) if (b.sent[k].b == got) { ok = true; for (auto &x : b.meters) if (x.idx == b.sent[k].meter) who = &x; }
        REQUIRE(ok, "found", "the found callback gets %s, which no meter sent", hex(got).c_str());
        REQUIRE(who && who->address() == addr_of(got), "found", "the found callback gets a frame of another device");
        st.addrs.push_back(addr_of(got));
        nf++;
        break;
      }
    }
    shape(0x1800 + e.kind);
  }
  if (prog && progs && !sels && !broke) fail("progress", "mask %s is announced but not selected", now.c_str());
  std::string out = g_out.substr(o0);
  const std::string key = "Found a device on secondary address ", mid = " [using address mask ";
  std::vector<std::string> masks;
  for (size_t a = 0; a < out.size();) {
    size_t e = out.find('\n', a);
    REQUIRE(e != std::string::npos, "output", "the scan prints an unfinished line");
    std::string l = out.substr(a, e - a);
    a = e + 1;
    REQUIRE(!fnd, "output", "the scan prints '%s' although a found callback is registered", l.c_str());
    REQUIRE(l.compare(0, key.size(), key) == 0 && l.size() == key.size() + 16 + mid.size() + 17 && l.compare(key.size() + 16, mid.size(), mid) == 0 && l.back() == ']', "output", "the scan prints '%s'", l.c_str());
    st.addrs.push_back(l.substr(key.size(), 16));
    masks.push_back(l.substr(key.size() + 16 + mid.size(), 16));
    uint8_t m8[8], a8[8];
    REQUIRE(mask_bytes(masks.back(), m8) && mask_bytes(st.addrs.back(), a8), "output", "the scan prints '%s'", l.c_str());
    bool ok = false;
    for (auto &x : b.meters) if (x.address() == st.addrs.back() && x.matches(m8)) ok = true;
    REQUIRE(ok, "output", "the scan prints '%s', no such meter matches that mask", l.c_str());
  }
  if (!fnd) {                                               // the mask printed is one that was selected, in order
    size_t i = 0;
    for (auto &x : masks) {
      while (i < g_evs.size() && !(g_evs[i].kind == 'S' && g_evs[i].s == upper(x))) i++;
      REQUIRE(i < g_evs.size(), "output", "the scan names mask %s, which it did not select (then)", x.c_str());
    }
  }
  if (mode < 2) {                                           // only selections lost, within the retries
    REQUIRE(st.r == 0, "scan-fails", "the scan over %s fails (%d) on a working transport", mask.c_str(), st.r);
    uint8_t m8[8];
    REQUIRE(mask_bytes(mask, m8), "harness", "bad mask %s", mask.c_str());
    std::map<uint32_t, int> idn;
    for (auto &x : b.meters) idn[x.id]++;
    for (auto &x : b.meters)
      if (idn[x.id] == 1 && x.matches(m8))
        REQUIRE(std::count(st.addrs.begin(), st.addrs.end(), x.address()) == 1, "report", "the scan over %s reports %s %d times", mask.c_str(), x.address().c_str(), (int)std::count(st.addrs.begin(), st.addrs.end(), x.address()));
  }
  st.finds = st.addrs.size();
  for (auto &t : p->tx) st.tx.push_back(t.b);
  close_master(m);
}
static void c30() {
  bool inner = chance(1, 6);
  size_t m0 = twin_mark();
  ns_t t0 = g_now;
  int64_t wall = g_wall0;
  ScanStory a, b;
  bool prog = !chance(1, 4), fnd = inner || chance(2, 3);
  m0 = twin_mark();
  c30_story(a, prog, fnd, inner);
  size_t m1 = twin_mark();
  if (inner || !chance(1, 2)) return;
  world_reset();
  lib_statics_restore();
  g_now = t0;
  g_wall0 = wall;
  g_out.clear();
  g_err.clear();
  twin_replay(m0, m1);
  c30_story(b, !prog, !fnd, false);
  twin_done();
  REQUIRE(a.tx == b.tx, "callbacks-change", "the scan over %s transmits something else with other callbacks", a.mask.c_str());
  REQUIRE(a.r == b.r, "callbacks-change", "the scan over %s ends with %d, with other callbacks with %d", a.mask.c_str(), a.r, b.r);
  REQUIRE(a.addrs == b.addrs, "callbacks-change", "the scan over %s reports %zu devices, with other callbacks %zu", a.mask.c_str(), a.finds, b.finds);
  probe("compared with other callbacks");
}
PROPERTY("C30", c30, 60000, 800000,
  "one run: a scan as in C07 with any combination of progress and found callbacks (the found callback decodes the frame, or reads the meter), on a quiet, lossy, disturbed or failing line, and in half of the runs the same history again with the other callbacks; the order of announcements, selections, requests and finds is compared; non-trivial: a fault fired; distinct: different sequence of events, collisions and verdicts")
