// Random operations with their results as text, for stories that are compared with other executions of themselves.
#include "drv.h"

void gen_limited_faults(Bus &b, const std::vector<ReplyFault> &kinds, int budget) {
  gen_faults(b, kinds);
  b.plan = [&b, budget](const Bytes &) mutable { return budget-- > 0 && b.rate && chance(b.rate, 100) ? pick(b.kinds) : RF_NONE; };
}
static std::map<mbus_handle *, std::vector<std::string> *> watched;
static void on_found(mbus_handle *h, mbus_frame *f) { auto it = watched.find(h); if (it != watched.end()) it->second->push_back("found " + canon(f)); }
static void on_progress(mbus_handle *h, const char *m) { auto it = watched.find(h); if (it != watched.end()) it->second->push_back(std::string("mask ") + m); }
void ops_reset() { watched.clear(); }
void ops_watch(Master &m, std::vector<std::string> *out) {
  if (!out) { watched.erase(m.h); return; }
  watched[m.h] = out;
  mbus_register_found_event(m.h, on_found);
  mbus_register_scan_progress(m.h, on_progress);
}
void random_op(Master &m, std::vector<std::string> &out) {
  Bus &b = *m.b;
  Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
  std::string a = mt.address();
  if (chance(1, 2)) for (int k = (int)range(5, 8); k < 16; k++) a[k] = 'F';
  int addr = mt.addr, op = (int)choose(9);
  mbus_frame f;
  memset(&f, 0, sizeof f);
  shape(0x1240 + op);
  switch (op) {
    case 0: case 1: case 2: {
      if (chance(3, 4)) out.push_back(strf("ping %d", mbus_send_ping_frame(m.h, addr, 1)));
      int r = mbus_sendrecv_request(m.h, addr, &f, (int)choose(4));
      std::string s = strf("readout %d", r);
      if (r == 0) for (auto x : chain(&f)) s += " " + canon(x);
      out.push_back(s);
      break;
    }
    case 3: {
      int r = mbus_select_secondary_address(m.h, a.c_str());
      out.push_back(strf("select %d", r));
      if (r == MBUS_PROBE_SINGLE && chance(1, 2)) {
        r = mbus_sendrecv_request(m.h, 0xFD, &f, (int)choose(4));
        std::string s = strf("readout %d", r);
        if (r == 0) for (auto x : chain(&f)) s += " " + canon(x);
        out.push_back(s);
      }
      break;
    }
    case 4: {
      char buf[32] = "";
      int r = mbus_probe_secondary_address(m.h, a.c_str(), buf);
      out.push_back(strf("probe %d %s", r, r == MBUS_PROBE_SINGLE ? buf : ""));
      break;
    }
    case 5: {
      for (int k = (int)range(6, 7); k < 8; k++) a[k] = 'F';
      int r = mbus_scan_2nd_address_range(m.h, 0, (char *)a.c_str());
      out.push_back(strf("scan %d", r));
      break;
    }
    case 6: {
      mbus_address ad;
      memset(&ad, 0, sizeof ad);
      if (chance(1, 2)) { ad.is_primary = 1; ad.primary = addr; } else ad.secondary = (char *)a.c_str();
      int r = mbus_read_slave(m.h, &ad, &f);
      out.push_back(strf("read %d %s", r, r == 0 ? canon(&f).c_str() : ""));
      break;
    }
    case 7: {                                             // as the primary scan does it
      int r = mbus_send_ping_frame(m.h, addr, 0);
      int q = mbus_recv_frame(m.h, &f);
      out.push_back(strf("ping %d answer %s %s", r, res_name(q), q == MBUS_RECV_RESULT_OK ? canon(&f).c_str() : ""));
      break;
    }
    default: {                                            // something acknowledged
      int w = (int)choose(4), r;
      Bytes d((size_t)range(1, chance(1, 3) ? 252 : 60), (uint8_t)choose(256));
      switch (w) {
        case 0: r = mbus_send_user_data_frame(m.h, addr, d.data(), d.size()); break;
        case 1: r = mbus_send_application_reset_frame(m.h, addr, (int)choose(3) - 1); break;
        case 2: r = mbus_send_switch_baudrate_frame(m.h, addr, 9600); break;
        default: r = mbus_send_request_frame(m.h, addr);
      }
      int q = mbus_recv_frame(m.h, &f);
      out.push_back(strf("send %d %d answer %s %s", w, r, res_name(q), q == MBUS_RECV_RESULT_OK ? canon(&f).c_str() : ""));
    }
  }
  free_chain(&f);
}
