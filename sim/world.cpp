#include "world.h"
#include <algorithm>
#include <cstring>

World *g_world;

// ------------------------------------------------------------------ codec
static bool short_control(uint8_t c) { return c == 0x40 || c == 0x5A || c == 0x7A || c == 0x5B || c == 0x7B; }
static bool long_control(uint8_t c) { return c == 0x53 || c == 0x73 || c == 0x08 || c == 0x18 || c == 0x28 || c == 0x38; }
int frame_at(const uint8_t *p, size_t n, size_t *len) {
  if (n == 0) return 0;
  if (p[0] == 0xE5) { *len = 1; return 1; }
  if (p[0] == 0x10) {
    if (n >= 2 && !short_control(p[1])) return -1;
    if (n >= 4 && (uint8_t)(p[1] + p[2]) != p[3]) return -1;
    if (n >= 5) { if (p[4] != 0x16) return -1; *len = 5; return 1; }
    return 0;
  }
  if (p[0] == 0x68) {
    if (n >= 2 && p[1] < 3) return -1;
    if (n >= 3 && p[1] != p[2]) return -1;
    if (n >= 4 && p[3] != 0x68) return -1;
    if (n >= 5 && !long_control(p[4])) return -1;
    if (n < 2) return 0;
    size_t L = p[1];
    if (n >= L + 5) {
      uint8_t s = 0;
      for (size_t i = 0; i < L; i++) s += p[4 + i];
      if (s != p[4 + L]) return -1;
    }
    if (n >= L + 6) { if (p[L + 5] != 0x16) return -1; *len = L + 6; return 1; }
    return 0;
  }
  return -1;
}
bool frame_anywhere(const Bytes &b, bool count_ack) {
  for (size_t i = 0; i < b.size(); i++) {
    size_t l;
    if (b[i] == 0xE5 && !count_ack) continue;
    if (frame_at(b.data() + i, b.size() - i, &l) == 1) return true;
  }
  return false;
}
Bytes f_short(uint8_t c, uint8_t a) { return {0x10, c, a, (uint8_t)(c + a), 0x16}; }
Bytes f_long(uint8_t c, uint8_t a, uint8_t ci, const Bytes &d) {
  uint8_t L = (uint8_t)(d.size() + 3);
  Bytes b = {0x68, L, L, 0x68, c, a, ci};
  b.insert(b.end(), d.begin(), d.end());
  uint8_t s = 0;
  for (size_t i = 4; i < b.size(); i++) s += b[i];
  b.push_back(s);
  b.push_back(0x16);
  return b;
}

// ------------------------------------------------------------------ meters
uint32_t dec_id(uint32_t v) {
  uint32_t r = 0;
  for (int i = 0; i < 8; i++) { r |= (v % 10) << (4 * i); v /= 10; }
  return r;
}
Bytes Meter::header() const {
  return {(uint8_t)id, (uint8_t)(id >> 8), (uint8_t)(id >> 16), (uint8_t)(id >> 24), man[0], man[1], ver, med, access, status, (uint8_t)sig, (uint8_t)(sig >> 8)};
}
Bytes Meter::telegram(size_t i) const {
  if (fixed) {
    Bytes d = {(uint8_t)id, (uint8_t)(id >> 8), (uint8_t)(id >> 16), (uint8_t)(id >> 24), access};
    d.insert(d.end(), telegrams[i].begin(), telegrams[i].end());
    return f_long(rsp_control, addr, 0x73, d);
  }
  Bytes d = header();
  d.insert(d.end(), telegrams[i].begin(), telegrams[i].end());
  return f_long(rsp_control, addr, 0x72, d);
}
std::string Meter::address() const { return strf("%08X%02X%02X%02X%02X", id, man[0], man[1], ver, med); }
bool Meter::matches(const uint8_t *m) const {
  for (int i = 0; i < 4; i++)
    for (int h = 0; h < 2; h++) {
      int want = (m[i] >> (4 * h)) & 15, have = (id >> (8 * i + 4 * h)) & 15;
      if (want != 15 && want != have) return false;
    }
  if (!(m[4] == 0xFF && m[5] == 0xFF) && !(m[4] == man[0] && m[5] == man[1])) return false;
  if (m[6] != 0xFF && m[6] != ver) return false;
  if (m[7] != 0xFF && m[7] != med) return false;
  return true;
}
static int hexd(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
bool mask_bytes(const std::string &s, uint8_t out[8]) {
  if (s.size() != 16) return false;
  uint8_t n[16];
  for (int i = 0; i < 16; i++) {
    int d = hexd(s[i]);
    if (d < 0) return false;
    n[i] = (uint8_t)d;
  }
  for (int i = 0; i < 4; i++) out[i] = n[6 - 2 * i] << 4 | n[7 - 2 * i];
  out[4] = n[8] << 4 | n[9];
  out[5] = n[10] << 4 | n[11];
  out[6] = n[12] << 4 | n[13];
  out[7] = n[14] << 4 | n[15];
  return true;
}
int Bus::matching(const std::string &mask) const {
  uint8_t m8[8];
  int n = 0;
  if (!mask_bytes(mask, m8)) return 0;
  for (auto &m : meters) if (!m.silent && m.matches(m8)) n++;
  return n;
}
Bytes marker_record(int meter, int telegram, uint32_t salt) {
  // 32 bit integer, fabrication-number-like VIF 78: value = meter, telegram, salt
  uint32_t v = ((uint32_t)meter & 0x3f) << 24 | ((uint32_t)telegram & 0xff) << 16 | (salt & 0xffff);
  return {0x04, 0x78, (uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), (uint8_t)(v >> 24)};
}
Meter simple_meter(int idx, uint8_t addr, uint32_t id, int n, int extra) {
  Meter m;
  m.idx = idx;
  m.addr = addr;
  m.id = id;
  for (int t = 0; t < n; t++) {
    Bytes b = marker_record(idx, t, (uint32_t)(idx * 257 + t));
    int k = (int)range(0, extra);
    for (int i = 0; i < k; i++) {
      uint32_t v = choose(65536);
      Bytes r = {0x02, 0x5B, (uint8_t)v, (uint8_t)(v >> 8)};
      b.insert(b.end(), r.begin(), r.end());
    }
    if (t + 1 < n) b.push_back(0x1F);
    m.telegrams.push_back(b);
  }
  return m;
}

// ------------------------------------------------------------------ bus
void Bus::attach(Port *p) {
  port = p;
  p->on_tx = [this](const Bytes &b, ns_t s, ns_t e) { master_bytes(b, s, e); };
}
ns_t Bus::window() const {
  if (port->kind == P_TTY) return bit(330) + 50 * MS;
  return tcp_max_gap;
}
ns_t Bus::answer_delay() {
  if (port->kind == P_TTY) {
    ns_t lo = bit(11), hi = bit(330) + 50 * MS;
    int m = delay_mode >= 0 ? delay_mode : vary_delay ? (int)choose(4) : 0;
    if (m == 1) { fault(F_SLOW_REPLY); return hi; }
    if (m == 2) return lo + (hi - lo) / 2;
    if (m == 3) return lo + (hi - lo) / 64 * range(0, 63);
    return lo;
  }
  int m = delay_mode >= 0 ? delay_mode : vary_delay ? (int)choose(4) : 0;
  if (m == 1) { fault(F_SLOW_REPLY); return tcp_max_gap; }
  if (m == 2) return tcp_max_gap / 3;
  if (m == 3) return 200 * MS < tcp_max_gap ? 200 * MS : tcp_max_gap;
  return 5 * MS < tcp_max_gap ? 5 * MS : tcp_max_gap;
}
ns_t Bus::emit(const Bytes &b, ns_t start) {
  if (b.empty()) return start;
  Port *p = port;
  if (p->kind == P_TTY) {
    ns_t t = start;
    if (p->last_arrival > t) t = p->last_arrival;
    int gap_at = -1, gap2 = -1;
    if (gaps && b.size() > 1 && chance(1, 3)) {
      gap_at = (int)range(1, b.size() - 1);
      if (chance(1, 2)) gap2 = (int)range(1, b.size() - 1);
      fault(F_GAP);
    }
    int chunk = 0;
    if (segments && chance(1, 2)) { chunk = (int)range(2, 17); fault(F_SEGMENT); }
    std::vector<ns_t> at(b.size());
    for (size_t i = 0; i < b.size(); i++) {
      if ((int)i == gap_at || (int)i == gap2) t += tty_max_gap ? tty_max_gap / 16 * range(1, 16) : window() - bit(11);
      t += bit(11);
      at[i] = t;
    }
    if (chunk) {           // the adapter hands bytes over in groups; never across a pause
      for (size_t i = 0; i < b.size();) {
        size_t j = i;
        while (j + 1 < b.size() && j + 1 - i < (size_t)chunk && at[j + 1] - at[j] <= bit(11)) j++;
        if (at[j] - at[i] > 16 * MS) { size_t k = i; while (k + 1 <= j && at[k + 1] - at[i] <= 16 * MS) k++; j = k; }
        for (size_t k = i; k <= j; k++) at[k] = at[j];
        i = j + 1;
      }
    }
    for (size_t i = 0; i < b.size(); i++) p->arrive(at[i], b[i]);
    ev_bytes("line", b.data(), b.size());
    return at.back();
  }
  ns_t t = start;
  if (p->last_arrival > t) t = p->last_arrival;
  size_t cuts = 0;
  if (segments) { cuts = choose(4); if (cuts == 3) cuts = b.size() > 40 && !chance(1, 6) ? 12 : b.size(); }
  std::set<size_t> cut;
  if (cuts && cuts >= b.size()) for (size_t i = 1; i < b.size(); i++) cut.insert(i);
  else for (size_t i = 0; i < cuts && b.size() > 1; i++) cut.insert(range(1, b.size() - 1));
  if (!cut.empty()) fault(F_SEGMENT);
  for (size_t i = 0; i < b.size(); i++) {
    if (cut.count(i)) {
      int k = (int)choose(gaps ? 4 : 2);
      if (k == 1) t += 1 * MS;
      else if (k == 2) t += tcp_max_gap / 8;
      else if (k == 3) { t += tcp_max_gap; fault(F_GAP); }
    }
    p->arrive(t, b[i]);
  }
  ev_bytes("line", b.data(), b.size());
  return t;
}

Bytes corrupt(const Bytes &b, bool may_ack) {
  for (int tries = 0; tries < 20; tries++) {
    Bytes c = b;
    int k = (int)range(1, 3);
    int mode = (int)choose(4);
    for (int i = 0; i < k; i++) {
      size_t pos = choose((uint32_t)c.size());
      if (mode == 1 && c.size() > 4) pos = choose(4);                       // the header
      if (mode == 2) pos = c.size() - 1 - choose(c.size() > 1 ? 2 : 1);     // checksum and stop
      c[pos] ^= (uint8_t)range(1, 255);
      if (mode == 3) break;
    }
    if (c == b) continue;
    if (!may_ack && c[0] == 0xE5) continue;
    // nothing in it may verify (an acknowledge at the start only if allowed)
    bool bad = false;
    for (size_t i = 0; i < c.size(); i++) {
      size_t l;
      if (c[i] == 0xE5 && i > 0) continue;
      if (c[i] == 0xE5) { if (!may_ack) bad = true; continue; }
      if (frame_at(c.data() + i, c.size() - i, &l) == 1) bad = true;
    }
    if (!bad) return c;
  }
  Bytes c = b;
  c[0] ^= 0x01;
  if (c.size() > 1) c.back() ^= 0x40;
  return c;
}
Bytes garbled(const std::vector<Bytes> &r, const std::vector<int> &off) {
  // simultaneous senders on a wired-AND line
  size_t n = 0;
  for (size_t i = 0; i < r.size(); i++) n = std::max(n, r[i].size() + off[i]);
  Bytes o(n, 0xFF);
  for (size_t i = 0; i < r.size(); i++)
    for (size_t k = 0; k < r[i].size(); k++) o[k + off[i]] &= r[i][k];
  return o;
}

void Bus::master_bytes(const Bytes &b, ns_t start, ns_t end) {
  if (!acc.empty() && start - acc_at > 33 * SEC / (port->line_baud ? port->line_baud : 2400) && port->kind == P_TTY) acc.clear();
  if (!acc.empty() && port->kind == P_TCP && start - acc_at > 50 * MS) acc.clear();
  acc.insert(acc.end(), b.begin(), b.end());
  acc_at = end;
  for (;;) {
    size_t l;
    int r = acc.empty() ? 0 : frame_at(acc.data(), acc.size(), &l);
    if (r == 1) {
      Bytes f(acc.begin(), acc.begin() + l);
      acc.erase(acc.begin(), acc.begin() + l);
      master_frame(f, end);
    } else if (r < 0) acc.erase(acc.begin());
    else break;
  }
}

// one meter handles one frame; empty: no answer
static Bytes meter_handle(Meter &m, Bus &b, const Bytes &f) {
  if (m.silent) return {};
  uint8_t c, a;
  if (f[0] == 0x10) { c = f[1]; a = f[2]; }
  else if (f[0] == 0x68) { c = f[4]; a = f[5]; }
  else return {};
  bool broadcast = a == 0xFF, all = a == 0xFE;
  bool fd = a == 0xFD;
  if (!broadcast && !all && !fd && a != m.addr) return {};
  Link &l = fd ? m.lfd : m.l0;
  if (f[0] == 0x10 && (c & 0x4F) == 0x40) {            // SND_NKE
    if (fd) {
      if (!m.selected) return {};
      m.selected = false;
      m.lfd = Link();
      m.cursor = 0;
      m.generation++;
      return ACK;
    }
    m.l0 = Link();
    m.cursor = 0;
    m.generation++;
    return broadcast ? Bytes() : ACK;
  }
  if (f[0] == 0x10 && (c & 0x4F) == 0x4B) {            // REQ_UD2
    if (fd && !m.selected) return {};
    if (broadcast) return {};
    if (m.telegrams.empty()) return {};
    m.requests++;
    bool fcv = c & 0x10, fcb = c & 0x20;
    if (fcv && l.valid && l.fcb == fcb && !l.last.empty()) {
      b.sent.push_back({m.idx, l.last_idx, m.generation, l.last, g_now, 0});
      return l.last;                                     // repeat
    }
    Bytes t;
    int idx = -2;
    if (m.app_error_rate && chance(m.app_error_rate, 100)) {
      fault(F_APP_ERROR);
      Bytes code;
      if (chance(5, 6)) code.push_back((uint8_t)pick(std::vector<int>{8, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 255, (int)range(10, 255), (int)choose(256)}));
      t = f_long(m.rsp_control, m.addr, 0x70, code);
    } else {
      t = m.telegram(m.cursor);
      idx = (int)m.cursor;
      m.cursor = (m.cursor + 1) % m.telegrams.size();
    }
    if (m.access_changes) m.access++;
    l.valid = fcv;
    l.fcb = fcb;
    l.last = t;
    l.last_idx = idx;
    b.sent.push_back({m.idx, idx, m.generation, t, g_now, 0});
    return t;
  }
  if (f[0] == 0x10) return {};
  uint8_t ci = f[6];
  Bytes d(f.begin() + 7, f.end() - 2);
  if ((c & 0x4F) == 0x43) {                            // SND_UD
    if (ci == 0x52 || ci == 0x56) {
      if (!fd || d.size() < 8) return {};
      if (m.matches(d.data())) {
        m.selected = true;
        m.lfd = Link();
        m.cursor = 0;
        m.generation++;
        m.selects++;
        return ACK;
      }
      m.selected = false;
      return {};
    }
    if (fd && !m.selected) return {};
    if (m.refuse_rate && !broadcast && (ci == 0x50 || ci == 0x51 || (ci >= 0xB8 && ci <= 0xBF)) && chance(m.refuse_rate, 100)) {
      fault(F_APP_ERROR);
      m.refused++;
      switch (choose(4)) {
        case 0: return f_long(m.rsp_control, m.addr, 0x70, {});
        case 1: return f_long(m.rsp_control, m.addr, 0x70, {(uint8_t)(chance(1, 3) ? choose(256) : choose(11))});
        case 2: return m.telegrams.empty() ? f_long(m.rsp_control, m.addr, 0x71, {0x11}) : m.telegram(0);
        default: return f_long(m.rsp_control, m.addr, 0x71, {(uint8_t)choose(256)});
      }
    }
    if (ci == 0x51) {
      m.user_data.push_back(d);
      if (d.size() == 3 && d[0] == 0x01 && d[1] == 0x7A) m.addr = d[2];
      return broadcast ? Bytes() : ACK;
    }
    if (ci == 0x50) {
      m.app_resets++;
      m.cursor = 0;
      m.l0 = m.lfd = Link();
      m.generation++;
      return broadcast ? Bytes() : ACK;
    }
    if (ci >= 0xB8 && ci <= 0xBF) { b.baud_switch.push_back(f); return broadcast ? Bytes() : ACK; }
  }
  return {};
}

void Bus::master_frame(const Bytes &f, ns_t end) {
  Exchange x{end, f, RF_NONE, 0, true};
  shape(0x4000 + f[0] * 4 + (f[0] == 0x10 ? f[1] & 3 : f[0] == 0x68 ? f[6] & 3 : 0));
  ev_bytes("bus", f.data(), f.size());
  if (on_frame) on_frame(f);
  if (echo) {
    fault(F_ECHO);
    for (uint8_t b : f) port->arrive(end, b);
  }
  // a late answer overtakes nothing: it arrives ahead of the next one
  ns_t start = end;
  bool released = false;
  if (!held.empty()) {
    released = true;
    Bytes h = held.front();
    held.pop_front();
    fault(F_LATE_REP);
    start = emit(h, end + answer_delay());
  }
  ReplyFault k = RF_NONE;
  if (plan) k = plan(f);
  else if (rate && !kinds.empty() && chance(rate, 100)) k = pick(kinds);
  if (released && k == RF_LATE_REP) k = RF_NONE;
  x.fault = k;
  if (k == RF_DROP_REQ) { fault(F_DROP_REQ); x.delivered = false; log.push_back(x); return; }
  if (k == RF_CORRUPT_REQ) { fault(F_CORRUPT_REQ); x.delivered = false; log.push_back(x); return; }
  if (hostile) {
    Bytes r;
    if (hostile(f, r)) { fault(F_JUNK); log.push_back(x); emit(r, start + answer_delay()); return; }
  }
  std::vector<Bytes> rs;
  std::vector<size_t> sidx;
  for (auto &m : meters) {
    if (meter_drop_rate && chance(meter_drop_rate, 100)) { fault(F_DROP_REQ); continue; }
    size_t before = sent.size();
    int refused = m.refused;
    Bytes r = meter_handle(m, *this, f);
    if (r.empty()) continue;
    x.refused += m.refused - refused;
    rs.push_back(r);
    sidx.push_back(sent.size() > before ? before : (size_t)-1);
  }
  x.answers = (int)rs.size();
  log.push_back(x);
  auto mark = [&](int v) { for (auto i : sidx) if (i != (size_t)-1) sent[i].reached = v; };
  if (rs.empty()) {
    if (k == RF_STRAY_ACK) { fault(F_STRAY_ACK); emit(ACK, start + answer_delay()); }
    else if (k == RF_NOISE_PRE || k == RF_NOISE_POST) {
      fault(k == RF_NOISE_PRE ? F_NOISE_PRE : F_NOISE_POST);
      Bytes n;
      for (int i = (int)range(1, 6); i > 0; i--) n.push_back((uint8_t)pick(std::vector<int>{0x00, 0xFF, 0x7F, 0x55}));
      emit(n, start + answer_delay());
    }
    return;
  }
  answered++;
  Bytes r = rs[0];
  std::vector<Bytes> seq;
  if (rs.size() > 1) {
    if (k == RF_DROP_REP) { fault(F_DROP_REP); return; }
    bool same = true;
    for (auto &q : rs) if (q != rs[0]) same = false;
    int ck = collision_kind >= 0 ? collision_kind : (int)choose(3);
    mark(2);
    if (ck == 0 && same) { fault(F_COLL_MERGE); r = rs[0]; shape(0x5000); }
    else if (ck == 2) {
      fault(F_COLL_SEQ);
      shape(0x5002);
      ns_t t = start + answer_delay();
      for (auto &q : rs) t = emit(q, t + (port->kind == P_TTY ? bit(22) : 1 * MS));
      return;
    } else {
      fault(F_COLL_GARBLE);
      shape(0x5001);
      std::vector<int> off;
      for (size_t i = 0; i < rs.size(); i++) off.push_back(i ? (int)choose(4) : 0);
      r = garbled(rs, off);
      // a garbled answer holds no valid frame
      if (rs[0] == ACK && same) {
        static const std::vector<Bytes> v = {{0x65}, {0xE1, 0xFC}, {0x45}, {0xE5, 0xE5}, {0xE5, 0xFC}, {0xE1}};
        r = pick(v);
      } else {
        if (chance(1, 3)) {               // bits slip: arbitrary bytes, often behind an intact start
          size_t from = chance(1, 2) ? 4 : choose(3);
          for (size_t i = from; i < r.size(); i++) if (chance(1, 3)) r[i] = (uint8_t)choose(256);
          if (from == 4 && r.size() > 6) { r.resize(rs[0].size()); for (int i = 0; i < 4; i++) r[i] = rs[0][i]; }
        }
        for (auto &c : r) if (c == 0xE5) c = 0x65;
        if (frame_anywhere(r)) r[0] = 0x60;
      }
    }
    emit(r, start + answer_delay());
    return;
  }
  switch (k) {
    case RF_DROP_REP: fault(F_DROP_REP); mark(0); return;
    case RF_CORRUPT_REP: fault(F_CORRUPT_REP); mark(2); r = corrupt(r, corrupt_may_ack); break;
    case RF_TRUNC_REP:
      fault(F_TRUNC_REP);
      mark(2);
      if (r.size() > 1) r.resize(range(1, r.size() - 1)); else { mark(0); return; }
      break;
    case RF_LATE_REP: mark(1); held.push_back(r); return;
    default: mark(1);
  }
  ns_t t = start + answer_delay();
  if (k == RF_NOISE_PRE) {
    fault(F_NOISE_PRE);
    mark(2);
    Bytes n;
    for (int i = (int)range(1, 4); i > 0; i--) n.push_back((uint8_t)pick(std::vector<int>{0x00, 0xFF, 0x7F, 0x55}));
    t = emit(n, t);
  }
  if (k == RF_STRAY_ACK) { fault(F_STRAY_ACK); mark(2); t = emit(ACK, t); }
  t = emit(r, t);
  if (k == RF_NOISE_POST) {
    fault(F_NOISE_POST);
    Bytes n;
    for (int i = (int)range(1, 12); i > 0; i--) n.push_back((uint8_t)choose(256));
    if (frame_anywhere(n)) n = {0x00};
    emit(n, t + (port->kind == P_TTY ? bit(11) : 0));
  }
  if (k == RF_DUP_REP) {
    fault(F_DUP_REP);
    emit(r, t + (chance(1, 2) ? window() * 9 / 10 : port->kind == P_TTY ? bit(22) : 0));
  }
}

// ------------------------------------------------------------------ world
Bus &World::add(PortKind k, long baud) {
  ports.emplace_back(new Port());
  Port *p = ports.back().get();
  p->kind = k;
  p->line_baud = baud;
  memset(&p->tio, 0, sizeof p->tio);
  if (k == P_TTY) {                       // what a freshly opened tty looks like
    p->tio.c_iflag = ICRNL | IXON;
    p->tio.c_oflag = OPOST | ONLCR;
    p->tio.c_cflag = CS8 | CREAD | B9600;
    p->tio.c_lflag = ISIG | ICANON | ECHO;
    p->tio.c_cc[VMIN] = 1;
    p->tio_set = true;
  }
  buses.emplace_back(new Bus());
  buses.back()->attach(p);
  return *buses.back();
}
void ops_reset();
void world_reset() {
  ops_reset();
  delete g_world;
  g_world = new World();
  seam_reset();
  g_open_dev = [](const char *dev) -> Port * {
    // /dev/sim<N>
    if (strncmp(dev, "/dev/sim", 8)) return nullptr;
    size_t n = (size_t)atoi(dev + 8);
    if (n >= g_world->ports.size() || g_world->ports[n]->kind != P_TTY) return nullptr;
    return g_world->ports[n].get();
  };
  g_resolve = [](const char *host, const char *, std::vector<TcpTarget> &v) -> int {
    if (strncmp(host, "gw", 2)) return -2;
    size_t n = (size_t)atoi(host + 2);
    if (n >= g_world->ports.size() || g_world->ports[n]->kind != P_TCP) return -2;
    v.push_back({false, g_world->ports[n].get()});
    return 0;
  };
  g_socket_fail = nullptr;
  g_termios_fail = nullptr;
  g_sockopt_fail = nullptr;
  g_oom = nullptr;
  g_seam_hook = nullptr;
  g_block_hook = nullptr;
  g_files.clear();
  g_file_bad.clear();
}
