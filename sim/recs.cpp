#include "recs.h"

Bytes gen_text(size_t n) {
  Bytes b(n);
  int mode = (int)choose(7);
  for (auto &c : b) switch (mode) {
    case 5: c = '"'; break;
    case 6: c = chance(1, 16) ? 'x' : '&'; break;
    case 0: c = (uint8_t)range('A', 'Z'); break;
    case 1: c = pick(Bytes{'<', '>', '&', '"', '\'', 'x', '%'}); break;
    case 2: c = (uint8_t)choose(256); break;
    case 3: c = pick(Bytes{0xE4, 0xB0, 0x80, 0x01, 0x00, 'n', '\n'}); break;
    default: c = pick(Bytes{'%', 's', 'n', 'd', '0', '.'});
  }
  return b;
}
static void fill(Bytes &b, size_t n) {
  int mode = (int)choose(5);
  for (size_t i = 0; i < n; i++) switch (mode) {
    case 0: b.push_back((uint8_t)(choose(10) << 4 | choose(10))); break;
    case 1: b.push_back((uint8_t)choose(256)); break;
    case 2: b.push_back(0); break;
    case 3: b.push_back(0xFF); break;
    default: b.push_back(pick(Bytes{0x80, 0x7F, 0xF0, 0x1F, 0x0F, 0xAA}));
  }
}
// Bytes that follow a length byte of data of variable length (EN 13757-3: text, positive and negative BCD numbers of two digits
// a byte, binary numbers); -1: reserved.
static int lvar_length(int lv) {
  if (lv <= 0xBF) return lv;
  if (lv <= 0xC9) return lv - 0xC0;
  if (lv >= 0xD0 && lv <= 0xD9) return lv - 0xD0;
  if (lv >= 0xE0 && lv <= 0xEF) return lv - 0xE0;
  if (lv >= 0xF0 && lv <= 0xF4) return (lv - 0xEC) * 4;
  return lv == 0xF5 ? 48 : lv == 0xF6 ? 64 : -1;
}
Bytes gen_record(bool wild) {
  static const int len[16] = {0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, -1, 6, 0};
  Bytes r;
  uint32_t special = choose(wild ? 24 : 60);
  if (special == 23) { r.push_back(0x2F); return r; }
  if (special == 22) { r.push_back(pick(Bytes{0x3F, 0x4F, 0x7F, 0x8F, 0xFF})); return r; }
  uint8_t df = (uint8_t)pick(Bytes{4, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 0, 8});
  uint8_t dif = (uint8_t)(df | (chance(1, 4) ? choose(4) << 4 : 0) | (chance(1, 6) ? 0x40 : 0));
  int ndife = chance(1, 3) ? (int)range(1, 3) : 0;
  if (wild && chance(1, 10)) ndife = (int)range(8, 12);
  r.push_back((uint8_t)(dif | (ndife ? 0x80 : 0)));
  for (int i = 0; i < ndife; i++) r.push_back((uint8_t)(choose(128) | (i + 1 < ndife ? 0x80 : 0)));
  // value information
  int kind = (int)choose(9);
  uint8_t vif;
  Bytes custom;
  int nv = 0;
  switch (kind) {
    case 1: vif = pick(Bytes{0x6C, 0x6D, 0x6D, 0x6E, 0x70, 0x74}); break;
    case 2: vif = 0x7C; { size_t n = wild && chance(1, 3) ? (size_t)pick(std::vector<int>{0, 127, 128, 129, 200, 255}) : (size_t)range(0, 12); custom.push_back((uint8_t)n); Bytes t = gen_text(n); custom.insert(custom.end(), t.begin(), t.end()); } break;
    case 3: vif = 0xFB; nv = 1; break;
    case 4: vif = 0xFD; nv = 1; break;
    case 5: vif = pick(Bytes{0x7E, 0x7F, 0xEF, 0xFE, 0xFF}); nv = vif & 0x80 ? 1 : 0; break;
    case 6: vif = (uint8_t)choose(256); if (!wild && (vif & 0x7F) == 0x7C) vif ^= 1; nv = vif & 0x80 ? 1 : 0; break;
    default: vif = (uint8_t)choose(0x7C);
  }
  if (chance(1, 5)) { vif |= 0x80; nv = nv ? nv : 1; }
  if (vif & 0x80) { if (!nv) nv = 1; if (chance(1, 3)) nv += (int)range(1, 3); if (wild && chance(1, 8)) nv = (int)range(8, 13); }
  r.push_back(vif);
  r.insert(r.end(), custom.begin(), custom.end());
  for (int i = 0; i < nv; i++) {
    uint8_t v = (uint8_t)choose(128);
    if (i == 0 && chance(1, 4)) v = pick(Bytes{0x1A, 0x3A, 0x61, 0x0C, 0x11, 0x74, 0x77, 0x7D, 0x10, 0x40, 0x48});
    r.push_back((uint8_t)(v | (i + 1 < nv ? 0x80 : 0)));
  }
  // data
  if (df == 13) {
    uint8_t lv = pick(Bytes{8, 0, 1, 20, 0xC4, 0xD3, 0xE5, 0xF2, 0xF4, 0xF5, 0xF6, 0xBF, 0xBE});
    if (chance(1, 3)) lv = (uint8_t)(pick(Bytes{0xC0, 0xD0, 0xE0}) + choose(10));
    if (wild && chance(1, 3)) lv = chance(1, 3) ? (uint8_t)range(120, 192) : (uint8_t)choose(256);
    size_t n = (size_t)std::max(0, lvar_length(lv));
    r.push_back(lv);
    Bytes t = gen_text(n);
    r.insert(r.end(), t.begin(), t.end());
  } else fill(r, len[df]);
  return r;
}
Bytes gen_records(size_t room, bool wild, bool more) {
  Bytes d;
  int want = (int)range(1, chance(1, 4) ? 60 : 6);
  size_t cap = room - (more ? 1 : 0);
  for (int i = 0; i < want; i++) {
    Bytes r = gen_record(wild);
    if (d.size() + r.size() > cap) { if (!wild) break; r.resize(cap - d.size()); d.insert(d.end(), r.begin(), r.end()); break; }
    d.insert(d.end(), r.begin(), r.end());
  }
  if (more) d.push_back(0x1F);
  if ((more || chance(1, 6)) && d.size() < room) {
    if (!more) d.push_back(0x0F);
    size_t n = chance(1, 4) ? room - d.size() : (size_t)choose((uint32_t)std::min<size_t>(8, room - d.size() + 1));
    Bytes t = gen_text(n);
    d.insert(d.end(), t.begin(), t.end());
  }
  if (wild && !d.empty() && chance(1, 5)) for (int i = (int)range(1, 3); i > 0; i--) d[choose((uint32_t)d.size())] = (uint8_t)choose(256);
  if (wild && chance(1, 8)) d.resize(choose((uint32_t)d.size() + 1));
  return d;
}
Bytes gen_data_frame(uint8_t addr, bool wild, bool more) {
  uint8_t c = pick(Bytes{0x08, 0x18, 0x28, 0x38});
  if (wild && chance(1, 20)) c = (uint8_t)choose(256);
  int kind = (int)choose(16);
  Bytes d;
  uint8_t ci = 0x72;
  if (kind == 15) {                                       // fixed data structure
    ci = 0x73;
    size_t n = wild && chance(1, 4) ? choose(40) : 16;
    fill(d, n);
  } else if (kind == 14) { ci = 0x70; if (chance(2, 3)) fill(d, (size_t)range(1, wild ? 20 : 1)); }
  else if (kind == 13 && wild) { ci = (uint8_t)choose(256); fill(d, choose(40)); }
  else {
    fill(d, 4);
    for (int i = 0; i < 8; i++) d.push_back((uint8_t)choose(256));
    if (chance(1, 3)) { static const uint8_t man[][2] = {{0x2D, 0x2C}, {0xA7, 0x32}, {0x93, 0x15}, {0x77, 0x04}, {0xC5, 0x14}, {0x24, 0x23}, {0xA5, 0x11}, {0x4D, 0x6A}}; auto m = man[choose(8)]; d[4] = m[0]; d[5] = m[1]; }
    if (wild && chance(1, 20)) d.resize(choose(13));
    else { Bytes r = gen_records(252 - 12 - (chance(1, 2) ? choose(200) : 0), wild, more); d.insert(d.end(), r.begin(), r.end()); }
  }
  if (d.size() > 252) d.resize(252);
  return f_long(c, addr, ci, d);
}
// Where the record at offset i ends, by EN 13757-3; -1: malformed, -2: the rest of the telegram belongs to it, -3: a reserved code, length unknown.
static long record_end(const Bytes &t, size_t i) {
  static const int len[16] = {0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, -1, 6, 0};
  uint8_t dif = t[i];
  if (dif == 0x2F) return (long)i + 1;
  if (dif == 0x0F || dif == 0x1F) return -2;
  if ((dif & 15) == 15) return -3;
  auto at = [&](size_t k) { return k < t.size() ? (int)t[k] : -1; };
  int ext = 0;
  while (at(i) >= 0 && t[i] & 0x80) { i++; if (++ext > 10) return -1; }
  if (at(++i) < 0) return -1;
  uint8_t vif = t[i++];
  if ((vif & 0x7F) == 0x7C) { if (at(i) < 0) return -1; if (t[i] > 127) return -3; i += 1 + (size_t)t[i]; }
  if (vif & 0x80) {
    int n = 1;
    while (at(i) >= 0 && t[i] & 0x80) { i++; if (++n > 10) return -1; }
    i++;
  }
  if ((dif & 15) == 13) {
    if (at(i) < 0) return -1;
    int n = lvar_length(t[i]);
    if (n < 0) return -3;
    i += 1 + (size_t)n;
  } else i += (size_t)len[dif & 15];
  return i > t.size() ? -1 : (long)i;
}
bool well_formed(const Bytes &t, bool more) {
  for (size_t i = 0; i < t.size();) {
    long e = record_end(t, i);
    if (e == -1 || e == -3) return false;
    if (e == -2) return (t[i] == 0x1F) == more;
    i = (size_t)e;
  }
  return !more;
}
void enrich(Meter &m) {
  if (m.fixed) return;
  for (size_t i = 0; i < m.telegrams.size(); i++) {
    Bytes &t = m.telegrams[i];
    bool more = i + 1 < m.telegrams.size();
    if (more && !t.empty() && t.back() == 0x1F) t.pop_back();
    size_t room = 252 - 12 - (chance(1, 3) ? 0 : choose(200)) - 1;
    int want = (int)choose(6);
    for (int k = 0; k < want; k++) {
      Bytes r = gen_record(false);
      if (r.size() == 1 && r[0] != 0x2F) continue;         // special functions have no agreed length
      if (t.size() + r.size() > room) break;
      if (chance(1, 3)) t.insert(t.begin(), r.begin(), r.end()); else t.insert(t.end(), r.begin(), r.end());
    }
    if (chance(1, 6)) for (size_t k = choose(4); k > 0 && t.size() < room; k--) t.push_back(0x2F);
    bool tail = chance(1, 3) && t.size() + 2 < room;
    if (more) t.push_back(0x1F);
    else if (tail) t.push_back(0x0F);
    if (tail && t.size() < room) {
      size_t n = chance(1, 4) ? room - t.size() : choose((uint32_t)std::min<size_t>(12, room - t.size()) + 1);
      for (size_t k = 0; k < n; k++) t.push_back(chance(1, 3) ? pick(Bytes{0x1F, 0x0F, 0x2F, 0x68, 0x16, 0xE5, 0x10}) : (uint8_t)choose(256));
    }
    if (!well_formed(t, more)) fail("simulator", "telegram %zu is not what was meant", i);
  }
}
int walk_records(const Bytes &t, std::vector<RawRecord> &out) {
  static const int len[16] = {0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, -1, 6, 0};
  for (size_t i = 0; i < t.size();) {
    long e = record_end(t, i);
    if (e == -1) return -1;
    if (e == -3) return 0;
    if (t[i] == 0x2F) { i++; continue; }
    RawRecord r;
    r.at = i;
    r.dif = t[i];
    r.special = e == -2;
    r.text = r.number = false;
    if (e == -2) { r.data.assign(t.begin() + i + 1, t.end()); out.push_back(r); return 1; }
    int n = len[r.dif & 15];
    if (n >= 0) r.data.assign(t.begin() + e - n, t.begin() + e);
    else {                                                // variable length: find the length byte again from the front
      size_t k = i;
      while (t[k] & 0x80) k++;
      uint8_t vif = t[++k];
      k++;
      if ((vif & 0x7F) == 0x7C) k += 1 + (size_t)t[k];
      if (vif & 0x80) { while (t[k] & 0x80) k++; k++; }
      r.text = t[k] <= 0xBF;
      r.number = !r.text;
      r.data.assign(t.begin() + k + 1, t.begin() + e);
    }
    out.push_back(r);
    i = (size_t)e;
  }
  return 1;
}
