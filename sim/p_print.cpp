// C33: what the library prints of received data
#include "drv.h"
#include "recs.h"
#include <cstring>

extern "C" void sim_free(void *);

namespace {
typedef std::vector<std::pair<std::string, std::string>> Lines;
std::string trim(const std::string &s) {
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
// "name = value" lines; what stands before a colon in the name is the place that prints
Lines read_lines(const std::string &s) {
  Lines v;
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    std::string l = s.substr(i, e - i);
    i = e + 1;
    if (trim(l).empty()) continue;
    size_t q = l.find(" = ");
    std::string name = q == std::string::npos ? l : l.substr(0, q), value = q == std::string::npos ? "" : l.substr(q + 3);
    size_t c = name.rfind(": ");
    if (c != std::string::npos) name = name.substr(c + 2);
    v.push_back({trim(name), trim(value)});
  }
  return v;
}
std::string letters(const std::string &s) { std::string o; for (unsigned char ch : s) if (isalnum(ch)) o += (char)tolower(ch); return o; }
const char *yes(bool b) { return b ? "Yes" : "No"; }
void record_lines(Lines &w, int n, const Bytes &t, const RawRecord &r) {
  static const char *func[] = {"Instantaneous value", "Maximum value", "Minimum value", "Value during error state"};
  uint8_t dif = t[r.at];
  w.push_back({"Record ID", std::to_string(n)});
  w.push_back({"DIF", strf("%02X", dif)});
  w.push_back({"DIF.Extension", yes(dif & 0x80)});
  w.push_back({"DIF.StorageNumber", std::to_string(dif >> 6 & 1)});
  w.push_back({"DIF.Function", r.special ? "*" : func[dif >> 4 & 3]});
  w.push_back({"DIF.Data", strf("%02X", dif & 15)});
  if (r.special) {
    std::string h;
    for (auto c : r.data) h += strf("%s%02X", h.empty() ? "" : " ", c);
    w.push_back({strf("VENDOR DATA [size=%zu]", r.data.size()), h});
    if (dif == 0x1F) w.push_back({"More records follow in next telegram", ""});
    return;
  }
  w.push_back({"DATA LENGTH", (dif & 15) == 13 ? "*" : std::to_string(r.data.size())});
  size_t i = r.at;
  for (int j = 0; t[i] & 0x80; j++) {
    uint8_t e = t[++i];
    w.push_back({strf("DIFE[%d]", j), strf("%02X", e)});
    w.push_back({strf("DIFE[%d].Extension", j), yes(e & 0x80)});
    w.push_back({strf("DIFE[%d].Device", j), std::to_string(e >> 6 & 1)});
    w.push_back({strf("DIFE[%d].Tariff", j), std::to_string(e >> 4 & 3)});
    w.push_back({strf("DIFE[%d].StorageNumber", j), strf("%02X", e & 15)});
  }
  uint8_t vif = t[++i];
  w.push_back({"VIF", strf("%02X", vif)});
  w.push_back({"VIF.Extension", yes(vif & 0x80)});
  w.push_back({"VIF.Value", strf("%02X", vif & 0x7F)});
  if ((vif & 0x7F) == 0x7C) { i++; i += t[i]; }
  uint8_t v = vif;
  for (int j = 0; v & 0x80; j++) {
    v = t[++i];
    w.push_back({strf("VIFE[%d]", j), strf("%02X", v)});
    w.push_back({strf("VIFE[%d].Extension", j), yes(v & 0x80)});
    w.push_back({strf("VIFE[%d].Value", j), strf("%02X", v & 0x7F)});
  }
}
void compare(const Lines &got, const Lines &want, const Bytes &sent) {
  for (size_t i = 0; i < got.size() || i < want.size(); i++) {
    if (i >= got.size()) fail("lost", "of telegram %s '%s = %s' is not printed", hex(sent).c_str(), want[i].first.c_str(), want[i].second.c_str());
    if (i >= want.size()) fail("extra", "of telegram %s '%s = %s' is printed besides", hex(sent).c_str(), got[i].first.c_str(), got[i].second.c_str());
    REQUIRE(got[i].first == want[i].first, "order", "of telegram %s '%s = %s' is printed where %s = %s is expected", hex(sent).c_str(), got[i].first.c_str(), got[i].second.c_str(), want[i].first.c_str(), want[i].second.c_str());
    if (want[i].second == "*") continue;
    if (want[i].second[0] == '?') { REQUIRE(got[i].second.find(want[i].second.substr(1)) != std::string::npos, "value", "of telegram %s '%s = %s' is printed", hex(sent).c_str(), got[i].first.c_str(), got[i].second.c_str()); continue; }
    if (want[i].second[0] == '~') { REQUIRE(letters(got[i].second) == letters(want[i].second), "value", "of telegram %s '%s = %s' is printed, not %s", hex(sent).c_str(), got[i].first.c_str(), got[i].second.c_str(), want[i].second.c_str() + 1); continue; }
    if (want[i].second[0] == '#') { REQUIRE(strtoull(got[i].second.c_str(), nullptr, 16) == strtoull(want[i].second.c_str() + 1, nullptr, 16), "value", "of telegram %s '%s = %s' is printed, not %s", hex(sent).c_str(), got[i].first.c_str(), got[i].second.c_str(), want[i].second.c_str()); continue; }
    if (want[i].second[0] == '(') { REQUIRE(got[i].second.size() >= want[i].second.size() && got[i].second.substr(got[i].second.size() - want[i].second.size()) == want[i].second, "value", "of telegram %s '%s = %s' is printed, not %s", hex(sent).c_str(), got[i].first.c_str(), got[i].second.c_str(), want[i].second.c_str()); continue; }
    REQUIRE(got[i].second == want[i].second, "value", "of telegram %s '%s = %s' is printed, not %s", hex(sent).c_str(), got[i].first.c_str(), got[i].second.c_str(), want[i].second.c_str());
  }
}
Lines wanted(const Bytes &f) {                           // f: a complete telegram as it was sent
  Lines w;
  Bytes d(f.begin() + 7, f.end() - 2);
  if (f[6] == 0x70) { w.push_back({"Error", std::to_string(d.empty() ? 0 : d[0])}); return w; }
  std::string id = strf("#%02X%02X%02X%02X", d[3], d[2], d[1], d[0]);
  if (f[6] == 0x73) {
    w.push_back({"ID", id});
    w.push_back({"Access #", strf("0x%02X", d[4])});
    w.push_back({"Status", strf("0x%02X", d[5])});
    w.push_back({"Function", d[5] & 0x40 ? "Stored value" : "Actual value"});
    for (int k = 0; k < 2; k++) {
      std::string u = fixed_unit_text(d[6 + k]);
      w.push_back({strf("Medium%d", k + 1), "~" + fixed_medium_text(d[6], d[7])});
      w.push_back({strf("Unit%d", k + 1), u == "historic" ? "?" + u : u == "reserved" ? "~" + u : u});
      const uint8_t *v = d.data() + 8 + 4 * k;
      uint32_t n = v[0] | v[1] << 8 | v[2] << 16 | (uint32_t)v[3] << 24;
      w.push_back({strf("Counter%d", k + 1), d[5] & 0x80 ? std::to_string((int32_t)n) : strf("#%X", n)});
    }
    return w;
  }
  unsigned man = d[4] | d[5] << 8;
  w.push_back({"ID", id});
  w.push_back({"Manufacturer", strf("0x%04X", man)});
  w.push_back({"Manufacturer", (man & 0x8000) || !(man & 31) || !(man >> 5 & 31) || !(man >> 10 & 31) || (man & 31) > 26 || (man >> 5 & 31) > 26 || (man >> 10 & 31) > 26 ? "*" : strf("%c%c%c", '@' + (man >> 10 & 31), '@' + (man >> 5 & 31), '@' + (man & 31))});
  w.push_back({"Version", strf("0x%02X", d[6])});
  w.push_back({"Medium", strf("(0x%02X)", d[7])});
  w.push_back({"Access #", strf("0x%02X", d[8])});
  w.push_back({"Status", strf("0x%02X", d[9])});
  w.push_back({"Signature", strf("0x%02X%02X", d[11], d[10])});
  Bytes t(d.begin() + 12, d.end());
  std::vector<RawRecord> v;
  REQUIRE(walk_records(t, v) == 1, "accepted", "a successful readout holds a malformed telegram: %s", hex(t).c_str());
  for (size_t i = 0; i < v.size(); i++) record_lines(w, (int)i, t, v[i]);
  return w;
}
}

static void c33() {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  Master m = open_master(0);
  PopOpt o;
  o.max_telegrams = 3;
  o.rich = true;
  gen_meters(b, o);
  bool reserved = false;
  for (auto &mt : b.meters) {
    mt.man[0] = (uint8_t)choose(256);
    mt.man[1] = (uint8_t)choose(256);
    mt.ver = (uint8_t)choose(256);
    if (chance(1, 4)) mt.med = (uint8_t)choose(256);
    if (chance(1, 5)) {
      Bytes t;
      for (int i = 0; i < 11; i++) t.push_back((uint8_t)choose(256));
      mt.fixed = true;
      mt.telegrams = {t};
      mt.cursor = 0;
      mt.status = t[0];
    } else if (chance(1, 2)) {
      for (size_t i = 0; i < mt.telegrams.size(); i++) mt.telegrams[i] = gen_records(240, chance(1, 3), i + 1 < mt.telegrams.size());
    }
    mt.selected = false;
    mt.lfd = Link();
    mt.l0 = Link();
    if (!mt.fixed) for (auto &t : mt.telegrams) { std::vector<RawRecord> v; if (walk_records(t, v) == 0) reserved = true; }
  }
  if (reserved) { for (auto &mt : b.meters) if (!mt.fixed) for (auto &t : mt.telegrams) { std::vector<RawRecord> v; if (walk_records(t, v) == 0) t = {0x04, 0x13, 1, 2, 3, 4}; } }
  gen_faults(b, ALL_FAULTS);
  if (chance(1, 3)) b.rate = 0;
  if (chance(1, 4)) for (auto &x : b.meters) x.app_error_rate = (int)range(5, 100);
  b.segments = chance(1, 2);
  b.gaps = chance(1, 3);
  b.echo = chance(1, 6);
  p->cfg_short_read = chance(1, 6);
  for (int round = (int)range(1, 2); round > 0; round--) {
    Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
    mbus_send_ping_frame(m.h, mt.addr, 1);
    mbus_frame reply;
    memset(&reply, 0, sizeof reply);
    int r = mbus_sendrecv_request(m.h, mt.addr, &reply, (int)range(1, 4));
    shape(0x3300 + (r ? 1 : 0));
    if (r == 0)
      for (auto f : chain(&reply)) {
        Bytes sent = frame_bytes(f);
        mbus_frame_data *d = mbus_frame_data_new();
        REQUIRE(d && mbus_frame_data_parse((mbus_frame *)f, d) == 0, "decode", "a telegram of a successful readout is not understood");
        if (d->type == MBUS_DATA_TYPE_VARIABLE) {
          std::vector<RawRecord> v;
          if (walk_records(Bytes(sent.begin() + 19, sent.end() - 2), v) == 1) {
            REQUIRE(d->data_var.nrecords == v.size(), "count", "telegram %s has %d records, counted are %d", hex(sent).c_str(), (int)v.size(), (int)d->data_var.nrecords);
            bool more = !v.empty() && v.back().dif == 0x1F;
            REQUIRE(!d->data_var.more_records_follow == !more, "count", "telegram %s: more records follow is %d", hex(sent).c_str(), (int)d->data_var.more_records_follow);
            size_t n = 0;
            for (mbus_data_record *q = d->data_var.record; q && n <= v.size(); q = (mbus_data_record *)q->next) n++;
            REQUIRE(n == v.size(), "count", "telegram %s has %d records, handed out are %d", hex(sent).c_str(), (int)v.size(), (int)n);
          }
        }
        char *x0 = d->type == MBUS_DATA_TYPE_ERROR ? nullptr : mbus_frame_data_xml(d);
        std::string before = g_out, xml0 = x0 ? x0 : "";
        sim_free(x0);
        g_out.clear();
        mbus_frame_data_print(d);
        std::string out = g_out;
        if (chance(1, 4)) {                                // printing is only looking
          g_out.clear();
          mbus_frame_data_print(d);
          REQUIRE(g_out == out, "changed", "printed a second time telegram %s shows differently", hex(sent).c_str());
          char *x1 = d->type == MBUS_DATA_TYPE_ERROR ? nullptr : mbus_frame_data_xml(d);
          REQUIRE(xml0 == (x1 ? x1 : ""), "changed", "printing telegram %s changes its document", hex(sent).c_str());
          sim_free(x1);
        }
        REQUIRE(g_err.find("AddressSanitizer") == std::string::npos, "memory", "memory error");
        g_out = before;
        REQUIRE(frame_bytes(f) == sent, "changed", "printing changes the frame");
        bool mine = false;
        for (auto &s : b.sent) if (s.meter == mt.idx && s.reached && s.b == sent) mine = true;
        REQUIRE(mine, "foreign", "telegram %s of a successful readout was not sent by the meter", hex(sent).c_str());
        compare(read_lines(out), wanted(sent), sent);
        probe(sent[6] == 0x70 ? "application error printed" : sent[6] == 0x73 ? "fixed data printed" : "variable data printed");
        if (d->type == MBUS_DATA_TYPE_VARIABLE) { mbus_data_record_free(d->data_var.record); d->data_var.record = nullptr; }
        mbus_frame_data_free(d);
      }
    free_chain(&reply);
    mbus_purge_frames(m.h);
  }
  close_master(m);
}
PROPERTY("C33", c33, 60000, 1500000,
  "one run: one or two readouts of 1 to 3 meters with arbitrary records, fixed data or application errors, under loss, damage, truncation, duplication and late replies; every telegram handed out is printed and the text compared, name by name, with what an independent reader finds in the bytes the meter sent; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")
