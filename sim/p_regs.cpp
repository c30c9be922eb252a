// C18: the registers of a meter, from its memory to the caller
#include "drv.h"

extern "C" void sim_free(void *);

static std::string unescape(const std::string &s) {
  std::string o;
  static const std::pair<const char *, char> t[] = {{"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&apos;", '\''}};
  for (size_t k = 0; k < s.size();) {
    bool hit = false;
    for (auto &e : t) if (!s.compare(k, strlen(e.first), e.first)) { o += e.second; k += strlen(e.first); hit = true; break; }
    if (!hit) o += s[k++];
  }
  return o;
}
std::string xml_field(const std::string &rec, const char *n) {
  std::string o = strf("<%s>", n), c = strf("</%s>", n);
  size_t p = rec.find(o), q = rec.find(c);
  if (p == std::string::npos || q == std::string::npos) return "(none)";
  return unescape(rec.substr(p + o.size(), q - p - o.size()));
}

namespace {
struct Unit { uint8_t vif; double factor; const char *unit, *quantity; uint8_t ext = 0; }; // ext: FD or FB, vif is then the code behind it
std::vector<Unit> make_units() {
  std::vector<Unit> v;
  auto dec = [&](uint8_t first, int n, double f, const char *u, const char *q) { for (int i = 0; i < n; i++, f *= 10) v.push_back({(uint8_t)(first + i), f, u, q}); };
  auto dur = [&](uint8_t first, const char *q) { static const double f[] = {1, 60, 3600, 86400}; for (int i = 0; i < 4; i++) v.push_back({(uint8_t)(first + i), f[i], "s", q}); };
  dec(0x00, 8, 1e-3, "Wh", "Energy");
  dec(0x08, 8, 1, "J", "Energy");
  dec(0x10, 8, 1e-6, "m^3", "Volume");
  dec(0x18, 8, 1e-3, "kg", "Mass");
  dur(0x20, "On time");
  dur(0x24, "Operating time");
  dec(0x28, 8, 1e-3, "W", "Power");
  dec(0x30, 8, 1, "J/h", "Power");
  dec(0x38, 8, 1e-6, "m^3/h", "Volume flow");
  dec(0x40, 8, 1e-7, "m^3/min", "Volume flow");
  dec(0x48, 8, 1e-9, "m^3/s", "Volume flow");
  dec(0x50, 8, 1e-3, "kg/h", "Mass flow");
  dec(0x58, 4, 1e-3, "\xC2\xB0" "C", "Flow temperature");
  dec(0x5C, 4, 1e-3, "\xC2\xB0" "C", "Return temperature");
  dec(0x60, 4, 1e-3, "K", "Temperature difference");
  dec(0x64, 4, 1e-3, "\xC2\xB0" "C", "External temperature");
  dec(0x68, 4, 1e-3, "bar", "Pressure");
  v.push_back({0x6E, 1, "Units for H.C.A.", "H.C.A."});
  dur(0x70, "Averaging Duration");
  dur(0x74, "Actuality Duration");
  v.push_back({0x78, 1, "", "Fabrication No"});
  v.push_back({0x79, 1, "", "(Enhanced) Identification"});
  v.push_back({0x7A, 1, "", "Bus Address"});
  return v;
}
std::vector<Unit> make_extended() {
  std::vector<Unit> v;
  uint8_t ext = 0xFD;
  auto one = [&](uint8_t c, double f, const char *u, const char *q) { v.push_back({c, f, u, q, ext}); };
  auto dec = [&](uint8_t first, int n, double f, const char *u, const char *q) { for (int i = 0; i < n; i++, f *= 10) one((uint8_t)(first + i), f, u, q); };
  const double MIN = 60, HOUR = 3600, DAY = 86400, MONTH = 2629743.83, YEAR = 31556926;
  auto dur = [&](uint8_t first, std::vector<double> fs, const char *q) { for (double f : fs) one(first++, f, "s", q); };
  dec(0x00, 4, 1e-3, "Currency units", "Credit");
  dec(0x04, 4, 1e-3, "Currency units", "Debit");
  static const char *n08[] = {"Access Number (transmission count)", "Medium", "Manufacturer", "Parameter set identification", "Model / Version", "Hardware version", "Firmware version", "Software version",
                              "Customer location", "Customer", "Access Code User", "Access Code Operator", "Access Code System Operator", "Access Code Developer", "Password", "Error flags", "Error mask"};
  for (uint8_t i = 0; i < 17; i++) one((uint8_t)(0x08 + i), 1, "", n08[i]);
  one(0x1A, 1, "", "Digital Output");
  one(0x1B, 1, "", "Digital Input");
  one(0x1C, 1, "Baud", "Baudrate");
  one(0x1D, 1, "Bittimes", "Response delay time");
  one(0x1E, 1, "", "Retry");
  one(0x20, 1, "", "First storage # for cyclic storage");
  one(0x21, 1, "", "Last storage # for cyclic storage");
  one(0x22, 1, "", "Size of storage block");
  dur(0x24, {1, MIN, HOUR, DAY, MONTH, YEAR}, "Storage interval");
  dur(0x2C, {1, MIN, HOUR, DAY}, "Duration since last readout");
  dur(0x31, {MIN, HOUR, DAY}, "Duration of tariff");
  dur(0x34, {1, MIN, HOUR, DAY, MONTH, YEAR}, "Period of tariff");
  one(0x3A, 1, "", "Dimensionless");
  dec(0x40, 16, 1e-9, "V", "Voltage");
  dec(0x50, 16, 1e-12, "A", "Current");
  static const char *n60[] = {"Reset counter", "Cumulation counter", "Control signal", "Day of week", "Week number", "Time point of day change", "State of parameter activation", "Special supplier information"};
  for (uint8_t i = 0; i < 8; i++) one((uint8_t)(0x60 + i), 1, "", n60[i]);
  dur(0x68, {HOUR, DAY, MONTH, YEAR}, "Duration since last cumulation");
  dur(0x6C, {HOUR, DAY, MONTH, YEAR}, "Operating time battery");
  ext = 0xFB;
  dec(0x00, 2, 1e5, "Wh", "Energy");
  dec(0x08, 2, 1e8, "J", "Energy");
  dec(0x10, 2, 1e2, "m^3", "Volume");
  dec(0x18, 2, 1e5, "kg", "Mass");
  one(0x21, 0.1, "feet^3", "Volume");
  dec(0x22, 2, 0.1, "American gallon", "Volume");
  one(0x24, 1e-3, "American gallon/min", "Volume flow");
  one(0x25, 1, "American gallon/min", "Volume flow");
  one(0x26, 1, "American gallon/h", "Volume flow");
  dec(0x28, 2, 1e5, "W", "Power");
  dec(0x30, 2, 1e8, "J/h", "Power");
  dec(0x58, 4, 1e-3, "\xC2\xB0" "F", "Flow temperature");
  dec(0x5C, 4, 1e-3, "\xC2\xB0" "F", "Return temperature");
  dec(0x60, 4, 1e-3, "\xC2\xB0" "F", "Temperature difference");
  dec(0x64, 4, 1e-3, "\xC2\xB0" "F", "External temperature");
  dec(0x70, 4, 1e-3, "\xC2\xB0" "F", "Cold / Warm Temperature Limit");
  dec(0x74, 4, 1e-3, "\xC2\xB0" "C", "Cold / Warm Temperature Limit");
  dec(0x78, 8, 1e-3, "W", "Cumul count max power");
  return v;
}
const std::vector<Unit> UNITS = make_units(), EXTENDED = make_extended();
const Unit BATTERY = {0x70, 1, "", "Date and time of battery change", 0xFD}, START = {0x30, 1, "", "Start (date/time) of tariff", 0xFD}, DATE = {0x6C, 1, "-", "Time point (date)"}, TIME = {0x6D, 1, "-", "Time point (date & time)"};
struct Reg { int func; uint64_t storage; bool ext; long tariff; int device; Unit u; bool num; double value; std::string text; Bytes raw, vib; std::string custom; bool has_custom = false; double off = 0; bool scaled = false; std::string plain; /* as the plain XML shows it; empty for reals */ double real = 0; double base = 1; /* factor without corrections */ };

uint64_t some_bits(int n) {                              // up to n bits, all magnitudes
  int k = (int)range(0, n);
  uint64_t v = 0;
  for (int i = 0; i < k; i++) v = v << 1 | choose(2);
  return k && chance(1, 2) ? v | 1ull << (k - 1) : v;
}
int64_t some_int(int bytes) {
  int bits = 8 * bytes;
  int64_t max = bits == 64 ? INT64_MAX : ((int64_t)1 << (bits - 1)) - 1, v;
  switch (choose(6)) {
    case 1: return max - (int64_t)choose(3);
    case 2: return -max - 1 + (int64_t)choose(3);
    case 3: return -(int64_t)range(1, 100);
    case 4: return 0;
    case 5: v = (int64_t)some_bits(bits - 1); return chance(1, 2) ? v : -v;
  }
  return range(1, 100);
}
Reg gen_reg(size_t room) {
  Reg r;
  r.func = (int)choose(4);
  int ndife = chance(1, 2) ? 0 : chance(1, 6) ? (int)range(5, 10) : (int)range(1, 4);
  uint64_t storage = some_bits(1 + 4 * ndife);
  long tariff = ndife ? (long)some_bits(2 * ndife) : -1;
  int device = ndife ? (int)some_bits(ndife) : -1;
  r.storage = storage;
  r.ext = ndife > 0;
  r.tariff = tariff;
  r.device = device;
  int form = (int)choose(8);                             // 0-3 a primary unit, 4 5 an extended one, 6 one in plain text, 7 primary
  r.u = form == 4 || form == 5 ? pick(EXTENDED) : pick(UNITS);
  if (form == 6) {
    r.has_custom = true;
    for (int i = (int)range(0, chance(1, 8) ? 127 : 9); i > 0; i--) r.custom += chance(1, 8) ? pick(std::vector<char>{'%', '/', ' ', '<', '&'}) : (char)range('0', 'z');
    if (r.custom.size() + 30 > room) r.custom.clear();
    r.u = {0x7C, 1, "-", nullptr};
  }
  // what further VIFEs say about it
  Bytes vifes;
  bool scaled = false;
  auto qualify = [&](bool scale) {
    static const Bytes neutral = {0x3B, 0x3C, 0x3A, 0x39, 0x3E, 0x7E};
    for (int i = (int)range(1, 3); i > 0; i--) {
      int k = (int)choose(scale ? 5 : 2);
      if (k < 2) vifes.push_back(pick(neutral));
      else if (k < 4) { int n = (int)choose(8); vifes.push_back((uint8_t)(0x70 | n)); r.u.factor *= std::pow(10.0, n - 6); scaled = true; }
      else { vifes.push_back(0x7D); r.u.factor *= 1000; scaled = true; }
    }
    if (scale && !scaled && chance(1, 4)) { int n = (int)choose(4); vifes.push_back((uint8_t)(0x78 | n)); r.off = std::pow(10.0, n - 3); }
    if (chance(1, 6)) { vifes.push_back(0x7F); for (int i = (int)choose(3); i > 0; i--) vifes.push_back((uint8_t)choose(128)); }
    probe(scaled || r.off ? "corrected unit" : "qualified unit");
  };
  bool vife = chance(1, 4);
  r.num = true;
  r.value = 0;
  Bytes data;
  uint8_t df = 0;
  static const std::vector<int> kinds = {4, 2, 12, 1, 3, 6, 7, 9, 10, 11, 14, 5, 13, 20, 21, 22};
  int kind = pick(kinds);
  r.base = r.u.factor;
  if (vife && kind < 20) qualify(true);
  r.scaled = scaled || r.off != 0;
  switch (kind) {
    case 5: {                                            // real
      df = 5;
      float f = 0;
      switch (choose(4)) {
        case 0: f = (float)range(0, 100000) / 8; break;
        case 1: f = -(float)range(1, 1000000) / 3; break;
        case 2: f = 0; break;
        default: { uint32_t e = (uint32_t)range(1, 254), w = choose(2) << 31 | e << 23 | choose(1 << 23); memcpy(&f, &w, 4); }
      }
      uint32_t w;
      memcpy(&w, &f, 4);
      for (int i = 0; i < 4; i++) data.push_back((uint8_t)(w >> (8 * i)));
      r.real = (double)f;
      r.value = (double)f * r.u.factor + r.off;
      break;
    }
    case 9: case 10: case 11: case 12: case 14: {
      df = (uint8_t)kind;
      int n = kind == 14 ? 6 : kind - 8;
      int digits = 2 * n;
      bool neg = chance(1, 4);
      double v = 0;
      std::vector<int> d(digits);
      int mode = (int)choose(4);
      for (int i = 0; i < digits; i++) d[i] = mode == 0 ? (i < 2 ? (int)choose(10) : 0) : mode == 1 ? (int)choose(10) : mode == 2 ? 9 : 0;
      if (neg) d[digits - 1] = 0;
      for (int i = digits - 1; i >= 0; i--) v = v * 10 + d[i];
      if (neg) { d[digits - 1] = 15; v = -v; }
      for (int i = 0; i < n; i++) data.push_back((uint8_t)(d[2 * i] | d[2 * i + 1] << 4));
      r.value = v * r.u.factor + r.off;
      r.plain = r.func == 3 ? hex(Bytes(data.rbegin(), data.rend())) : strf("%.0f", v == 0 ? 0.0 : v);
      if (r.func == 3) { for (auto &c : r.plain) c = (char)toupper(c); r.plain.erase(0, std::min(r.plain.find_first_not_of('0'), r.plain.size() - 1)); }
      break;
    }
    case 13: {
      df = 13;
      r.num = false;
      size_t n = chance(1, 8) ? (size_t)range(0, 190) : (size_t)range(0, 16);
      if (n + 34 + r.custom.size() > room) n = room > 34 + r.custom.size() ? room - 34 - r.custom.size() : 0;
      bool special = n < 60 && chance(1, 3);
      for (size_t i = 0; i < n; i++) r.text += special ? pick(std::vector<char>{'<', '&', '>', '"', '%', '\'', ';'}) : (char)range(32, 126);
      if (!special) for (auto &c : r.text) if (strchr("<&>\"", c)) c = 'x';
      data.push_back((uint8_t)n);
      data.insert(data.end(), r.text.rbegin(), r.text.rend());
      break;
    }
    case 20: case 21: case 22: {                         // points in time
      r.num = false;
      r.has_custom = false;
      r.custom.clear();
      int y = (int)range(0, 80), mo = (int)range(1, 12), day = (int)range(1, 31), h = (int)range(0, 23), mi = (int)range(0, 59), s = 0;
      uint8_t d0 = (uint8_t)(day | (y & 7) << 5), d1 = (uint8_t)(mo | (y >> 3) << 4);
      if (kind == 20) {
        df = 2;
        r.u = DATE;
        data = {d0, d1};
        r.text = strf("%04d-%02d-%02d", 2000 + y, mo, day);
      } else {
        r.u = chance(1, 5) ? BATTERY : chance(1, 5) ? START : TIME;
        int year = 2000 + y;
        if (kind == 21) {
          df = 4;
          int hy = 1;
          if (chance(1, 3)) hy = 0;
          if (chance(1, 6)) { hy = (int)range(1, 3); y = (int)range(0, 99); year = 1900 + 100 * hy + y; d0 = (uint8_t)(day | (y & 7) << 5); d1 = (uint8_t)(mo | (y >> 3) << 4); }
          else
          if (chance(1, 6)) { y = (int)range(81, 99); hy = 0; year = 1900 + y; d0 = (uint8_t)(day | (y & 7) << 5); d1 = (uint8_t)(mo | (y >> 3) << 4); }
          data = {(uint8_t)mi, (uint8_t)(h | hy << 5 | (chance(1, 6) ? 0x80 : 0)), d0, d1};   // the highest bit: summer time
        } else {
          df = 6;
          s = (int)range(0, 59);
          data = {(uint8_t)(s | (chance(1, 6) ? 0x40 : 0)), (uint8_t)mi, (uint8_t)(h | (int)choose(8) << 5), d0, d1, (uint8_t)choose(54)};
        }
        r.text = strf("%04d-%02d-%02dT%02d:%02d:%02dZ", year, mo, day, h, mi, s);
      }
      break;
    }
    default: {
      df = (uint8_t)kind;
      int n = kind == 6 ? 6 : kind == 7 ? 8 : kind;
      int64_t v = some_int(n);
      for (int i = 0; i < n; i++) data.push_back((uint8_t)(v >> (8 * i)));
      r.value = (double)v * r.u.factor + r.off;
      r.plain = std::to_string(v);
    }
  }
  if (!r.num) r.plain = kind < 20 || r.text.back() != 'Z' ? r.text : r.text.substr(0, r.text.size() - 1);
  r.raw.push_back((uint8_t)(df | r.func << 4 | (storage & 1) << 6 | (ndife ? 0x80 : 0)));
  for (int i = 0; i < ndife; i++)
    r.raw.push_back((uint8_t)((storage >> (1 + 4 * i) & 15) | (tariff >> (2 * i) & 3) << 4 | (device >> i & 1) << 6 | (i + 1 < ndife ? 0x80 : 0)));
  if (vife && kind >= 20) qualify(false);
  if (r.u.ext) { r.vib = {r.u.ext}; vifes.insert(vifes.begin(), r.u.vif); }
  else r.vib = {(uint8_t)(r.u.vif | (vifes.empty() ? 0 : 0x80))};
  if (r.has_custom) { r.vib.push_back((uint8_t)r.custom.size()); r.vib.insert(r.vib.end(), r.custom.rbegin(), r.custom.rend()); }
  for (size_t i = 0; i < vifes.size(); i++) r.vib.push_back((uint8_t)(vifes[i] | (i + 1 < vifes.size() ? 0x80 : 0)));
  r.raw.insert(r.raw.end(), r.vib.begin(), r.vib.end());
  r.raw.insert(r.raw.end(), data.begin(), data.end());
  return r;
}
std::vector<Reg> gen_telegram(bool more, Bytes &out, bool tiny) {
  std::vector<Reg> v;
  size_t room = 252 - 12 - (more ? 1 : 0);
  int n = tiny ? 1 : chance(1, 6) ? 60 : (int)range(1, 6);
  for (int i = 0; i < n; i++) {
    if (chance(1, 12) && out.size() < room) { out.push_back(0x2F); }
    if (room - out.size() < 40 && chance(1, 2)) break;
    Reg r = gen_reg(room - out.size());
    if (out.size() + r.raw.size() > room) break;
    out.insert(out.end(), r.raw.begin(), r.raw.end());
    v.push_back(r);
    if (!r.num && !r.u.ext && r.u.vif < 0x6C) probe("text in a register with a unit");
    if (r.raw.size() > 100) probe("long text");
  }
  if (more) out.push_back(0x1F);
  return v;
}
const char *FUNC[] = {"Instantaneous value", "Maximum value", "Minimum value", "Value during error state"};
bool close_to(double a, double b, double abs, double off = 0) { return std::fabs(a - b) <= 1e-9 * (std::fabs(b) + off) + abs; }

void check_records(const mbus_frame *f, const std::vector<Reg> &want, size_t pos) {
  mbus_frame_data *d = mbus_frame_data_new();
  REQUIRE(d, "decode", "no frame data");
  int r = mbus_frame_data_parse((mbus_frame *)f, d);
  REQUIRE(r == 0 && d->type == MBUS_DATA_TYPE_VARIABLE, "decode", "telegram %zu of a successful readout is not understood: %s", pos, canon(f).c_str());
  size_t i = 0;
  for (mbus_data_record *rec = d->data_var.record; rec; rec = (mbus_data_record *)rec->next) {
    if (rec->drh.dib.dif == 0x1F) { REQUIRE(!rec->next, "extra", "records after the end of telegram %zu", pos); break; }
    REQUIRE(i < want.size(), "extra", "telegram %zu lists more than its %zu registers", pos, want.size());
    const Reg &w = want[i];
    std::string id = strf("telegram %zu register %zu (%s)", pos, i, hex(w.raw).c_str());
    mbus_record *n = mbus_parse_variable_record(rec);
    REQUIRE(n, "decode", "%s is not understood", id.c_str());
    REQUIRE(n->function_medium && !strcmp(n->function_medium, FUNC[w.func]), "function", "%s: function %s, not %s", id.c_str(), n->function_medium, FUNC[w.func]);
    REQUIRE((uint64_t)n->storage_number == w.storage, "storage", "%s: storage number %ld, not %llu", id.c_str(), n->storage_number, (unsigned long long)w.storage);
    REQUIRE(w.ext ? n->tariff == w.tariff : n->tariff <= 0, "tariff", "%s: tariff %ld, not %ld", id.c_str(), n->tariff, w.tariff);
    REQUIRE(w.ext ? n->device == w.device : n->device <= 0, "subunit", "%s: subunit %d, not %d", id.c_str(), n->device, w.device);
    bool start = w.u.ext == 0xFD && w.u.vif == 0x30;       // the normalized form does not name this one
    if (!start) REQUIRE(n->unit && !strcmp(n->unit, w.u.unit), "unit", "%s: unit %s, not %s", id.c_str(), n->unit, w.u.unit);
    const std::string quantity = w.has_custom ? w.custom : w.u.quantity;
    if (!start) REQUIRE(n->quantity && quantity == n->quantity, "quantity", "%s: quantity %s, not %s", id.c_str(), n->quantity, quantity.c_str());
    REQUIRE(!!n->is_numeric == w.num, "value", "%s: %s", id.c_str(), w.num ? "text for a number" : "a number for text");
    if (w.num) REQUIRE(close_to(n->value.real_val, w.value, 0, w.off), "value", "%s: value %.17g, not %.17g", id.c_str(), n->value.real_val, w.value);
    else {
      std::string s(n->value.str_val.value ? n->value.str_val.value : "(null)", n->value.str_val.value ? n->value.str_val.size : 6);
      REQUIRE(s == w.text, "value", "%s: text '%s', not '%s'", id.c_str(), s.c_str(), w.text.c_str());
    }
    mbus_record_free(n);
    i++;
  }
  REQUIRE(i == want.size(), "lost", "telegram %zu lists %zu of its %zu registers", pos, i, want.size());
  // the same as text
  char *xml = mbus_frame_data_xml_normalized(d);
  REQUIRE(xml, "xml", "no text for telegram %zu", pos);
  std::string x = xml;
  sim_free(xml);
  mbus_data_record_free(d->data_var.record);
  d->data_var.record = nullptr;
  mbus_frame_data_free(d);
  size_t at = 0;
  for (size_t k = 0; k < want.size(); k++) {
    const Reg &w = want[k];
    size_t b = x.find("<DataRecord", at), e = x.find("</DataRecord>", at);
    REQUIRE(b != std::string::npos && e != std::string::npos, "xml", "the text of telegram %zu ends at register %zu of %zu", pos, k, want.size());
    std::string rec = x.substr(b, e - b);
    at = e + 13;
    auto field = [&](const char *n) { return xml_field(rec, n); };
    std::string id = strf("text of telegram %zu register %zu (%s)", pos, k, hex(w.raw).c_str());
    REQUIRE(field("Function") == FUNC[w.func], "xml:function", "%s: function %s", id.c_str(), field("Function").c_str());
    REQUIRE(field("StorageNumber") == strf("%llu", (unsigned long long)w.storage), "xml:storage", "%s: storage number %s, not %llu", id.c_str(), field("StorageNumber").c_str(), (unsigned long long)w.storage);
    if (w.ext) {
      REQUIRE(field("Tariff") == strf("%ld", w.tariff), "xml:tariff", "%s: tariff %s, not %ld", id.c_str(), field("Tariff").c_str(), w.tariff);
      REQUIRE(field("Device") == strf("%d", w.device), "xml:subunit", "%s: subunit %s, not %d", id.c_str(), field("Device").c_str(), w.device);
    }
    bool start = w.u.ext == 0xFD && w.u.vif == 0x30;
    if (!start) REQUIRE(field("Unit") == w.u.unit, "xml:unit", "%s: unit %s, not %s", id.c_str(), field("Unit").c_str(), w.u.unit);
    if (!start) REQUIRE(field("Quantity") == (w.has_custom ? w.custom : w.u.quantity), "xml:quantity", "%s: quantity %s", id.c_str(), field("Quantity").c_str());
    if (w.num) {
      char *end;
      std::string v = field("Value");
      double g = strtod(v.c_str(), &end);
      REQUIRE(!v.empty() && !*end && close_to(g, w.value, 1e-6, w.off), "xml:value", "%s: value %s, not %.17g", id.c_str(), v.c_str(), w.value);
    } else REQUIRE(field("Value") == w.text, "xml:value", "%s: text '%s', not '%s'", id.c_str(), field("Value").c_str(), w.text.c_str());
  }
}
}
// a bus of meters with generated registers under faults, read one after another; whatever a successful readout returned goes to check
static void readouts(const std::function<void(const std::vector<const mbus_frame *> &, const std::vector<std::vector<Reg>> &, const Meter &)> &check) {
  Bus &b = gen_bus(false);
  Port *p = b.port;
  Master m = open_master(0);
  gen_meters(b, PopOpt());
  std::vector<std::vector<std::vector<Reg>>> all;
  for (auto &mt : b.meters) {
    std::vector<std::vector<Reg>> regs;
    if (chance(1, 2)) mt.med = (uint8_t)choose(chance(1, 4) ? 256 : 0x38);
    if (mt.med == 0xFF) mt.med = 7;
    if (chance(1, 3)) { uint32_t id = dec_id(choose(chance(1, 2) ? 100000000 : 1000)); bool taken = false; for (auto &x : b.meters) if (x.id == id) taken = true; if (!taken) mt.id = id; }
    if (chance(1, 3)) { int man = (int)range(1, 26) << 10 | (int)range(1, 26) << 5 | (int)range(1, 26); mt.man[0] = (uint8_t)man; mt.man[1] = (uint8_t)(man >> 8); }
    int n = chance(1, 8) ? (int)range(4, 9) : (int)range(1, 3);
    if (&mt == &b.meters[0] && chance(1, 500)) n = (int)range(255, 290);
    mt.telegrams.clear();
    for (int i = 0; i < n; i++) {
      Bytes t;
      regs.push_back(gen_telegram(i + 1 < n, t, n > 200));
      mt.telegrams.push_back(t);
    }
    mt.cursor %= (size_t)n;
    all.push_back(regs);
  }
  for (auto &mt : b.meters) if (mt.l0.valid) { mt.l0.last = mt.telegram(0); mt.l0.last_idx = 0; if (mt.lfd.valid) { mt.lfd.last = mt.l0.last; mt.lfd.last_idx = 0; } }
  gen_faults(b, ALL_FAULTS);
  if (chance(1, 8)) for (auto &x : b.meters) x.app_error_rate = (int)range(5, 40);
  b.segments = chance(1, 2);
  b.gaps = chance(1, 3);
  b.echo = chance(1, 6);
  p->cfg_short_read = chance(1, 6);
  if (chance(1, 10)) break_transport(p, g_now + range(1, 4000) * MS, (int)choose(2));
  bool sec = chance(1, 3);
  int rounds = (int)range(1, 2);
  for (int i = 0; i < rounds; i++) {
    size_t which = choose((uint32_t)b.meters.size());
    Meter &mt = b.meters[which];
    uint64_t g0 = mt.generation;
    bool reset = false;
    for (int k = 0; k < 6 && !reset; k++) {
      if (sec) {
        int r = mbus_select_secondary_address(m.h, mt.address().c_str());
        if (r != MBUS_PROBE_SINGLE) mbus_purge_frames(m.h);
        reset = mt.generation > g0 && mt.selected;
        for (auto &x : b.meters) if (&x != &mt && x.selected) reset = false;
      } else {
        mbus_send_ping_frame(m.h, mt.addr, 1);
        reset = mt.generation > g0;
      }
    }
    if (!reset) continue;
    mbus_frame reply;
    memset(&reply, 0, sizeof reply);
    int r = mbus_sendrecv_request(m.h, sec ? 0xFD : mt.addr, &reply, 0);
    shape(0x1800 + (r ? 1 : 0) + 2 * (uint32_t)mt.telegrams.size());
    auto ch = chain(&reply);
    bool refused = r == 0 && ch.size() == 1 && ch[0]->control_information == 0x70;
    if (refused) probe("application error handed out");
    else if (r == 0) {
      REQUIRE(ch.size() == mt.telegrams.size(), "telegrams", "a successful readout of %zu telegrams returns %zu", mt.telegrams.size(), ch.size());
      check(ch, all[which], mt);
      if (faults_total()) probe("registers exact despite faults");
    }
    free_chain(&reply);
    mbus_purge_frames(m.h);
  }
  close_master(m);
}
static void c18() {
  readouts([](const std::vector<const mbus_frame *> &ch, const std::vector<std::vector<Reg>> &regs, const Meter &) {
    for (size_t j = 0; j < ch.size(); j++) check_records(ch[j], regs[j], j);
  });
}
PROPERTY("C18", c18, 80000, 2000000,
  "one run: 1 to 3 meters with 1 to 9 telegrams of up to 60 generated registers (all functions, storage up to 41 bits, tariff up to 20, subunit up to 10; integers, BCD, reals, text, dates; every primary and extended unit, units in plain text, correction factors), read out by primary or secondary address under loss, damage, truncation, duplication, late replies, noise and failing transports; records and normalized XML compared with the registers; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")

// ------------------------------------------------------------------ C25
// what a unit in the plain XML says: a name, and a factor to a base unit
static std::string norm(const std::string &s) { std::string o; for (unsigned char c : s) if (isalnum(c)) o += (char)tolower(c); return o; }
static bool prefixed(std::string s, const std::string &base, double *f) {   // "100 k" + base, "1e-2  " + base, ...
  auto trim = [](std::string x) { size_t a = x.find_first_not_of(' '), b = x.find_last_not_of(' '); return a == std::string::npos ? std::string() : x.substr(a, b - a + 1); };
  s = trim(s);
  if (s.size() < base.size() || s.compare(s.size() - base.size(), base.size(), base)) return false;
  s = trim(s.substr(0, s.size() - base.size()));
  double k = 1;
  if (!s.empty() && isdigit((unsigned char)s[0])) {
    char *e;
    k = strtod(s.c_str(), &e);
    s = trim(e);
  }
  static const std::pair<const char *, double> si[] = {{"", 1}, {"k", 1e3}, {"M", 1e6}, {"G", 1e9}, {"m", 1e-3}, {"my", 1e-6}};
  for (auto &x : si) if (s == x.first) { *f = k * x.second; return true; }
  return false;
}
static double seconds_of(const std::string &s) {
  std::string n = norm(s);
  static const std::pair<const char *, double> t[] = {{"second", 1}, {"minute", 60}, {"hour", 3600}, {"day", 86400}, {"month", 2629743.83}, {"year", 31556926}};
  for (auto &x : t) if (!n.compare(0, strlen(x.first), x.first) && n.size() <= strlen(x.first) + 3) return x.second;
  return 0;
}
// does the text name this quantity and this factor?
static bool unit_says(const std::string &text, const Unit &u, double factor, std::string *why) {
  std::string q = u.quantity, unit = u.unit, n = norm(text);
  auto same = [&](double f) { if (std::fabs(f - factor) <= 1e-6 * factor) return true; *why = strf("a factor of %g instead of %g", f, factor); return false; };
  if (unit == "Currency units") {
    size_t a = text.find(" of "), b = text.find(" of the");
    double f;
    if (a == std::string::npos || b == std::string::npos || b < a || n.compare(0, norm(q).size(), norm(q))) { *why = "another quantity"; return false; }
    if (!prefixed(b > a ? text.substr(a + 4, b - a - 4) : "", "", &f)) { *why = "no known factor"; return false; }
    return same(f);
  }
  if (u.ext == 0xFD && (unit == "V" || unit == "A")) {
    double f;
    if (!prefixed(text, unit, &f)) { *why = "another unit"; return false; }
    return same(f);
  }
  if (unit == "" || unit == "-" || unit == "Baud" || unit == "Bittimes" || unit == "Units for H.C.A.") {
    std::string w = norm(unit == "Units for H.C.A." ? unit : q.substr(0, q.find_first_of(" (")));
    if (w == "fabrication") w = "fabrication";
    if (n.compare(0, w.size(), w)) { *why = "another quantity"; return false; }
    return true;
  }
  if (n.compare(0, norm(q).size(), norm(q))) { *why = "another quantity"; return false; }
  if (unit == "s") {
    std::string w;
    for (size_t i = 0, left = norm(q).size(); i < text.size(); i++) { if (left) { if (isalnum((unsigned char)text[i])) left--; } else w += text[i]; }
    double f = seconds_of(w);
    if (!f) { *why = "no known duration"; return false; }
    return same(f);
  }
  size_t a = text.find('('), b = text.rfind(')');
  if (a == std::string::npos || b == std::string::npos || b < a) { *why = "no unit"; return false; }
  if (norm(text.substr(0, a)) != norm(q)) { *why = "another quantity"; return false; }
  std::string in = text.substr(a + 1, b - a - 1);
  std::vector<std::pair<std::string, double>> bases = {{unit, 1}};
  if (unit == "kg") bases.push_back({"t", 1000});
  if (unit == "m^3") bases.push_back({"m3", 1});
  if (unit == "\xC2\xB0" "C" || unit == "K") { bases.push_back({"deg C", 1}); bases.push_back({"degree C", 1}); }
  if (unit == "\xC2\xB0" "F") { bases.push_back({"deg F", 1}); bases.push_back({"degree F", 1}); }
  if (unit.compare(0, 8, "American") == 0) { unit[0] = 'a'; bases.push_back({unit, 1}); }
  for (auto &x : bases) { double f; if (prefixed(in, x.first, &f)) return same(f * x.second); }
  *why = "another unit";
  return false;
}
static const std::map<int, const char *> MEDIA = {               // what a header byte stands for
  {0x00, "other"}, {0x01, "oil"}, {0x02, "electricity"}, {0x03, "gas"}, {0x04, "heatoutlet"}, {0x05, "steam"}, {0x06, "warmwater"}, {0x07, "water"}, {0x08, "heatcostallocator"}, {0x09, "compressedair"},
  {0x0A, "coolingloadmeteroutlet"}, {0x0B, "coolingloadmeterinlet"}, {0x0C, "heatinlet"}, {0x0D, "heatcoolingloadmeter"}, {0x0E, "bussystem"}, {0x0F, "unknown"}, {0x15, "hotwater"}, {0x16, "coldwater"},
  {0x17, "dualwater"}, {0x18, "pressure"}, {0x19, "adconverter"}, {0x1A, "smoke"}, {0x20, "breakerelectricity"}, {0x21, "valve"}, {0x25, "customerunit"}, {0x28, "wastewater"}, {0x29, "garbage"}, {0x37, "radioconvertermeter"}, {0x36, "radioconvertersystem"}};
static void check_plain(const std::vector<const mbus_frame *> &ch, const std::vector<std::vector<Reg>> &regs, const Meter &mt) {
  char *xml = mbus_frame_xml((mbus_frame *)ch[0]);
  REQUIRE(xml, "xml", "no XML for a successful readout of %zu telegrams", ch.size());
  std::string x = xml;
  sim_free(xml);
  size_t end = x.find("</MBusData>");
  REQUIRE(x.find("<?xml") == 0 && x.find("<MBusData>") != std::string::npos && end != std::string::npos && x.find_first_not_of("\n", end + 11) == std::string::npos, "xml", "not one whole document");
  // the meter
  std::string head = x.substr(0, x.find("</SlaveInformation>"));
  int man = mt.man[0] | mt.man[1] << 8;
  std::string letters = {(char)('@' + (man >> 10 & 31)), (char)('@' + (man >> 5 & 31)), (char)('@' + (man & 31))};
  REQUIRE(strtoul(xml_field(head, "Id").c_str(), nullptr, 16) == mt.id, "header", "Id %s of meter %08X", xml_field(head, "Id").c_str(), mt.id);
  REQUIRE(xml_field(head, "Manufacturer") == letters, "header", "Manufacturer %s, not %s", xml_field(head, "Manufacturer").c_str(), letters.c_str());
  REQUIRE(xml_field(head, "Version") == std::to_string(mt.ver), "header", "Version %s, not %d", xml_field(head, "Version").c_str(), mt.ver);
  REQUIRE(xml_field(head, "AccessNumber") == std::to_string(ch[0]->data[8]), "header", "AccessNumber %s, not %d", xml_field(head, "AccessNumber").c_str(), ch[0]->data[8]);
  REQUIRE(xml_field(head, "Status") == strf("%02X", mt.status), "header", "Status %s, not %02X", xml_field(head, "Status").c_str(), mt.status);
  REQUIRE(xml_field(head, "Signature") == strf("%02X%02X", ch[0]->data[11], ch[0]->data[10]), "header", "Signature %s, not %02X%02X", xml_field(head, "Signature").c_str(), ch[0]->data[11], ch[0]->data[10]);
  auto med = MEDIA.find(mt.med);
  std::string medium = xml_field(head, "Medium");
  if (med != MEDIA.end()) REQUIRE(!norm(medium).compare(0, strlen(med->second), med->second), "header", "Medium '%s' of a meter with %02X", medium.c_str(), mt.med);
  // its registers
  size_t at = 0, id = 0;
  for (size_t j = 0; j < regs.size(); j++) {
    for (size_t k = 0; k <= regs[j].size(); k++) {
      bool more = k == regs[j].size();
      if (more && j + 1 == regs.size()) break;
      size_t b = x.find("<DataRecord", at), e = x.find("</DataRecord>", at), h = b == std::string::npos ? b : x.find('>', b);
      REQUIRE(b != std::string::npos && e != std::string::npos && h < e, "lost", "the document ends before register %zu of telegram %zu", k, j);
      std::string tag = x.substr(b, h - b), rec = x.substr(h, e - h);
      at = e + 13;
      REQUIRE(tag.find(strf("id=\"%zu\"", id)) != std::string::npos, "order", "record %zu is tagged %s", id, tag.c_str());
      if (regs.size() > 1) REQUIRE(tag.find(strf("frame=\"%zu\"", j)) != std::string::npos, "order", "a record of telegram %zu is tagged %s", j, tag.c_str());
      id++;
      if (more) { REQUIRE(xml_field(rec, "Function") == "More records follow", "lost", "the end of telegram %zu is shown as %s", j, xml_field(rec, "Function").c_str()); continue; }
      const Reg &w = regs[j][k];
      std::string me = strf("telegram %zu register %zu (%s)", j, k, hex(w.raw).c_str());
      REQUIRE(xml_field(rec, "Function") == FUNC[w.func], "function", "%s: function %s", me.c_str(), xml_field(rec, "Function").c_str());
      REQUIRE(xml_field(rec, "StorageNumber") == strf("%llu", (unsigned long long)w.storage), "storage", "%s: storage number %s, not %llu", me.c_str(), xml_field(rec, "StorageNumber").c_str(), (unsigned long long)w.storage);
      if (w.ext) {
        REQUIRE(xml_field(rec, "Tariff") == strf("%ld", w.tariff), "tariff", "%s: tariff %s, not %ld", me.c_str(), xml_field(rec, "Tariff").c_str(), w.tariff);
        REQUIRE(xml_field(rec, "Device") == strf("%d", w.device), "subunit", "%s: subunit %s, not %d", me.c_str(), xml_field(rec, "Device").c_str(), w.device);
      }
      std::string v = xml_field(rec, "Value"), unit = xml_field(rec, "Unit"), why;
      if (w.num && w.plain.empty()) {
        char *q;
        double g = strtod(v.c_str(), &q);
        REQUIRE(!v.empty() && !*q && close_to(g, w.real, 1e-6), "value", "%s: value %s, not %.9g", me.c_str(), v.c_str(), w.real);
      } else REQUIRE(v == w.plain, "value", "%s: value '%s', not '%s'", me.c_str(), v.c_str(), w.plain.c_str());
      if (w.has_custom) {
        if (w.vib[0] == 0x7C) REQUIRE(unit == w.custom, "unit", "%s: unit '%s', not '%s'", me.c_str(), unit.c_str(), w.custom.c_str());
        continue;
      }
      if (!w.u.ext && w.u.vif == 0x79) continue;           // shown as unknown
      if (w.u.vif == 0x6C || w.u.vif == 0x6D || !w.num) { if (!w.u.ext && (w.u.vif & 0x7E) == 0x6C) { REQUIRE(!norm(unit).compare(0, 9, "timepoint"), "unit", "%s: unit '%s'", me.c_str(), unit.c_str()); continue; } }
      REQUIRE(unit_says(unit, w.u, w.base, &why), "unit", "%s: unit '%s' names %s", me.c_str(), unit.c_str(), why.c_str());
      if (w.scaled) probe("corrected unit shown without its correction");
    }
  }
  REQUIRE(x.find("<DataRecord", at) == std::string::npos, "extra", "records behind the last register");
}
static void c25() { readouts(check_plain); }
PROPERTY("C25", c25, 80000, 2000000,
  "one run: the workload of C18; the plain XML document of a successful readout (all telegrams in one) is compared with the registers: identity, order, function, storage, tariff, subunit, value as sent, and a unit text whose name and factor are those of the register; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")
