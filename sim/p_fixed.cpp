// C26: meters that answer with the fixed data structure, or with an application error
#include "drv.h"
#include <climits>

extern "C" void sim_free(void *);
extern "C" int tool_mbus_serial_request_data(int, char **);
extern "C" int tool_mbus_tcp_request_data(int, char **);
extern "C" int tool_mbus_serial_request_data_multi_reply(int, char **);
extern "C" int tool_mbus_tcp_request_data_multi_reply(int, char **);

namespace {
// the units of EN 1434-3 / EN 13757-3 fixed data: a run of decades each
struct FixedUnit { double factor; std::string base, quantity, text; };
FixedUnit fixed_unit(int code) {
  static const struct { int first, n; double f; const char *base, *quantity; const char *names[3]; } runs[] = {
    {0x02, 9, 1e0, "Wh", "Energy", {"Wh", "kWh", "MWh"}},
    {0x0B, 9, 1e3, "J", "Energy", {"kJ", "MJ", "GJ"}},
    {0x14, 9, 1e0, "W", "Power", {"W", "kW", "MW"}},
    {0x1D, 9, 1e3, "J/h", "Power", {"kJ/h", "MJ/h", "GJ/h"}},
    {0x26, 9, 1e-6, "m^3", "Volume", {"ml", "l", "m^3"}},
    {0x2F, 9, 1e-6, "m^3/h", "Volume flow", {"ml/h", "l/h", "m^3/h"}},
  };
  static const char *ten[] = {"", "10 ", "100 "};
  for (auto &r : runs)
    if (code >= r.first && code < r.first + r.n) {
      int k = code - r.first;
      return {r.f * std::pow(10, k), r.base, r.quantity, std::string(ten[k % 3]) + r.names[k / 3]};
    }
  switch (code) {
    case 0x00: return {0, "h,m,s", "Time", "h,m,s"};
    case 0x01: return {0, "D,M,Y", "Time", "D,M,Y"};
    case 0x38: return {1e-3, "\xC2\xB0" "C", "Temperature", "1e-3 \xC2\xB0" "C"};
    case 0x39: return {1, "Units for H.C.A.", "H.C.A.", "units for HCA"};
    case 0x3E: return {1, "", "historic", "historic"};
    case 0x3F: return {1, "", "No units", "without units"};
  }
  return {0, "Reserved", "Reserved", "reserved"};
}
const char *MEDIA[] = {"Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "Reserved", "Gas Mode 2", "Heat Mode 2", "Hot Water Mode 2", "Water Mode 2", "H.C.A. Mode 2", "Reserved"};
}
std::string fixed_unit_text(int code) { return fixed_unit(code & 63).text; }
std::string fixed_medium_text(int t1, int t2) { return MEDIA[(t1 >> 6 & 3) | (t2 >> 6 & 3) << 2]; }
namespace {
struct Counter { int unit; bool bcd; Bytes raw; long value; std::string plain; };
struct Fixed { uint8_t status; int medium; Counter c[2]; };
Counter gen_counter(bool bcd) {
  Counter c;
  c.unit = (int)choose(64);
  c.bcd = bcd;
  c.value = 0;
  uint32_t v = 0;
  if (bcd) {
    int digits = (int)range(0, 8);
    for (int i = 0; i < digits; i++) v |= choose(10) << (4 * i);
    bool neg = digits < 8 && chance(1, 6);
    for (int i = 7; i >= 0; i--) c.value = c.value * 10 + (v >> (4 * i) & 15);
    if (neg) { v = (v & 0x0FFFFFFF) | 0xF0000000; c.value = -c.value; }
    c.plain = strf("%X", v);                             // the digits as they are
  } else {
    switch (choose(4)) {
      case 0: v = choose(1000); break;
      case 1: v = 0x7FFFFFFF - choose(3); break;
      case 2: v = (choose(0x10000) << 16 | choose(0x10000)); break;
      case 3: v = 0x80000000u + choose(3); break;
    }
    c.value = (int32_t)v;
    c.plain = std::to_string(c.value);
  }
  for (int i = 0; i < 4; i++) c.raw.push_back((uint8_t)(v >> (8 * i)));
  return c;
}
std::string letters(const std::string &s) { std::string o; for (unsigned char ch : s) if (isalnum(ch)) o += (char)tolower(ch); return o; }
void check_doc(const std::string &x, const Meter &mt, const Fixed &w, const Bytes &sent) {
  REQUIRE(x.find("<?xml") == 0 && x.find("<MBusData>") != std::string::npos && x.find("</MBusData>") != std::string::npos, "xml", "not one whole document");
  std::string head = x.substr(0, x.find("</SlaveInformation>"));
  REQUIRE(strtoul(xml_field(head, "Id").c_str(), nullptr, 16) == mt.id, "header", "Id %s of meter %08X", xml_field(head, "Id").c_str(), mt.id);
  REQUIRE(letters(xml_field(head, "Medium")) == letters(MEDIA[w.medium]), "medium", "medium '%s', not '%s'", xml_field(head, "Medium").c_str(), MEDIA[w.medium]);
  REQUIRE(xml_field(head, "AccessNumber") == std::to_string(sent[11]), "header", "AccessNumber %s, not %d", xml_field(head, "AccessNumber").c_str(), sent[11]);
  REQUIRE(xml_field(head, "Status") == strf("%02X", w.status), "header", "Status %s, not %02X", xml_field(head, "Status").c_str(), w.status);
  size_t at = 0;
  for (int i = 0; i < 2; i++) {
    size_t b = x.find("<DataRecord", at), e = x.find("</DataRecord>", at);
    REQUIRE(b != std::string::npos && e != std::string::npos, "lost", "counter %d is missing", i + 1);
    std::string rec = x.substr(b, e - b), id = strf("counter %d (%s type %02X status %02X)", i + 1, hex(w.c[i].raw).c_str(), w.c[i].unit, w.status);
    at = e + 13;
    REQUIRE(rec.find(strf("id=\"%d\"", i)) != std::string::npos, "order", "%s has no id %d", id.c_str(), i);
    REQUIRE(xml_field(rec, "Function") == (w.status & 0x40 ? "Stored value" : "Actual value"), "function", "%s: function %s", id.c_str(), xml_field(rec, "Function").c_str());
    std::string u = xml_field(rec, "Unit"), v = xml_field(rec, "Value"), want = fixed_unit(w.c[i].unit).text;
    if (want == "historic") REQUIRE(u.find("historic") != std::string::npos, "unit", "%s: unit '%s'", id.c_str(), u.c_str());
    else if (want == "reserved") REQUIRE(letters(u) == "reserved", "unit", "%s: unit '%s'", id.c_str(), u.c_str());
    else REQUIRE(u == want, "unit", "%s: unit '%s', not '%s'", id.c_str(), u.c_str(), want.c_str());
    REQUIRE(v == w.c[i].plain, "value", "%s: value '%s', not '%s'", id.c_str(), v.c_str(), w.c[i].plain.c_str());
  }
  REQUIRE(x.find("<DataRecord", at) == std::string::npos, "extra", "more than two counters");
}
const char *ERRORS[] = {"unspecified", "unimplemented", "buffertoolong", "toomanyrecords", "prematureend", "morethan10dife", "morethan10vife", "reserved", "application", "toomanyreadouts"};
void check_error_doc(const std::string &x, const Bus &b, const Meter &mt) {
  std::string t = letters(xml_field(x, "Error"));
  REQUIRE(x.find("<DataRecord") == std::string::npos && xml_field(x, "Id") == "(none)", "error", "an application error is shown with data");
  bool ok = false;
  for (auto &s : b.sent)
    if (s.meter == mt.idx && s.telegram == -2 && s.reached) {
      int code = s.b.size() > 9 ? s.b[7] : 0;
      std::string want = code < 10 ? ERRORS[code] : "unknown";
      if (!t.compare(0, want.size(), want) && (code != 8 || t.find("busy") != std::string::npos) && (code < 10 || t.find(letters(strf("%02x", code))) != std::string::npos)) ok = true;
    }
  REQUIRE(ok, "error", "the text '%s' is none of the application errors the meter sent", t.c_str());
  probe("application error shown");
}
}

static void c26() {
  bool by_tool = chance(1, 4);
  bool tcp = chance(1, 2);
  Bus *bp;
  if (by_tool) { bp = &g_world->add(tcp ? P_TCP : P_TTY, 9600); bp->segments = chance(1, 2); bp->gaps = chance(1, 2); }
  else bp = &gen_bus(false);
  Bus &b = *bp;
  Port *p = b.port;
  Master m;
  if (!by_tool) m = open_master(0);
  gen_meters(b, PopOpt());
  std::vector<Fixed> all;
  for (auto &mt : b.meters) {
    Fixed w;
    bool bcd = chance(1, 2);
    w.status = (uint8_t)((bcd ? 0 : 0x80) | (chance(1, 3) ? 0x40 : 0) | (chance(1, 2) ? 0 : choose(64)));
    w.medium = (int)choose(16);
    for (int i = 0; i < 2; i++) w.c[i] = gen_counter(bcd);
    Bytes t = {w.status, (uint8_t)(w.c[0].unit | (w.medium & 3) << 6), (uint8_t)(w.c[1].unit | (w.medium >> 2) << 6)};
    for (int i = 0; i < 2; i++) t.insert(t.end(), w.c[i].raw.begin(), w.c[i].raw.end());
    mt.fixed = true;
    mt.telegrams = {t};
    mt.cursor = 0;
    mt.selected = false;
    mt.lfd = Link();
    mt.status = w.status;
    if (mt.l0.valid) { mt.l0.last = mt.telegram(0); mt.l0.last_idx = 0; }
    all.push_back(w);
  }
  gen_faults(b, ALL_FAULTS);
  if (by_tool) { auto &k = b.kinds; k.erase(std::remove(k.begin(), k.end(), RF_STRAY_ACK), k.end()); if (k.empty()) b.rate = 0; }
  if (chance(1, 3)) for (auto &x : b.meters) x.app_error_rate = (int)range(5, 100);
  b.segments = chance(1, 2);
  b.gaps = chance(1, 3);
  b.echo = chance(1, 6);
  p->cfg_short_read = chance(1, 6);
  bool broke = chance(1, 10);
  if (broke) break_transport(p, g_now + range(1, 4000) * MS, (int)choose(2));
  size_t which = choose((uint32_t)b.meters.size());
  Meter &mt = b.meters[which];
  const Fixed &w = all[which];
  auto sent_here = [&](long access) -> const Sent * { for (auto &s : b.sent) if (s.meter == mt.idx && s.telegram >= 0 && s.reached && s.b[11] == access) return &s; return nullptr; };
  if (by_tool) {
    bool multi = chance(1, 2);
    std::vector<std::string> args = {"mbus-request-data"};
    if (tcp) { args.push_back("gw0"); args.push_back("10001"); } else args.push_back("/dev/sim0");
    args.push_back(std::to_string(mt.addr));
    int code = run_main(multi ? (tcp ? tool_mbus_tcp_request_data_multi_reply : tool_mbus_serial_request_data_multi_reply) : (tcp ? tool_mbus_tcp_request_data : tool_mbus_serial_request_data), args);
    shape(0x2600 + (multi ? 1 : 0) + (tcp ? 2 : 0) + (code ? 4 : 0));
    if (code) { if (!b.rate && !broke) fail("refused", "the readout tool fails without any fault: %s", g_err.substr(0, 200).c_str()); return; }
    std::string out = g_out.substr(std::min(g_out.size(), g_out.find("<?xml")));
    if (xml_field(out, "Error") != "(none)") { check_error_doc(out, b, mt); return; }
    const Sent *s = sent_here(atol(xml_field(out, "AccessNumber").c_str()));
    REQUIRE(s, "foreign", "the document has access number %s, the meter sent no such telegram", xml_field(out, "AccessNumber").c_str());
    check_doc(out, mt, w, s->b);
    probe("fixed data printed by a tool");
    return;
  }
  for (int i = (int)range(1, 2); i > 0; i--) {
    if (chance(1, 2)) mbus_send_ping_frame(m.h, mt.addr, 1);
    mbus_frame reply;
    memset(&reply, 0, sizeof reply);
    int r = mbus_sendrecv_request(m.h, mt.addr, &reply, (int)choose(3));
    shape(0x2610 + (r ? 1 : 0));
    auto ch = chain(&reply);
    if (r == 0) {
      REQUIRE(ch.size() == 1, "telegrams", "a readout of fixed data returns %zu telegrams", ch.size());
      char *xml = mbus_frame_xml(&reply);
      REQUIRE(xml, "xml", "no XML for a successful readout");
      std::string x = xml;
      sim_free(xml);
      mbus_frame_data *d = mbus_frame_data_new();
      REQUIRE(d && mbus_frame_data_parse(&reply, d) == 0, "decode", "a successful readout is not understood");
      char *norm = mbus_frame_data_xml_normalized(d);
      std::string n = norm ? norm : "";
      sim_free(norm);
      if (reply.control_information == 0x70) {
        REQUIRE(d->type == MBUS_DATA_TYPE_ERROR, "decode", "an application error is taken for data");
        check_error_doc(x, b, mt);
        if (!n.empty()) check_error_doc(n, b, mt);
      } else {
        REQUIRE(d->type == MBUS_DATA_TYPE_FIXED, "decode", "fixed data are taken for something else");
        const Sent *s = sent_here(reply.data[4]);
        REQUIRE(s && frame_bytes(&reply) == s->b, "foreign", "a telegram the meter did not send: %s", canon(&reply).c_str());
        check_doc(x, mt, w, s->b);
        check_doc(n, mt, w, s->b);
        for (int k = 0; k < 2; k++) {
          const Counter &c = w.c[k];
          FixedUnit u = fixed_unit(c.unit);
          std::string id = strf("counter %d (%s type %02X status %02X)", k + 1, hex(c.raw).c_str(), c.unit, w.status);
          mbus_record *rec = mbus_parse_fixed_record((char)d->data_fix.status, (char)(k ? d->data_fix.cnt2_type : d->data_fix.cnt1_type), k ? d->data_fix.cnt2_val : d->data_fix.cnt1_val);
          if (u.base == "h,m,s" || u.base == "D,M,Y") { mbus_record_free(rec); continue; } // no number
          REQUIRE(rec, "decode", "%s is not understood", id.c_str());
          REQUIRE(rec->function_medium && !strcmp(rec->function_medium, w.status & 0x40 ? "Stored value" : "Actual value"), "function", "%s: function %s", id.c_str(), rec->function_medium);
          REQUIRE(rec->unit && u.base == rec->unit, "unit", "%s: unit %s, not %s", id.c_str(), rec->unit, u.base.c_str());
          REQUIRE(rec->quantity && u.quantity == rec->quantity, "quantity", "%s: quantity %s, not %s", id.c_str(), rec->quantity, u.quantity.c_str());
          double want = (double)c.value * u.factor;
          REQUIRE(rec->is_numeric && std::fabs(rec->value.real_val - want) <= 1e-9 * std::fabs(want), "value", "%s: value %.17g, not %.17g", id.c_str(), rec->value.real_val, want);
          mbus_record_free(rec);
          if (faults_total()) probe("counter exact despite faults");
        }
      }
      mbus_frame_data_free(d);
    }
    free_chain(&reply);
    mbus_purge_frames(m.h);
  }
  close_master(m);
}
PROPERTY("C26", c26, 200000, 2000000,
  "one run: 1 to 3 meters with fixed data (both counters BCD or binary, every unit and medium, actual or stored) or an application error now and then, read by the library or one of the readout tools under loss, damage, truncation, duplication, late replies, noise and failing transports; records, documents and error texts compared with what the meter holds and sent; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")
