// C27: the documents of a readout, whatever the meter holds
#include "drv.h"
#include "recs.h"
#include <climits>

extern "C" void sim_free(void *);
extern "C" int tool_mbus_serial_request_data(int, char **);
extern "C" int tool_mbus_tcp_request_data(int, char **);
extern "C" int tool_mbus_serial_request_data_multi_reply(int, char **);
extern "C" int tool_mbus_tcp_request_data_multi_reply(int, char **);

namespace {
struct Node { std::string name; std::vector<std::pair<std::string, std::string>> attrs; std::string text; std::vector<Node> kids; };
// a small strict XML reader: one element tree, the five entities, no comments, no raw control characters
struct Reader {
  const std::string &s;
  size_t i = 0;
  std::string why;
  bool bad(const char *w) { if (why.empty()) why = strf("%s at byte %zu", w, i); return false; }
  void space() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t')) i++; }
  bool name(std::string &o) { while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '-')) o += s[i++]; return !o.empty() && isalpha((unsigned char)o[0]) ? true : bad("no name"); }
  bool chars(std::string &o, char end) {
    while (i < s.size() && s[i] != end) {
      unsigned char c = (unsigned char)s[i];
      if (c == '<') return bad("a raw <");
      if (c == '&') {
        static const std::pair<const char *, char> t[] = {{"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&apos;", '\''}};
        bool hit = false;
        for (auto &e : t) if (!s.compare(i, strlen(e.first), e.first)) { o += e.second; i += strlen(e.first); hit = true; break; }
        if (!hit) return bad("a raw &");
        continue;
      }
      if ((c < 32 && c != '\n' && c != '\r' && c != '\t') || c == 127) return bad("a control character");
      o += (char)c;
      i++;
    }
    return i < s.size() ? true : bad("the end");
  }
  bool element(Node &n) {
    if (i >= s.size() || s[i] != '<') return bad("no element");
    i++;
    if (!name(n.name)) return false;
    for (;;) {
      space();
      if (i < s.size() && s[i] == '>') { i++; break; }
      if (!s.compare(i, 2, "/>")) { i += 2; return true; }
      std::pair<std::string, std::string> a;
      if (!name(a.first)) return false;
      if (i + 1 >= s.size() || s[i] != '=' || s[i + 1] != '"') return bad("no attribute value");
      i += 2;
      if (!chars(a.second, '"')) return false;
      i++;
      for (auto &x : n.attrs) if (x.first == a.first) return bad("an attribute twice");
      n.attrs.push_back(a);
    }
    for (;;) {
      if (!chars(n.text, '<')) return false;
      if (!s.compare(i, 2, "</")) {
        i += 2;
        std::string e;
        if (!name(e)) return false;
        if (e != n.name) return bad("another element ends");
        space();
        if (i >= s.size() || s[i] != '>') return bad("no end of the element");
        i++;
        return true;
      }
      n.kids.emplace_back();
      if (!element(n.kids.back())) return false;
    }
  }
  bool document(Node &n) {
    static const std::string pi = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>";
    if (s.compare(0, pi.size(), pi)) return bad("no declaration");
    i = pi.size();
    space();
    if (!element(n)) return false;
    space();
    return i == s.size() ? true : bad("something behind the document");
  }
};
std::string attr(const Node &n, const char *a) { for (auto &x : n.attrs) if (x.first == a) return x.second; return "(none)"; }
const Node *kid(const Node &n, const char *a) { for (auto &x : n.kids) if (x.name == a) return &x; return nullptr; }
// what every document of variable data looks like; per telegram its records, -1 if it is malformed and may hold any number
void check_tree(const char *what, const std::string &x, const std::vector<Bytes> &telegrams, bool normalized) {
  Node d;
  Reader r{x};
  REQUIRE(r.document(d), "xml", "%s is not well-formed: %s", what, r.why.c_str());
  REQUIRE(d.name == "MBusData", "xml", "%s is a document of %s", what, d.name.c_str());
  REQUIRE(!d.kids.empty() && d.kids[0].name == "SlaveInformation", "xml", "%s does not start with the meter", what);
  std::vector<std::pair<size_t, RawRecord>> want;
  for (size_t t = 0; t < telegrams.size(); t++) {
    std::vector<RawRecord> v;
    int known = walk_records(telegrams[t], v);
    if (known == 0) { probe("reserved code in a telegram"); return; } // how many records this is, nobody knows
    REQUIRE(known == 1, "accepted", "telegram %zu of a successful readout is malformed: %s", t, hex(telegrams[t]).c_str());
    for (auto &q : v) want.push_back({t, q});
  }
  size_t n = 0;
  for (size_t k = 1; k < d.kids.size(); k++, n++) {
    const Node &e = d.kids[k];
    REQUIRE(e.name == "DataRecord", "xml", "%s holds a %s", what, e.name.c_str());
    REQUIRE(attr(e, "id") == std::to_string(n), "order", "%s: record %zu has id %s", what, n, attr(e, "id").c_str());
    REQUIRE(n < want.size(), "extra", "%s has more than the %zu records of the telegrams", what, want.size());
    const RawRecord &w = want[n].second;
    std::string id = strf("%s: record %zu (telegram %zu, byte %zu of %s)", what, n, want[n].first, w.at, hex(telegrams[want[n].first]).c_str());
    if (telegrams.size() > 1) REQUIRE(attr(e, "frame") == std::to_string(want[n].first), "order", "%s has frame %s", id.c_str(), attr(e, "frame").c_str());
    static const std::set<std::string> known = {"Function", "StorageNumber", "Tariff", "Device", "Unit", "Quantity", "Value", "Timestamp"};
    std::set<std::string> seen;
    for (auto &f : e.kids) {
      REQUIRE(known.count(f.name) && f.kids.empty(), "xml", "%s holds a %s", id.c_str(), f.name.c_str());
      REQUIRE(seen.insert(f.name).second, "xml", "%s holds %s twice", id.c_str(), f.name.c_str());
    }
    if (normalized) continue;
    const Node *f = kid(e, "Function"), *v = kid(e, "Value");
    REQUIRE(f && v, "lost", "%s has no function or no value", id.c_str());
    static const char *func[] = {"Instantaneous value", "Maximum value", "Minimum value", "Value during error state"};
    std::string wf = w.dif == 0x0F ? "Manufacturer specific" : w.dif == 0x1F ? "More records follow" : func[w.dif >> 4 & 3];
    REQUIRE(f->text == wf, "function", "%s: function '%s', not '%s'", id.c_str(), f->text.c_str(), wf.c_str());
    if (w.special) {
      std::string h;
      for (size_t q = w.data.size(); q-- > 0;) h += strf("%02X", w.data[q]);
      std::string a, b;
      for (char c : v->text) if (c != ' ') a += c;
      std::string fwd;
      for (auto c : w.data) fwd += strf("%02X", c);
      if (w.data.size() <= 255) REQUIRE(a == h || a == fwd, "value", "%s: value '%s'", id.c_str(), v->text.c_str());
    } else if (w.number) {
      std::string fwd;
      for (size_t q = w.data.size(); q-- > 0;) fwd += (fwd.empty() ? "" : " ") + strf("%02X", w.data[q]); // the most significant byte first
      std::string a = v->text;
      while (!a.empty() && a.back() == ' ') a.pop_back();
      REQUIRE(a == fwd, "value", "%s: number '%s', not '%s'", id.c_str(), v->text.c_str(), fwd.c_str());
      probe("number of variable length shown");
    } else if (w.text) {
      std::string t;
      size_t enc = 0;
      for (size_t q = w.data.size(); q-- > 0;) { unsigned char c = w.data[q]; if (!c) break; t += c < 32 || c == 127 ? ' ' : (char)c; enc += c == '<' || c == '>' ? 4 : c == '&' ? 5 : c == '"' ? 6 : 1; }
      if (enc < 700) { REQUIRE(v->text == t, "value", "%s: text '%s', not '%s'", id.c_str(), v->text.c_str(), t.c_str()); if (enc > t.size()) probe("text with markup shown"); }
      else REQUIRE(t.compare(0, v->text.size(), v->text) == 0, "value", "%s: text '%s', not the start of '%s'", id.c_str(), v->text.c_str(), t.c_str());
    }
  }
  REQUIRE(n == want.size(), "lost", "%s shows %zu of %zu records", what, n, want.size());
  if (n > 40) probe("document of more than 40 records");
  if (x.size() > 65536) probe("document of more than 64 KiB");
}
Bytes records_of(const Bytes &frame) { return frame.size() > 21 ? Bytes(frame.begin() + 19, frame.end() - 2) : Bytes(); }
}

static void c27() {
  bool by_tool = chance(1, 3), tcp = chance(1, 2);
  Bus *bp;
  if (by_tool) { bp = &g_world->add(tcp ? P_TCP : P_TTY, pick(std::vector<long>{9600, 9600, 2400})); bp->segments = chance(1, 2); }
  else bp = &gen_bus(false);
  Bus &b = *bp;
  Port *p = b.port;
  Master m;
  if (!by_tool) m = open_master(0);
  PopOpt o;
  o.max_meters = 2;
  o.max_telegrams = chance(1, 10) ? 12 : 3;
  gen_meters(b, o);
  for (auto &mt : b.meters) {
    bool wild = chance(1, 3);
    bool dense = chance(1, 5);                           // as many records as a telegram takes
    for (size_t i = 0; i < mt.telegrams.size(); i++) {
      bool more = i + 1 < mt.telegrams.size();
      Bytes t;
      if (dense) {
        Bytes unit = pick(std::vector<Bytes>{{0x01, 0x3A, 0x07}, {0x00, 0x13}, {0x0D, 0x78, 0x00}, {0x01, 0xFD, 0x17, 0x00}, {0x02, 0x6C, 0xFF, 0xFF}, {0x0D, 0x78, 0x03, '<', '&', '>'}});
        while (t.size() + unit.size() <= 239) t.insert(t.end(), unit.begin(), unit.end());
        if (more) t.push_back(0x1F);
      } else t = gen_records(240, wild, more);
      mt.telegrams[i] = t;
    }
    mt.man[0] = (uint8_t)choose(256);
    mt.man[1] = (uint8_t)choose(256);
    if (chance(1, 3)) { static const uint8_t man[][2] = {{0x2D, 0x2C}, {0xA7, 0x32}, {0x93, 0x15}, {0x77, 0x04}, {0xC5, 0x14}, {0x24, 0x23}, {0xA5, 0x11}, {0x4D, 0x6A}}; auto x = man[choose(8)]; mt.man[0] = x[0]; mt.man[1] = x[1]; }
    mt.ver = (uint8_t)choose(256);
    mt.med = (uint8_t)choose(256);
    if (chance(1, 3)) mt.id = choose(0x10000) << 16 | choose(0x10000);
    mt.status = (uint8_t)choose(256);
    mt.selected = false;
    mt.lfd = Link();
    mt.l0 = Link();
  }
  static const std::vector<ReplyFault> kinds = {RF_DROP_REQ, RF_DROP_REP, RF_CORRUPT_REP, RF_TRUNC_REP, RF_CORRUPT_REQ, RF_DUP_REP, RF_LATE_REP, RF_NOISE_PRE, RF_NOISE_POST};
  gen_faults(b, kinds);
  if (chance(1, 2)) b.rate = 0;
  b.echo = chance(1, 6);
  p->cfg_short_read = chance(1, 6);
  Meter &mt = b.meters[choose((uint32_t)b.meters.size())];
  if (by_tool) {
    bool multi = chance(2, 3), debug = chance(1, 6);
    std::vector<std::string> args = {"mbus-request-data"};
    if (debug) args.push_back("-d");
    if (!tcp && p->line_baud != 9600) { args.push_back("-b"); args.push_back(std::to_string(p->line_baud)); }
    if (tcp) { args.push_back("gw0"); args.push_back("10001"); } else args.push_back("/dev/sim0");
    args.push_back(std::to_string(mt.addr));
    int code = run_main(multi ? (tcp ? tool_mbus_tcp_request_data_multi_reply : tool_mbus_serial_request_data_multi_reply) : (tcp ? tool_mbus_tcp_request_data : tool_mbus_serial_request_data), args);
    shape(0x2700 + (multi ? 1 : 0) + (tcp ? 2 : 0) + (code ? 4 : 0));
    size_t at = g_out.find("<?xml");
    if (code) { REQUIRE(at == std::string::npos, "document", "the tool fails with %d after printing a document", code); return; }
    REQUIRE(at != std::string::npos, "document", "the tool succeeds without a document");
    std::string x = g_out.substr(at);
    Node d;
    Reader r{x};
    REQUIRE(r.document(d), "xml", "the output is not well-formed: %s", r.why.c_str());
    // which telegrams are shown: the first one by its access number, the rest in order of sending
    const Node *acc = d.kids.empty() ? nullptr : kid(d.kids[0], "AccessNumber");
    REQUIRE(acc, "xml", "the document has no access number");
    size_t tel = 1;
    for (auto &e : d.kids) if (attr(e, "frame") != "(none)") tel = std::max(tel, (size_t)atoi(attr(e, "frame").c_str()) + 1);
    if (b.rate == 0) {                                    // nothing lost: the telegrams from the first one on
      std::vector<Bytes> ts;
      for (auto &s : b.sent) if (s.meter == mt.idx && s.telegram >= 0 && (ts.size() || atoi(acc->text.c_str()) == s.b[15])) ts.push_back(records_of(s.b));
      REQUIRE(ts.size() >= tel, "foreign", "the document shows %zu telegrams of %zu sent", tel, ts.size());
      if (ts.size() > 1 && tel == 1) { std::vector<RawRecord> v; if (walk_records(ts[1], v) == 1 && v.empty()) return; }
      bool empty_tail = false;
      for (size_t q = tel; q < ts.size(); q++) { std::vector<RawRecord> v; if (walk_records(ts[q], v) != 1 || v.empty()) empty_tail = true; }
      if (!multi) ts.resize(1);
      if (empty_tail) return;                             // a telegram without records does not show
      check_tree("the output", x, ts, false);
    }
    probe("document printed by a tool");
    return;
  }
  mbus_send_ping_frame(m.h, mt.addr, 1);
  mbus_frame reply;
  memset(&reply, 0, sizeof reply);
  int r = mbus_sendrecv_request(m.h, mt.addr, &reply, (int)pick(std::vector<int>{16, 1, 2, 3}));
  shape(0x2710 + (r ? 1 : 0));
  auto ch = chain(&reply);
  if (r == 0) {
    std::vector<Bytes> ts;
    for (auto f : ch) {
      ts.push_back(Bytes(f->data + 12, f->data + f->data_size));
      mbus_frame_data *d = mbus_frame_data_new();
      REQUIRE(d && mbus_frame_data_parse((mbus_frame *)f, d) == 0, "decode", "a telegram of a successful readout is not understood: %s", canon(f).c_str());
      char *x = mbus_frame_data_xml(d);
      REQUIRE(x, "xml", "no document for a telegram");
      check_tree("the document of a telegram", x, {ts.back()}, false);
      sim_free(x);
      x = mbus_frame_data_xml_normalized(d);
      REQUIRE(x, "xml", "no normalized document for a telegram");
      check_tree("the normalized document of a telegram", x, {ts.back()}, true);
      sim_free(x);
      mbus_data_record_free(d->data_var.record);
      d->data_var.record = nullptr;
      mbus_frame_data_free(d);
    }
    char *x = mbus_frame_xml(&reply);
    REQUIRE(x, "xml", "no document for a successful readout");
    check_tree("the document of the readout", x, ts, false);
    sim_free(x);
    probe(ch.size() > 1 ? "document of several telegrams" : "document of one telegram");
  } else if (b.rate == 0) {
    bool bad = false;
    for (auto &t : mt.telegrams) { std::vector<RawRecord> v; if (walk_records(t, v) != 1) bad = true; }
    REQUIRE(bad, "refused", "the readout of a meter with well-formed telegrams fails without any fault: %s", hex(mt.telegram(0)).c_str());
  }
  free_chain(&reply);
  close_master(m);
}
PROPERTY("C27", c27, 40000, 2000000,
  "one run: a meter with arbitrary records (every type, length and extension, text with any bytes, malformed ones, dense telegrams, any header), read by the library or a readout tool under loss, damage, truncation, duplication and late replies; every document must be well-formed and list exactly the records of the telegrams, found by an independent reader; non-trivial: a fault fired; distinct: different sequence of frames, reads, faults and verdicts")
