// C10: memory is conserved, also when allocations fail
#include "recs.h"
#include "drv.h"
#include <cerrno>

extern "C" void sim_free(void *);
namespace {
struct Item { std::string what, val; };
struct Story {                                  // what one execution delivered
  std::vector<Item> items;
  bool failed = false;
};
Story *now;
const Story *ref;
bool fired;                                     // an allocation has failed
// records an outcome; false: stop here (the operation failed for lack of memory, what follows is another story)
bool outcome(const char *what, bool ok, const std::string &val) {
  now->items.push_back({what, ok ? "ok " + val : "fail"});
  if (!ref) return true;
  if (!ok && fired) { now->failed = true; return false; }
  size_t i = now->items.size() - 1;
  const Item &w = ref->items[i < ref->items.size() ? i : ref->items.size() - 1];
  if (i < ref->items.size() && w.what == what && w.val == now->items[i].val) return true;
  if (!ok) fail("oom:altered", "%s fails although no allocation failed", what);
  if (i >= ref->items.size() || w.what != what) fail("oom:altered", "%s delivers something that was not there with enough memory", what);
  fail("oom:altered", "for lack of memory %s delivers '%.100s' instead of '%.100s'", what, val.c_str(), w.val.c_str());
}
std::vector<std::string> blocks(const std::string &x) {
  std::vector<std::string> v;
  size_t at = 0;
  for (;;) {
    size_t e = x.find("    <DataRecord", at + 1);
    v.push_back(x.substr(at, e == std::string::npos ? e : e - at));
    if (e == std::string::npos) return v;
    at = e;
  }
}
// normalized XML: equal but for records without any content
bool xml_outcome(const char *what, const char *x) {
  if (!x || !ref) return outcome(what, x, x ? x : "");
  size_t i = now->items.size();
  if (i < ref->items.size() && ref->items[i].val.substr(0, 3) == "ok ") {
    std::vector<std::string> a = blocks(ref->items[i].val.substr(3)), b = blocks(x);
    bool ok = a.size() == b.size();
    for (size_t k = 0; ok && k < a.size(); k++) {
      if (a[k] == b[k]) continue;
      std::string e = b[k];                         // an empty record has neither value nor unit
      ok = k > 0 && e.find("<Value>") == std::string::npos && e.find("<Unit>") == std::string::npos && e.find("</DataRecord>") != std::string::npos;
      if (ok) probe("normalized record left empty");
    }
    if (ok) { now->items.push_back(ref->items[i]); return true; }
  }
  return outcome(what, true, x);
}
}
static bool convert(mbus_frame *f) {
  mbus_frame_data *d = mbus_frame_data_new();
  if (!outcome("new data", d != nullptr, "")) return false;
  if (!d) return true;
  bool go = true;
  int r = mbus_frame_data_parse(f, d);
  size_t n = 0;
  if (r == 0 && d->type == MBUS_DATA_TYPE_VARIABLE) for (auto x = d->data_var.record; x; x = (mbus_data_record *)x->next) n++;
  go = outcome("parse", r == 0, strf("%d %zu", d->type, n));
  if (r == 0 && go) {
    char *x = mbus_frame_data_xml(d);
    go = outcome("xml", x, x ? x : "");
    sim_free(x);
    if (go) {
      x = mbus_frame_data_xml_normalized(d);
      go = xml_outcome("normalized xml", x);
      sim_free(x);
    }
    if (go && d->type == MBUS_DATA_TYPE_VARIABLE)
      for (auto q = d->data_var.record; q && go; q = (mbus_data_record *)q->next) {
        mbus_record *m = mbus_parse_variable_record(q);
        std::string v;
        if (m) {
          v = strf("%s|%s|%s|%ld %ld %d|", m->unit ? m->unit : "?", m->function_medium ? m->function_medium : "?", m->quantity ? m->quantity : "?", m->storage_number, m->tariff, m->device);
          v += m->is_numeric ? strf("%.17g", m->value.real_val) : std::string(m->value.str_val.value ? m->value.str_val.value : "?");
        }
        go = outcome("record", m, v);
        if (!go) go = true, now->failed = false;         // one record less changes nothing for the next
        mbus_record_free(m);
      }
    if (go && d->type == MBUS_DATA_TYPE_FIXED)
      for (int i = 0; i < 2 && go; i++) {
        mbus_record *m = mbus_parse_fixed_record(d->data_fix.status, i ? d->data_fix.cnt2_type : d->data_fix.cnt1_type, i ? d->data_fix.cnt2_val : d->data_fix.cnt1_val);
        std::string v = m ? strf("%s|%s|%s|%.17g", m->unit ? m->unit : "?", m->function_medium ? m->function_medium : "?", m->quantity ? m->quantity : "?", m->value.real_val) : "";
        if (!outcome("fixed record", m, v)) now->failed = false;
        mbus_record_free(m);
      }
  }
  mbus_frame_data_free(d);
  return go && !now->failed;
}
static std::string chain_text(mbus_frame *f) {
  std::string s;
  for (auto x : chain(f)) s += hex(frame_bytes(x)) + " ";
  return s;
}
static bool frame_xml(mbus_frame *f) {
  char *x = mbus_frame_xml(f);
  bool go = outcome("frame xml", x, x ? x : "");
  sim_free(x);
  return go;
}
static void direct() {
  int n = (int)range(1, 4);
  mbus_frame *head = nullptr;
  mbus_frame **at = &head;
  bool go = true;
  for (int i = 0; i < n && go; i++) {
    Bytes b = gen_data_frame(1, chance(1, 6), i + 1 < n);
    mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY);
    go = outcome("new frame", f, "");
    if (!f) break;
    int r = mbus_parse(f, b.data(), b.size());
    f->timestamp = 0;
    if (r == 0) { *at = f; at = (mbus_frame **)&f->next; }
    else mbus_frame_free(f);
  }
  if (head && go) go = frame_xml(head);
  for (mbus_frame *x = head; x && go; x = (mbus_frame *)x->next) go = convert(x);
  if (head) mbus_frame_free(head);
}
static std::vector<std::string> *found;
static void on_found(mbus_handle *, mbus_frame *f) { if (found) found->push_back(hex(frame_bytes(f)).substr(14, 16)); }

static void line() {
  bool tty = chance(1, 2);
  Bus &b = g_world->add(tty ? P_TTY : P_TCP, 2400);
  Port *p = b.port;
  b.vary_delay = false;
  std::vector<std::string> fl;
  found = &fl;
  int nm = (int)range(1, 3);
  bool odd = false;                              // records may be read as announcing more for ever
  for (int i = 0; i < nm; i++) {
    Meter m = simple_meter(i + 1, (uint8_t)(1 + i), dec_id(12345670u + i * (chance(1, 2) ? 1 : 7000)), (int)range(1, 4), 2);
    if (chance(1, 3)) {
      m.telegrams.clear();
      odd = true;
      int t = (int)range(1, 4);
      for (int k = 0; k < t; k++) m.telegrams.push_back(gen_records(200, false, k + 1 < t));
    }
    if (chance(1, 8)) { m.fixed = true; m.telegrams = {Bytes{0, 0, 0x06, 0x05, 1, 2, 3, 4, 5, 6, 7, 8}}; }
    b.meters.push_back(m);
  }
  b.collision_kind = 1;
  gen_faults(b, {RF_DROP_REQ, RF_DROP_REP, RF_CORRUPT_REP, RF_TRUNC_REP});
  b.corrupt_may_ack = false;
  int breaks = chance(1, 6) ? (int)range(0, 12) : -1, frames = 0;
  int how = breaks >= 0 ? (int)choose(3) : 0;
  if (breaks >= 0) b.on_frame = [&](const Bytes &) { if (frames++ == breaks) break_transport(p, g_now, how); };
  if (!tty) mbus_tcp_set_timeout_set(0.3);
  mbus_handle *h = tty ? mbus_context_serial("/dev/sim0") : mbus_context_tcp("gw0", 4000);
  if (!outcome("context", h, "")) return;
  int r = mbus_connect(h);
  if (!outcome("connect", r == 0, "")) { mbus_context_free(h); return; }
  mbus_register_found_event(h, on_found);
  if (chance(1, 2)) mbus_context_set_option(h, MBUS_OPTION_MAX_DATA_RETRY, (long)choose(4));
  int n = (int)range(1, 3);
  bool go = true;
  for (int i = 0; i < n && go; i++) {
    mbus_frame *f = (mbus_frame *)malloc(sizeof(mbus_frame));
    memset(f, 0, sizeof *f);
    int a = b.meters[choose((uint32_t)b.meters.size())].addr;
    std::string mask = b.meters[choose((uint32_t)b.meters.size())].address();
    if (chance(1, 2)) mask[7] = 'F';
    char buf[32];
    memset(buf, 0, sizeof buf);
    int op = (int)choose(10);
    shape(0xC000 + op);
    switch (op) {
      case 0: case 1: case 2:
        r = mbus_sendrecv_request(h, a, f, odd ? 1 + (int)choose(4) : (int)choose(4));
        go = outcome("readout", r == 0, r == 0 ? chain_text(f) : "");
        if (go && r == 0) { for (auto x = f; x; x = (mbus_frame *)x->next) x->timestamp = 0; go = frame_xml(f); }
        for (auto x = f; x && go && r == 0; x = (mbus_frame *)x->next) go = convert(x);
        break;
      case 3: {
        mbus_address ad;
        memset(&ad, 0, sizeof ad);
        ad.secondary = (char *)mask.c_str();
        if (chance(1, 2)) { ad.is_primary = 1; ad.primary = a; }
        r = mbus_read_slave(h, &ad, f);
        go = outcome("read slave", r == 0, r == 0 ? chain_text(f) : "");
        break;
      }
      case 4: r = mbus_select_secondary_address(h, mask.c_str()); go = outcome("select", r != MBUS_PROBE_ERROR, strf("%d", r)); break;
      case 5: r = mbus_probe_secondary_address(h, mask.c_str(), buf); go = outcome("probe", r != MBUS_PROBE_ERROR, strf("%d %.16s", r, r == MBUS_PROBE_SINGLE ? buf : "")); break;
      case 6: {
        fl.clear();
        std::string m2 = mask;
        for (int k = (int)range(5, 7); k < 8; k++) m2[k] = 'F';
        r = mbus_scan_2nd_address_range(h, 0, (char *)m2.c_str());
        std::string s;
        for (auto &x : fl) s += x + " ";
        go = outcome("scan", r == 0, s);
        break;
      }
      case 7: {
        r = mbus_send_ping_frame(h, a, 1);
        go = outcome("ping", r == 0, "");
        break;
      }
      case 8: {
        Bytes d((size_t)range(1, 40), 0x55);
        r = mbus_send_user_data_frame(h, a, d.data(), d.size());
        go = outcome("user data", r == 0, "");
        if (r == 0) mbus_purge_frames(h);
        break;
      }
      default: {
        int w = (int)choose(3);
        r = w == 0 ? mbus_set_primary_address(h, a, 77) : w == 1 ? mbus_send_application_reset_frame(h, a, -1) : mbus_send_switch_baudrate_frame(h, a, 2400);
        go = outcome("setting", r == 0, "");
        if (r == 0) mbus_purge_frames(h);
      }
    }
    free_chain(f);
    free(f);
  }
  if (go && chance(1, 2)) { mbus_disconnect(h); r = mbus_connect(h); outcome("connect again", r == 0, ""); }
  mbus_disconnect(h);
  mbus_context_free(h);
  found = nullptr;
}
static void story(Story &s) {
  now = &s;
  found = nullptr;
  if (chance(1, 2)) direct(); else line();
}
static void c10() {
  size_t m0 = twin_mark();
  ns_t t0 = g_now;
  Story a;
  ref = nullptr;
  uint64_t n0 = g_allocs;
  story(a);
  size_t m1 = twin_mark();
  uint64_t total = g_allocs - n0;
  size_t live = heap_live();
  if (live) {                                   // nothing may be left; a cache that stays the same size may
    world_reset();
    g_now = t0;
    Story again;
    ref = nullptr;
    twin_replay(m0, m1);
    story(again);
    twin_done();
    REQUIRE(heap_live() <= live, "leak", "memory is left behind after everything was released: %zu blocks (sizes%s)", heap_live(), heap_report().c_str());
    live = heap_live();
  }
  if (!total || a.items.empty()) return;
  int rounds = (int)range(1, 4);
  for (int i = 0; i < rounds; i++) {
    int mode = (int)choose(4);
    uint64_t k = 1 + choose((uint32_t)total), k2 = k + 1 + choose((uint32_t)total);
    uint32_t rate = mode == 3 ? (uint32_t)range(2, 30) : 0;
    Stream s;
    stream_init(s, 1 + choose(1u << 30));
    world_reset();
    g_now = t0;
    uint64_t base = g_allocs;
    fired = false;
    g_oom = [&](size_t) {
      uint64_t n = g_allocs - base;
      bool f = mode == 0 ? n == k : mode == 1 ? n >= k : mode == 2 ? n == k || n == k2 : false;
      if (mode == 3) { Stream *o = stream_use(&s); f = chance(rate, 100); stream_use(o); }
      fired |= f;
      return f;
    };
    Story b;
    ref = &a;
    twin_replay(m0, m1);
    story(b);
    twin_done();
    ref = nullptr;
    g_oom = nullptr;
    ev("failing allocations: %s after %zu of %zu outcomes", b.failed ? "stopped" : "went on", b.items.size(), a.items.size());
    REQUIRE(heap_live() <= live, "oom:leak", "a failing allocation leaves memory behind: %zu blocks (sizes%s)", heap_live() - live, heap_report().c_str());
    REQUIRE(seam_open_lib_fds() == 0, "oom:descriptor", "a failing allocation leaves a descriptor open");
    if (fired && !b.failed && b.items.size() == a.items.size()) probe("a failed allocation changed nothing");
  }
}
PROPERTY("C10", c10, 60000, 2500000,
  "one run: a story of operations (frames parsed, chained and converted to XML and records; or connect, readouts, reads, selections, probes, scans, requests on a lossy line and their conversion) executed with enough memory and again 1 to 4 times while the k-th, from the k-th, two or a random share of all allocations fail; non-trivial: an allocation failed or a fault fired; distinct: different sequence of operations, failing allocations, reads and faults")
