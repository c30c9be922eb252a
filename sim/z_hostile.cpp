// Built twice: against the library with patterned locals and against the one with zeroed locals.
#include "recs.h"
#include "hostile.h"
#include <cstring>
#include <cstdlib>
extern "C" {
#include "mbus/mbus.h"
}
extern "C" void sim_free(void *);
static std::string *T;
static void say(const char *fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  T->append(b, n);
  T->push_back('\n');
}
static void text(const char *what, const char *s) { say("%s:", what); if (s) T->append(s); else T->append("(none)"); T->push_back('\n'); }
static mbus_frame *blank() {
  mbus_frame *f = (mbus_frame *)malloc(sizeof(mbus_frame));
  memset(f, g_fill, sizeof *f);
  f->timestamp = 0;
  f->next = nullptr;
  return f;
}
static void use(mbus_frame *f) {
  say("frame type %d direction %d verify %d", mbus_frame_type(f), mbus_frame_direction(f), mbus_frame_verify(f));
  shape(0xB300 + f->control_information);
  say("print %d", mbus_frame_print(f));
  char *a = mbus_frame_get_secondary_address(f);
  text("address", a);
  mbus_frame_data *d = mbus_frame_data_new();
  if (!d) return;
  mbus_error_reset();
  int r = mbus_frame_data_parse(f, d);
  say("parse %d %s", r, mbus_error_str());
  if (r == 0) {
    probe("decoded a data frame");
    say("type %d", d->type);
    if (d->type == MBUS_DATA_TYPE_VARIABLE) {
      for (mbus_data_record *x = d->data_var.record; x; x = (mbus_data_record *)x->next) {
        shape(0xB200 + (x->drh.dib.dif & 0x0F) + 16 * (x->drh.vib.vif >= 0x80 ? 2 + (x->drh.vib.vif & 0x7F) / 32 : x->drh.vib.vif >= 0x6C));
        text("function", mbus_data_record_function(x));
        text("unit", mbus_data_record_unit(x));
        text("value", mbus_data_record_value(x));
        say("%ld %ld %d", mbus_data_record_storage_number(x), mbus_data_record_tariff(x), mbus_data_record_device(x));
        mbus_record *n = mbus_parse_variable_record(x);
        if (n) {
          text("unit", n->unit);
          text("function", n->function_medium);
          text("quantity", n->quantity);
          if (n->is_numeric) say("%.17g", n->value.real_val); else { say("size %d", (int)n->value.str_val.size); text("value", n->value.str_val.value); }
          say("%d %ld %ld", n->device, n->tariff, n->storage_number);
          mbus_record_free(n);
        } else say("no record");
      }
      text("header", mbus_data_variable_header_xml(&d->data_var.header));
      text("product", mbus_data_product_name(&d->data_var.header));
    }
    if (d->type == MBUS_DATA_TYPE_FIXED)
      for (int i = 0; i < 2; i++) {
        mbus_record *n = mbus_parse_fixed_record(d->data_fix.status, i ? d->data_fix.cnt2_type : d->data_fix.cnt1_type, i ? d->data_fix.cnt2_val : d->data_fix.cnt1_val);
        if (n) { text("unit", n->unit); text("quantity", n->quantity); say("%.17g", n->value.real_val); mbus_record_free(n); }
      }
    say("print %d", mbus_frame_data_print(d));
    char *x = mbus_frame_data_xml(d);
    text("xml", x);
    sim_free(x);
    x = mbus_frame_data_xml_normalized(d);
    text("normalized", x);
    sim_free(x);
  }
  mbus_frame_data_free(d);
}
static void use_chain(mbus_frame *f) {
  for (mbus_frame *x = f; x; x = (mbus_frame *)x->next) use(x);
  char *x = mbus_frame_xml(f);
  text("frame xml", x);
  sim_free(x);
}
static void on_found(mbus_handle *, mbus_frame *f) { say("found"); text("address", mbus_frame_get_secondary_address(f)); }
static void on_progress(mbus_handle *, const char *m) { text("mask", m); }

static void direct() {
  int n = (int)range(1, 4);
  mbus_frame *head = nullptr, **at = &head;
  for (int i = 0; i < n; i++) {
    fault(F_JUNK);
    Bytes b = gen_data_frame((uint8_t)choose(256), true, i + 1 < n || chance(1, 8));
    uint32_t mut = choose(12);
    if (mut == 11) b.resize(choose((uint32_t)b.size()) + 1);
    if (mut == 10) b[choose((uint32_t)b.size())] = (uint8_t)choose(256);
    if (mut == 9) b = {0xE5};
    if (mut == 8) b = f_short(0x5B, 1);
    unsigned char *raw = (unsigned char *)malloc(b.size());
    memcpy(raw, b.data(), b.size());
    mbus_frame *f = blank();
    int r = mbus_parse(f, raw, b.size());
    say("parse %d", r);
    shape(0xB000 + (r < 0 ? 0 : r > 0 ? 1 : 2) + 4 * f->type);
    free(raw);
    if (r == 0) { *at = f; at = (mbus_frame **)&f->next; }
    else free(f);
  }
  if (head) {
    use_chain(head);
    while (head) { mbus_frame *x = (mbus_frame *)head->next; free(head); head = x; }
  }
}
static void line() {
  bool tty = chance(1, 2);
  Bus &b = g_world->add(tty ? P_TTY : P_TCP, 2400);
  if (!tty) mbus_tcp_set_timeout_set(0.3);
  mbus_handle *h = tty ? mbus_context_serial("/dev/sim0") : mbus_context_tcp("gw0", 4000);
  if (!h || mbus_connect(h)) fail("open", "no connection");
  if (chance(1, 2)) mbus_context_set_option(h, MBUS_OPTION_MAX_DATA_RETRY, (long)choose(3));
  if (chance(1, 2)) mbus_context_set_option(h, MBUS_OPTION_MAX_SEARCH_RETRY, 0);
  if (chance(1, 4)) mbus_context_set_option(h, MBUS_OPTION_PURGE_FIRST_FRAME, (long)choose(3));
  bool dump = chance(1, 4);
  if (dump) { mbus_register_recv_event(h, mbus_dump_recv_event); mbus_register_send_event(h, mbus_dump_send_event); }
  mbus_register_found_event(h, on_found);
  mbus_register_scan_progress(h, on_progress);
  bool dbg = chance(1, 12);
  if (dbg) mbus_parse_set_debug(1);
  b.echo = chance(1, 8);
  b.segments = !dbg && chance(1, 3);
  b.vary_delay = false;
  uint32_t ill = choose(3) * 15;
  int frames = 0;
  Bytes mask;                                                          // of the last selection
  b.hostile = [&](const Bytes &f, Bytes &out) {
    if (frames++ > (dbg ? 12 : 120)) return true;                     // silent at last: a scan ends
    uint8_t a = f.size() == 5 ? f[2] : f.size() > 6 ? f[5] : 0;
    bool req = f.size() == 5 && (f[1] & 0x0F) == 0x0B;
    if (choose(100) < ill) {
      fault(F_JUNK);
      switch (choose(5)) {
        case 0: return true;
        case 1: out = gen_text((size_t)range(1, 40)); return true;
        case 2: out = gen_data_frame(a, true, false); out.resize(choose((uint32_t)out.size()) + 1); return true;
        case 3: out = ACK; { Bytes x = gen_data_frame(a, true, false); out.insert(out.end(), x.begin(), x.end()); } return true;
        default: out = f_short(0x08, a); return true;
      }
    }
    if (f.size() >= 15 && f[6] == 0x52) mask.assign(f.begin() + 7, f.begin() + 15);
    if (!req) { out = ACK; return true; }
    out = gen_data_frame(a, true, chance(1, 3));
    if (a == 253 && mask.size() == 8 && out.size() >= 17 && out[0] == 0x68 && out[6] == 0x72 && chance(2, 3)) {
      for (int i = 0; i < 8; i++) {                                    // the device that was selected
        bool wild = mask[i] == 0xFF;
        for (int s = 0; s < 8; s += 4) {
          uint8_t n = (mask[i] >> s) & 15;
          if (i < 4 ? n == 15 : wild) n = (uint8_t)choose(i < 4 ? 10 : 16);
          out[7 + i] = (uint8_t)((out[7 + i] & ~(15 << s)) | n << s);
        }
      }
      uint8_t c = 0;
      for (size_t i = 4; i + 2 < out.size(); i++) c = (uint8_t)(c + out[i]);
      out[out.size() - 2] = c;
      probe("answer of the selected device");
    }
    fault(F_JUNK);
    return true;
  };
  int n = (int)range(1, 4);
  for (int i = 0; i < n; i++) {
    int op = (int)choose(9);
    mbus_frame *f = blank();
    char buf[32], mask[] = "FFFFFFFFFFFFFFFF";
    memset(buf, 0, sizeof buf);
    int r = 0;
    say("op %d", op);
    switch (op) {
      case 0: case 1:
        r = mbus_sendrecv_request(h, 5, f, (int)choose(5));
        say("readout %d", r);
        if (r == 0) use_chain(f);
        break;
      case 2:
        mbus_send_request_frame(h, 5);
        r = mbus_recv_frame(h, f);
        say("receive %d", r);
        if (r == 0) use_chain(f);
        break;
      case 3: say("select %d", mbus_select_secondary_address(h, "12345678FFFFFFFF")); break;
      case 4: say("probe %d", mbus_probe_secondary_address(h, "1234567FFFFFFFFF", buf)); text("found", buf); break;
      case 5:
        for (int k = (int)choose(7); k >= 0; k--) mask[k] = '1';
        mask[0] = '1';
        if (ill) mask[1] = mask[2] = mask[3] = mask[4] = mask[5] = '2';
        for (int k = 1; k < 7; k++) if (mask[k] == 'F') mask[k] = '3';
        say("scan %d", mbus_scan_2nd_address_range(h, 0, mask));
        break;
      case 6: {
        mbus_address a;
        memset(&a, 0, sizeof a);
        a.secondary = (char *)"12345678FFFFFFFF";
        if (chance(1, 2)) { a.is_primary = 1; a.primary = 7; }
        r = mbus_read_slave(h, &a, f);
        say("read %d", r);
        if (r == 0) use_chain(f);
        break;
      }
      case 7: say("ping %d", mbus_send_ping_frame(h, 3, chance(1, 2))); say("purge %d", mbus_purge_frames(h)); break;
      default: say("address %d", mbus_set_primary_address(h, 1, 2)); r = mbus_recv_frame(h, f); say("receive %d", r); if (r == 0) use_chain(f);
    }
    shape(0xB100 + op * 8 + (r & 7));
    if (f->next) { mbus_frame_free((mbus_frame *)f->next); f->next = nullptr; }
    free(f);
  }
  mbus_parse_set_debug(0);
  mbus_disconnect(h);
  mbus_context_free(h);
}
extern "C" void hostile_session(std::string &out) {
  T = &out;
  if (chance(1, 2)) direct(); else line();
  out += g_out;
  out += g_err;
}
