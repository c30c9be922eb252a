// M-Bus world: frames (independent codec), meters, the bus with its faults.
#pragma once
#include "seam.h"

// ---------------------------------------------------------------- codec (written from EN 13757-2, not from the library)
// 1: a complete valid frame of *len bytes starts at p; 0: could still become one; -1: no frame starts here
int frame_at(const uint8_t *p, size_t n, size_t *len);
bool frame_anywhere(const Bytes &b, bool count_ack = true); // any valid frame at any offset
Bytes f_short(uint8_t c, uint8_t a);
Bytes f_long(uint8_t c, uint8_t a, uint8_t ci, const Bytes &data);
const Bytes ACK = {0xE5};

// ---------------------------------------------------------------- meters
struct Link { bool valid = false; bool fcb = false; Bytes last; int last_idx = -1; };
struct Sent { int meter; int telegram; /* -2: application error */ uint64_t generation; Bytes b; ns_t at; int reached; }; // reached: 0 lost 1 intact 2 damaged
struct Meter {
  int idx = 0;
  uint8_t addr = 1;
  uint32_t id = 0;          // eight hexadecimal/decimal digits as written, e.g. 0x12345678
  uint8_t man[2] = {0x2D, 0x2C};
  uint8_t ver = 1, med = 4;
  uint8_t access = 0, status = 0;
  uint16_t sig = 0;
  std::vector<Bytes> telegrams;   // record bytes after the header, including the 1F/0F tail
  bool fixed = false;             // fixed data structure: telegram bytes follow id
  Link l0, lfd;
  size_t cursor = 0;
  bool selected = false;
  bool silent = false, always_late = false;
  long baud = 0;                  // 0: same as bus
  uint64_t generation = 0;        // counts link resets that reached the meter
  uint8_t rsp_control = 0x08;
  bool access_changes = true;
  std::vector<Bytes> user_data;   // accepted user data (CI 51)
  int app_resets = 0;
  int app_error_rate = 0;         // per 100 requests for data: an application error (busy, ...) instead of the next telegram
  int refuse_rate = 0;            // per 100 commands (user data, resets, baud rates): not carried out, answered with an application error or a status instead of an acknowledge
  int refused = 0;
  int requests = 0, selects = 0;
  Bytes header() const;
  Bytes telegram(size_t i) const; // complete frame with current access number
  std::string address() const;    // secondary address text
  bool matches(const uint8_t *m8) const;
};

enum ReplyFault { RF_NONE, RF_DROP_REQ, RF_CORRUPT_REQ, RF_DROP_REP, RF_CORRUPT_REP, RF_TRUNC_REP, RF_DUP_REP, RF_LATE_REP,
                  RF_NOISE_PRE, RF_NOISE_POST, RF_STRAY_ACK, RF_N };
struct Exchange { ns_t at; Bytes frame; ReplyFault fault; int answers; bool delivered; int refused = 0; }; // answers: all, refused: those that are no acknowledge where one is due

struct Bus {
  Port *port = nullptr;
  std::vector<Meter> meters;
  bool echo = false;
  // timing of answers
  bool vary_delay = true;         // answer delay anywhere in the permitted window
  int delay_mode = -1;            // -1 choose per answer; 0 earliest; 1 latest
  bool gaps = false, segments = false;
  ns_t tty_max_gap = 0;           // longest pause inside an answer on a serial line; 0: what the standard lets a meter take to answer
  ns_t tcp_max_gap = 2 * SEC;     // longest pause used on TCP (shorter than its timeout)
  // faults
  std::vector<ReplyFault> kinds;  // enabled kinds
  uint32_t rate = 0;              // per 100 exchanges
  std::function<ReplyFault(const Bytes &frame)> plan; // overrides
  bool corrupt_may_ack = true;    // damaged replies may start with E5
  int meter_drop_rate = 0;        // per 100: one meter misses a request
  int collision_kind = -1;        // -1 choose; 0 merge, 1 garble, 2 in sequence
  // state
  Bytes acc; ns_t acc_at = 0;
  std::deque<Bytes> held;
  std::vector<Exchange> log;
  std::vector<Sent> sent;
  std::vector<Bytes> baud_switch;
  std::function<bool(const Bytes &, Bytes &)> hostile; // true: this is what comes back instead of an answer
  std::function<void(const Bytes &)> on_frame;  // monitor of frames on the bus
  uint64_t answered = 0;

  void attach(Port *p);
  void master_bytes(const Bytes &b, ns_t start, ns_t end);
  void master_frame(const Bytes &f, ns_t end);
  ns_t bit(long n) const { return (ns_t)n * SEC / port->line_baud; }
  ns_t window() const;            // longest pause that is still inside the response window
  ns_t emit(const Bytes &b, ns_t start);         // returns arrival of last byte
  ns_t answer_delay();
  Meter *by_addr(int a) { for (auto &m : meters) if (m.addr == a) return &m; return nullptr; }
  int matching(const std::string &mask) const;
};
Bytes garbled(const std::vector<Bytes> &replies, const std::vector<int> &offsets);
Bytes corrupt(const Bytes &b, bool may_ack);
bool mask_bytes(const std::string &mask, uint8_t out[8]);

// ---------------------------------------------------------------- worlds
struct World {
  std::vector<std::unique_ptr<Port>> ports;
  std::vector<std::unique_ptr<Bus>> buses;
  Bus &add(PortKind k, long baud);
};
void world_reset();
extern World *g_world;
// records with a marker, so every telegram is unique
Bytes marker_record(int meter, int telegram, uint32_t salt);
Meter simple_meter(int idx, uint8_t addr, uint32_t id, int telegrams, int extra_records_max);
uint32_t dec_id(uint32_t v);      // decimal number to BCD nibbles
