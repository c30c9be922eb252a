// Calling the library under test.
#pragma once
#include "world.h"
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <algorithm>
extern "C" {
#include "mbus/mbus.h"
}

struct Master {
  mbus_handle *h = nullptr;
  Port *p = nullptr;
  Bus *b = nullptr;
  int n = 0;
};
// opens the n-th port of the world with the library; serial: at the bus rate
Master open_master(size_t n);
void close_master(Master &m);        // disconnect and free
Bus &gen_bus(bool allow_slow = true); // a bus on a random transport (tcp/serial, all rates)
Bytes frame_bytes(const mbus_frame *f); // the bytes a received frame structure stands for
void free_chain(mbus_frame *head);   // everything behind a caller-owned frame
std::vector<const mbus_frame *> chain(const mbus_frame *head);
const char *res_name(int r);
void check_line(Port *p, long baud, const char *after); // a serial line as meters need it
ns_t recv_window(const Port *p);     // how long one transport receive waits at most after the last byte
uint8_t any_addr();                  // a plausible primary address
std::string canon(const mbus_frame *f); // readable
// workloads
struct PopOpt { int max_meters = 3, max_telegrams = 4, max_extra = 3; bool stale = true, rich = false; };
void gen_meters(Bus &b, const PopOpt &o);       // distinct addresses and identification numbers
void make_stale(Bus &b, Meter &m);              // as an interrupted earlier readout leaves it
extern const std::vector<ReplyFault> ALL_FAULTS;
void gen_faults(Bus &b, const std::vector<ReplyFault> &kinds);
void break_transport(Port *p, ns_t at, int kind); // kind 0..2: close, reset/hang-up, device error
void gen_limited_faults(Bus &b, const std::vector<ReplyFault> &kinds, int budget); // at most so many disturbed exchanges
void random_op(Master &m, std::vector<std::string> &out); // one random operation of any kind; its results as text
void ops_watch(Master &m, std::vector<std::string> *out); // scan events of this handle go to out as well (nullptr: nowhere)
// what the readout tools print: documents with their values per telegram; number of documents, -1: something that is not whole
struct Doc { std::string id, error; long access = -1; std::vector<std::vector<std::string>> values; };
std::string fixed_unit_text(int code);
std::string fixed_medium_text(int type1, int type2);
int read_docs(const std::string &out, std::vector<Doc> &docs);
std::string xml_field(const std::string &rec, const char *name); // the text of an element, "(none)" without it
