// The operating system as the library sees it: descriptors, tty, sockets, heap, clock, stdio.
#pragma once
#include "core.h"
#include <termios.h>
#include <csetjmp>

struct RxByte { ns_t at; uint8_t b; };
struct TxRec { ns_t start, end; Bytes b; bool complete; };

enum PortKind { P_TTY, P_TCP };
struct Port {
  PortKind kind;
  int fd = -1;
  // ---- input
  std::deque<RxByte> rx;
  ns_t last_arrival = 0;
  ns_t fin_at = NEVER, rst_at = NEVER, hup_at = NEVER;
  bool half = false;                           // a closing peer closes its sending side only: it keeps taking data
  bool rst_seen = false, fin_reset = false;   // error already reported / our data reached a closed peer
  std::vector<std::pair<ns_t, int>> read_errs; // (time, errno): next read at or after that time fails once
  bool cfg_eintr = false;                      // reads may be interrupted
  ns_t eintr_until = NEVER; uint32_t eintr_rate = 16; // per 100 reads that would wait
  bool cfg_short_read = false;
  // ---- output
  ns_t tx_free = 0;
  ns_t stall_at = NEVER; size_t stall_room = 0; // peer stops accepting data
  std::function<ssize_t(size_t n)> write_fault; // >=0: accept so many; -errno: fail; SSIZE_MAX: normal
  std::function<void(const Bytes &, ns_t start, ns_t end)> on_tx;
  // ---- tty
  termios tio;
  bool tio_set = false;
  long line_baud = 2400;                       // what is on the wire
  // ---- tcp
  ns_t rcvto = 0, sndto = 0;
  // ---- recording
  Bytes arrived;                               // every byte that was put on the line for the master
  Bytes consumed;                              // every byte the master took
  std::vector<std::pair<size_t, int64_t>> walls; // (bytes consumed so far, wall clock) after every read
  ns_t last_byte_read_at = 0; int64_t last_byte_wall = 0;
  std::vector<TxRec> tx;
  uint64_t nreads = 0, nwrites = 0;
  ns_t last_event = 0;                         // last arrival or failure event scheduled

  void arrive(ns_t at, uint8_t b);             // schedule one byte (kept in order)
  size_t pending(ns_t upto) const;
};

// ---- descriptors
enum DescKind { D_FREE, D_STD, D_FOREIGN, D_PORT, D_SOCK, D_FILE };
struct Desc { DescKind kind; Port *port; size_t pos; std::string *file; bool lib; int acc = 2, family = 0, type = 0; ns_t rcvto = 0, sndto = 0; };
extern std::map<int, Desc> g_fd;
extern int g_fd_base;
extern bool g_fd_strict;                       // violations of descriptor ownership fail the run
void seam_reset();                             // fresh process: no descriptors, no heap
int seam_open_lib_fds();                       // descriptors the library holds open

// device name -> port (nullptr: ENOENT); host:port -> candidates
extern std::function<Port *(const char *dev)> g_open_dev;
struct TcpTarget { bool refuse; Port *port; bool v6 = false; ns_t delay = 0; }; // delay: until accepted or refused
extern std::function<int(const char *host, const char *port, std::vector<TcpTarget> &)> g_resolve; // 0 or EAI_*
extern std::function<int()> g_socket_fail;     // errno or 0
extern "C" int g_socket_family;                // of the socket asked for
extern std::function<bool()> g_sockopt_fail;   // setsockopt of a timeout fails
extern std::function<bool()> g_termios_fail;   // cfset*/tcsetattr fails
extern std::map<std::string, std::string> g_files;
extern std::map<std::string, size_t> g_file_bad; // unreadable from there on

// ---- heap
extern std::function<bool(size_t)> g_oom;      // true: fail this allocation
extern uint64_t g_allocs;                      // number of allocations so far
extern uint8_t g_fill;                         // pattern for fresh memory
size_t heap_live();                            // live blocks
void heap_drop();                              // between runs: release what is left
void heap_forget();                            // process died
std::string heap_report();

// ---- stdio
extern std::string g_out, g_err;
extern size_t g_out_limit;                     // standard output takes so many bytes ...
extern ns_t g_out_free;                        // ... until then
extern std::function<void()> g_seam_hook;      // every I/O call (crash point)

// ---- process
struct ProcExit { jmp_buf jb; bool armed = false; int code = 0; };
extern ProcExit g_exit;
int run_main(int (*m)(int, char **), const std::vector<std::string> &args); // exit status (signals: 128+n)
void proc_crash();                             // the running process (run_main) dies here
void proc_end(bool keep_input);                // what the operating system does once a process is gone; a new one may start
void lib_statics_init();                       // remember initial static data
void lib_statics_restore();                    // a new process image
