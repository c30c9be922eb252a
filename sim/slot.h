#pragma once
#include <cstdint>
#include <vector>
#include "core.h"
enum { MAXCH = 200000, MAXPROBE = 128 };
enum { ST_RUNNING, ST_OK, ST_VIOLATION, ST_DISCARD };
struct Slot {
  uint32_t status, nch, overflow;
  uint64_t hash, shape, steps;
  int64_t simtime;
  char cls[96], msg[1200];
  uint32_t faults[N_FAULTS];
  struct { const char *name; uint32_t n; } probes[MAXPROBE];
  uint32_t ch[MAXCH];
};
extern Slot *g_slot;
void core_seed(uint64_t seed);
void core_replay(const std::vector<uint32_t> &v);
void core_finish(int status);
void core_clean();
