// C11: hostile traffic
#include "drv.h"
#include "hostile.h"

static void c11() {
  std::string a, b;
  ns_t t0 = g_now;
  size_t m0 = twin_mark();
  g_fill = 0xBE;
  hostile_session(a);
  size_t m1 = twin_mark();
  world_reset();
  g_now = t0;
  g_fill = 0;
  twin_replay(m0, m1);
  z_hostile_session(b);
  twin_done();
  ev("transcript %016llx", (unsigned long long)fnv(1, a.data(), a.size()));
  if (a != b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i > 60 ? i - 60 : 0;
    fail("memory:uninitialised", "what the library lets out depends on uninitialised memory: '%s' or '%s'", a.substr(s, 120).c_str(), b.substr(s, 120).c_str());
  }
}
PROPERTY("C11", c11, 45000, 1500000,
  "one run: either 1 to 4 arbitrary data frames (any lengths, extension chains, types, truncations) parsed, chained, printed and converted, or 1 to 4 operations on a line where all answers are such frames, damaged frames or noise; run twice, with patterned and with zeroed fresh memory, and compared, under AddressSanitizer and array bound checks; non-trivial: hostile bytes arrived; distinct: different sequence of frames, results, reads and faults")
