#ifndef ENGINE_H
#define ENGINE_H
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include "ops.h"

// ---- deterministic PRNG -------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng (uint64_t seed = 1) : s (seed) {}
  uint64_t next () {                     // splitmix64
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below (uint64_t n) { return n ? next () % n : 0; }
  int range (int a, int b) { return a + (int) below (b - a + 1); }
  bool p (int percent) { return (int) below (100) < percent; }
};
static inline uint64_t mix (uint64_t a, uint64_t b) { Rng r (a * 0x9E3779B97F4A7C15ull ^ b); return r.next (); }

// ---- violation classes --------------------------------------------------
enum Cls {
  V_NONE, V_RESULT, V_ORACLE, V_MODE, V_BINMODE, V_SETROUND, V_NEWTHREAD,
  V_FLAGCLR, V_FLAGDIFF, V_FLAGIEEE, V_ERRZERO, V_ERRDIFF, V_CRASH, V_HANG,
  V_LEAK, V_LOCALE, V_STREAM, V_CXX, V_BOUND, V_FAULTRES, V_REGRET, V_WIDTH, V_MAX
};
extern const char *cls_name[V_MAX];

// ---- plan ---------------------------------------------------------------
enum EvKind { EV_SWITCH, EV_NEST, EV_STALL };
struct Ev { uint64_t cb; int kind; int arg; };

struct Ref {
  Res res; int flags, err, mode; uint64_t ncb; int nalloc; int nhot; int dirty, nleft, left[32];
  int crashed, hung; uint64_t hot[32];
};

struct Orc { int state = 0, kind = 0, flags = -1; std::string out; };

struct Inst {
  int op; Args args;
  std::map<int, Ref *> refs;            // by mode and variant, computed lazily
  Orc orc[5];
  Inst *plain = 0;                      // the same without a width
  ~Inst () { if (plain) { for (auto &q : plain->refs) free (q.second); delete plain; } }
};

bool leaves_state (const Inst *in);

struct Step {
  int inst = -1;
  int setmode = -1, setflags = -1, seterrno = -1, setloc = -2, setgloc = -1;
  int alloc_first = -1, alloc_count = 0; // failing allocations inside the call
  int locfail = 0;                      // locale objects are refused
  int rep = 1;
  int setbin = -1;                      // binary rounding mode, 0..3
  std::vector<Ev> ev;
};

struct Plan {
  std::string prop;
  int gloc = 0;                         // global locale of the process
  int fill = 0;                         // byte for fresh heap and dead stack
  std::vector<Inst *> insts;           // shared with the pool, or listed in own
  std::vector<Inst *> own;
  std::vector<std::vector<Step>> thr;
};

struct Viol { int cls, thread, step; int inst; char msg[400]; };

struct RunOut {
  int done;
  int nviol; Viol viol[6];
  uint64_t hash, ileave;
  uint64_t steps, callbacks, switches, stalls, nests, allocfails, locfails, devfaults, threads, modesets, locsets;
  int crashed_sig; uint64_t crash_pc; int crash_thread, crash_step;
  char crash_sym[80];
  int trlen; char trace[6000];          // human readable event trace
};

#endif
