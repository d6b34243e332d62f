#ifndef HOOKS_H
#define HOOKS_H
#include <cstdint>
#include <cstddef>
struct SimThread;
struct Hook {
  uint64_t n;        // callbacks in the current call
  uint64_t stop;     // next callback of interest
  int on;            // inside a libdfp call
  int rec;           // reference run: record accesses to writable globals
  SimThread *t;
};
extern __thread Hook hk;
struct Range { uintptr_t lo, hi; };
extern uint8_t *cov_map;
extern uintptr_t lib_base, lib_text_end;
extern Range lib_data[4]; extern int n_lib_data;
void sim_stop (void *pc);
void sim_hot (uint64_t n);
#endif
