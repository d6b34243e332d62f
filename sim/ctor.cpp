// C12: the registration constructor met a failing allocation (selected by the
// environment before the library was loaded).  strfrom must work regardless;
// registration is retried, and once it reports success printf must work too.
#include "sim.h"
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
extern int ctor_fired;
typedef float dd __attribute__ ((mode (DD)));
int ctor_run () {
  auto reg = (int (*) (void)) dlsym (lib_handle, "register_printf_dfp");
  auto sf = (int (*) (char *, size_t, const char *, dd)) dlsym (lib_handle, "strfromd64");
  dd x = (dd) 12345.678;
  char b[64], c[64];
  int n = sf (b, sizeof b, "%.2f", x);
  if (n != 8 || strcmp (b, "12345.68")) { printf ("violation: after a failed registration strfromd64 gives %d \"%s\"\n", n, b); return 1; }
  int r = reg (); int fired = ctor_fired;
  n = sf (b, sizeof b, "%.2f", x);
  if (n != 8 || strcmp (b, "12345.68")) { printf ("violation: after registering again strfromd64 gives %d \"%s\"\n", n, b); return 1; }
  if (r == 0) {
    n = snprintf (c, sizeof c, "%.2Df", x);
    if (n != 8 || strcmp (c, "12345.68")) { printf ("violation: registration reports success but printf gives %d \"%s\"\n", n, c); return 1; }
  }
  printf ("fired %d retry %d\n", fired, r);
  return 0;
}
