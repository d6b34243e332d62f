/* C12: the life of a process that loads and unloads the library.  One seed is
   one history of dlopen, dlclose, plain and decimal formatting; printf must
   give the same texts throughout.  Usage: dfpreload LIBRARY SEED [STEPS] */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <printf.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define HOOK(n) void n (void) {}
HOOK (__sanitizer_cov_trace_pc) HOOK (__tsan_func_entry) HOOK (__tsan_func_exit) HOOK (__tsan_init)
HOOK (__tsan_read1) HOOK (__tsan_read2) HOOK (__tsan_read4) HOOK (__tsan_read8) HOOK (__tsan_read16) HOOK (__tsan_read_range)
HOOK (__tsan_write1) HOOK (__tsan_write2) HOOK (__tsan_write4) HOOK (__tsan_write8) HOOK (__tsan_write16) HOOK (__tsan_write_range)
HOOK (__tsan_vptr_update) HOOK (__tsan_vptr_read)
HOOK (__tsan_unaligned_read2) HOOK (__tsan_unaligned_read4) HOOK (__tsan_unaligned_read8) HOOK (__tsan_unaligned_read16)
HOOK (__tsan_unaligned_write2) HOOK (__tsan_unaligned_write4) HOOK (__tsan_unaligned_write8) HOOK (__tsan_unaligned_write16)

typedef float D32 __attribute__ ((mode (SD)));
typedef float D64 __attribute__ ((mode (DD)));
typedef float D128 __attribute__ ((mode (TD)));

static unsigned long long state;
static unsigned rnd (unsigned n)
{
  state ^= state << 13; state ^= state >> 7; state ^= state << 17;
  return (state >> 11) % n;
}

int main (int argc, char **argv)
{
  enum { MAX = 6 };
  void *h[MAX];
  int n = 0, steps = argc > 3 ? atoi (argv[3]) : 60, loads = 0;
  state = strtoull (argv[2], 0, 10) * 0x9e3779b97f4a7c15ull + 1;
  setvbuf (stdout, 0, _IONBF, 0);
  for (int k = 0; k < steps; k++)
    {
      char b[200];
      switch (rnd (6))
	{
	case 0: case 1:
	  if (n < MAX)
	    {
	      h[n] = dlopen (argv[1], RTLD_NOW);
	      if (!h[n])
		{ printf ("violation: step %d: load %d fails: %s\n", k, loads, dlerror ()); return 1; }
	      n++; loads++;
	      fputs ("load ", stdout);
	    }
	  break;
	case 2: case 3:
	  if (n)
	    { dlclose (h[--n]); fputs ("unload ", stdout); }
	  break;
	case 4:
	  fputs ("plain ", stdout);
	  snprintf (b, sizeof b, "%.2f %e %g %Lf %a", 1.25, 2.5, 1e10, 3.5L, 0.5);
	  if (strcmp (b, "1.25 2.500000e+00 1e+10 3.500000 0x1p-1"))
	    { printf ("violation: step %d: printf of binary values gives \"%s\"\n", k, b); return 1; }
	  break;
	default:
	  if (!n)
	    break;
	  fputs ("decimal ", stdout);
	  int (*reg) (void) = (int (*) (void)) dlsym (h[n - 1], "register_printf_dfp");
	  if (rnd (3) == 0 && reg && reg () != 0)
	    { printf ("violation: step %d: registration fails after %d loads\n", k, loads); return 1; }
	  snprintf (b, sizeof b, "%.2Hf %.2Df %.2DDf %.2f", (D32) 1.25, (D64) 2.5, (D128) 3.75, 4.5);
	  if (strcmp (b, "1.25 2.50 3.75 4.50"))
	    { printf ("violation: step %d: after %d loads printf gives \"%s\"\n", k, loads, b); return 1; }
	}
    }
  printf ("\nsteps %d loads %d\n", steps, loads);
  return 0;
}
