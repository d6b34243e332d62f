// Core of the simulator: one simulated run is one forked process in which
// real threads are parked and released one at a time; a plan (itself drawn
// from one PRNG) decides every interleaving, signal, fault and locale change.
#include <set>
#include "engine.h"
#include "hooks.h"
#include "oracle.h"
#include "gen.h"
#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <fenv.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>

const char *cls_name[V_MAX] = {
  "none", "result", "oracle", "decmode", "binmode", "setround", "newthread",
  "flagclear", "flagdiff", "flagieee", "errnozero", "errnodiff", "crash", "hang",
  "leak", "locale", "stream", "cxx", "bound", "faultresult", "register", "width"
};
int cls_by_name (const char *s) {
  for (int i = 1; i < V_MAX; i++) if (!strcmp (cls_name[i], s)) return i;
  return 0;
}

const LocDef locs[NLOC] = {
  {"C", ".", ""},
  {"sim_comma", ",", "."},
  {"sim_mb", "\xd9\xab", "\xd9\xac"},
  {"sim_point", ".", ","},
  {"sim_comma_ns", ",", ""},
};

extern "C" { void *lib_handle; }
static int (*getround_) (void);
static int (*setround_) (int);

// ---------------------------------------------------------------- threads
enum TState { T_NEW, T_READY, T_RUNNING, T_STALLED, T_DONE };
struct Call {
  const Step *st; Inst *in; size_t evi; uint64_t cap; int nest;
  int nalloc, afirst, acount, afail, lfail, locsfail;
  int ncalls; uint64_t ncb;
  int err, flags, mode, bin; locale_t uloc;
  int flagclr, modebad, binbad, locbad, errzero;      // seen at any sub-call
  int yields; uint64_t serial; int locked, nested;
};
struct SimThread {
  int id; pthread_t th; sem_t sem; int state; int cur;
  const std::vector<Step> *steps;
  int mode, flags, err, loc, bin; locale_t lobj;
  Call *call;
  char *alt;
};
static SimThread thr[8];
static int nthr;
static Plan *plan;
static RunOut *out;
static int gfill = 0;
static int refrun = 0;
static Ref *curref;
static int cur_gloc;

static void note (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
#include <cstdarg>
static void note (const char *fmt, ...) {
  if (!out) return;
  int left = (int) sizeof out->trace - out->trlen - 1;
  if (left < 200) return;
  va_list ap; va_start (ap, fmt);
  out->trlen += vsnprintf (out->trace + out->trlen, left, fmt, ap);
  va_end (ap);
}
static void fold (uint64_t v) { out->hash = (out->hash ^ v) * 0x100000001b3ull + (out->hash >> 29); }
static void foldi (uint64_t v) { out->ileave = (out->ileave ^ v) * 0x100000001b3ull + (out->ileave >> 31); fold (v); }

static void viol (int cls, SimThread *t, int inst, const char *fmt, ...) __attribute__ ((format (printf, 4, 5)));
static void viol (int cls, SimThread *t, int inst, const char *fmt, ...) {
  if (!out || out->nviol >= 6) return;
  Viol &v = out->viol[out->nviol++];
  v.cls = cls; v.thread = t ? t->id : 0; v.step = t ? t->cur : 0; v.inst = inst;
  va_list ap; va_start (ap, fmt);
  vsnprintf (v.msg, sizeof v.msg, fmt, ap);
  va_end (ap);
  fold (cls * 1000003ull);
}
static int inst_index (Inst *in) {
  if (plan) for (size_t i = 0; i < plan->insts.size (); i++) if (plan->insts[i] == in) return (int) i;
  return -1;
}

static void finish () __attribute__ ((noreturn));
static void finish () { out->done = 1; _exit (0); }

static const char *pcname (void *pc, char *b, size_t n) {
  Dl_info di;
  if (dladdr (pc, &di) && di.dli_sname) snprintf (b, n, "%s+0x%lx", di.dli_sname, (long) ((char *) pc - (char *) di.dli_saddr));
  else if ((uintptr_t) pc >= lib_base && (uintptr_t) pc < lib_text_end) snprintf (b, n, "lib+0x%lx", (long) ((uintptr_t) pc - lib_base));
  else snprintf (b, n, "code outside the library");
  return b;
}

static void on_crash (int sig, siginfo_t *, void *uc) {
  if (out && !out->crashed_sig) {
    out->crashed_sig = sig;
    out->crash_pc = ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP];
    SimThread *t = hk.t;
    out->crash_thread = t ? t->id : 0; out->crash_step = t ? t->cur : 0;
    pcname ((void *) out->crash_pc, out->crash_sym, sizeof out->crash_sym);
  }
  _exit (99);
}
static void altstack (SimThread *t) {
  if (!t->alt) t->alt = (char *) mmap (0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss = {}; ss.ss_sp = t->alt; ss.ss_size = 65536;
  sigaltstack (&ss, 0);
}
static void on_nest (int);
static void crash_handlers () {
  static int devnull = open ("/dev/null", O_WRONLY | O_CLOEXEC);
  if (devnull >= 0) dup2 (devnull, 2);           // libc's own last words
  struct sigaction sa = {};
  sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction (s, &sa, 0);
  sa.sa_handler = on_nest; sa.sa_flags = 0;
  sigaction (SIGUSR1, &sa, 0);
  struct rlimit rl = {0, 0}; setrlimit (RLIMIT_CORE, &rl);
}

// ---------------------------------------------------------------- heap
// Blocks allocated inside libdfp calls, to see what a call leaves behind.
struct Blk { void *p; uint64_t serial; int thread; };
static Blk blk[8192]; static int nblk;
static uint64_t serial_no;
static int poison;
static void blk_add (void *p) {
  if (p && nblk < 8192) blk[nblk++] = Blk {p, ++serial_no, hk.t ? hk.t->id : 0};
}
static void blk_del (void *p) {
  for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == p) { blk[i] = blk[--nblk]; return; }
}
static int blk_live (int thread, uint64_t since) {
  int n = 0;
  for (int i = 0; i < nblk; i++) if (blk[i].thread == thread && blk[i].serial > since) n++;
  return n;
}
// Failing allocations before main, for the registration constructor.
static int ctor_first = -2, ctor_seen; static int in_main;
int ctor_fired;
static bool alloc_fails () {
  if (!hk.on || !hk.t || !hk.t->call) return false;
  Call *c = hk.t->call;
  int k = c->nalloc++;
  if (c->afirst >= 0 && k >= c->afirst && k < c->afirst + c->acount) {
    c->afail++; errno = ENOMEM;
    if (out && !c->nest) { out->allocfails++; foldi (0xA110C + k); note ("    T%d allocation %d fails\n", hk.t->id, k); }
    return true;
  }
  return false;
}
extern "C" {
void *__libc_malloc (size_t); void __libc_free (void *); void *__libc_calloc (size_t, size_t);
void *__libc_realloc (void *, size_t); void *__libc_memalign (size_t, size_t);
// allocations made while the library's constructors run are recognised by the
// registration wrappers below, which set this
static int ctor_window;
static bool ctor_fail () {
  if (in_main || !ctor_window) return false;
  if (ctor_first == -2) { const char *e = getenv ("DFPSIM_CTOR_FAIL"); ctor_first = e ? atoi (e) : -1; }
  if (ctor_first < 0) return false;
  if (ctor_seen++ == ctor_first) { ctor_fired++; errno = ENOMEM; return true; }
  return false;
}
void *malloc (size_t n) {
  if (ctor_fail ()) return 0;
  if (!hk.on) return __libc_malloc (n);
  if (alloc_fails ()) return 0;
  void *p = __libc_malloc (n);
  if (p) { memset (p, gfill, n); blk_add (p); }
  return p;
}
void free (void *p) {
  if (!p) return;
  if (nblk) blk_del (p);
  if (hk.on || poison) { int e = errno; memset (p, 0xDD, malloc_usable_size (p)); errno = e; }
  __libc_free (p);
}
void *calloc (size_t a, size_t b) {
  if (ctor_fail ()) return 0;
  if (!hk.on) return __libc_calloc (a, b);
  if (alloc_fails ()) return 0;
  void *p = __libc_calloc (a, b); blk_add (p); return p;
}
void *realloc (void *q, size_t n) {
  if (ctor_fail ()) return 0;
  if (!hk.on) { if (q && nblk) { bool was = false; for (int i = 0; i < nblk; i++) if (blk[i].p == q) was = true;
      void *p = __libc_realloc (q, n); if (was && p) { for (int i = 0; i < nblk; i++) if (blk[i].p == q) { blk[i].p = p; break; } } return p; }
    return __libc_realloc (q, n); }
  if (alloc_fails ()) return 0;
  void *p = __libc_realloc (q, n);
  if (p) { if (q) blk_del (q); blk_add (p); }
  return p;
}
void *memalign (size_t a, size_t n) {
  if (hk.on && alloc_fails ()) return 0;
  void *p = __libc_memalign (a, n); if (hk.on) blk_add (p); return p;
}
void *aligned_alloc (size_t a, size_t n) { return memalign (a, n); }
int posix_memalign (void **r, size_t a, size_t n) { void *p = memalign (a, n); if (!p) return ENOMEM; *r = p; return 0; }

// ---- locale objects: one more resource that can be refused
locale_t newlocale (int mask, const char *name, locale_t base) {
  static locale_t (*real) (int, const char *, locale_t);
  if (!real) real = (locale_t (*) (int, const char *, locale_t)) dlsym (RTLD_NEXT, "newlocale");
  if (hk.on && hk.t && hk.t->call) {
    Call *c = hk.t->call;
    if (c->locsfail && name && strcmp (name, "C") && strcmp (name, "POSIX") && *name) {
      c->lfail++; errno = ENOENT;
      if (out && !c->nest) { out->locfails++; foldi (0x10CA1E); note ("    T%d locale object refused\n", hk.t->id); }
      return 0;
    }
  }
  return real (mask, name, base);
}

// ---- printf registration during load (constructor faults)
int register_printf_modifier (const wchar_t *s) {
  static int (*real) (const wchar_t *);
  if (!real) real = (int (*) (const wchar_t *)) dlsym (RTLD_NEXT, "register_printf_modifier");
  ctor_window++; int r = real (s); ctor_window--; return r;
}
typedef void va_fn (void *, va_list *);
int register_printf_type (va_fn *f) {
  static int (*real) (va_fn *);
  if (!real) real = (int (*) (va_fn *)) dlsym (RTLD_NEXT, "register_printf_type");
  ctor_window++; int r = real (f); ctor_window--; return r;
}
struct printf_info;
int register_printf_specifier (int s, int (*f) (FILE *, const struct printf_info *, const void *const *), int (*g) (const struct printf_info *, size_t, int *, int *)) {
  typedef int fn (int, int (*) (FILE *, const struct printf_info *, const void *const *), int (*) (const struct printf_info *, size_t, int *, int *));
  static fn *real;
  if (!real) real = (fn *) dlsym (RTLD_NEXT, "register_printf_specifier");
  ctor_window++; int r = real (s, f, g); ctor_window--; return r;
}

// ---- locks: the simulator decides who waits; nobody blocks in the kernel
static void lock_wait ();
int pthread_mutex_lock (pthread_mutex_t *m) {
  static int (*real) (pthread_mutex_t *);
  if (!real) real = (int (*) (pthread_mutex_t *)) dlsym (RTLD_NEXT, "pthread_mutex_lock");
  if (!hk.on || !hk.t) return real (m);
  int r;
  while ((r = pthread_mutex_trylock (m)) == EBUSY) lock_wait ();
  return r;
}
int pthread_once (pthread_once_t *o, void (*f) (void)) {
  volatile int *s = (volatile int *) o;
  while (*s == 1) lock_wait ();
  if (*s == 2) return 0;
  *s = 1; f (); *s = 2;
  return 0;
}
}

// ---------------------------------------------------------------- scheduling
static void thread_body (SimThread *t);
static void *thread_main (void *p) {
  SimThread *t = (SimThread *) p;
  while (sem_wait (&t->sem)) ;
  t->state = T_RUNNING;
  altstack (t);
  thread_body (t);
  return 0;
}
static void release (SimThread *n) {
  if (n->state == T_NEW && !n->th) {
    if (pthread_create (&n->th, 0, thread_main, n)) { fprintf (stderr, "pthread_create\n"); _exit (98); }
  }
  sem_post (&n->sem);
}
static SimThread *pick (SimThread *self, int arg) {
  SimThread *c[8]; int k = 0;
  for (int i = 0; i < nthr; i++)
    if (&thr[i] != self && (thr[i].state == T_READY || thr[i].state == T_NEW)) c[k++] = &thr[i];
  return k ? c[(unsigned) arg % k] : 0;
}
static void park (SimThread *t) {
  while (sem_wait (&t->sem)) ;
  t->state = T_RUNNING;
}
static bool switch_away (SimThread *t, int arg, int state) {
  SimThread *n = pick (t, arg);
  if (!n) return false;
  t->state = state;
  release (n);
  park (t);
  return true;
}
static void lock_wait () {
  SimThread *t = hk.t;
  int on = hk.on; hk.on = 0;
  Call *c = t ? t->call : 0;
  if (!c || ++c->yields > 2000 || !switch_away (t, 0, T_READY)) {
    if (out) {
      viol (V_HANG, t, c ? inst_index (c->in) : -1, "call waits for a lock that no running thread can release");
      finish ();
    }
    _exit (97);
  }
  hk.t = t; hk.on = on;
}

static uint64_t next_stop (Call *c) {
  uint64_t s = c->cap;
  if (c->st && !c->nest && c->evi < c->st->ev.size ()) { uint64_t e = c->st->ev[c->evi].cb; if (e < s) s = e; }
  return s;
}
static void exec_step (SimThread *t, const Step &s, int nest);

static Step *nest_step; static SimThread *nest_thread;
static void on_nest (int) { if (nest_step) exec_step (nest_thread, *nest_step, 1); }

static void do_nest (SimThread *t, int arg, const char *where) {
  Step s; s.inst = arg & 0xffff; s.setmode = (arg >> 16) - 1;
  if (s.inst >= (int) plan->insts.size ()) return;
  Call *saved = t->call;
  Hook h = hk;
  int m = t->mode, f = t->flags, e = t->err;
  int real_mode = getround_ ();
  out->nests++;
  saved->nested = 1;
  foldi (0x516 + arg);
  note ("    T%d signal handler runs %s [%s]\n", t->id, op_table[plan->insts[s.inst]->op].sym, where);
  nest_step = &s; nest_thread = t;
  t->mode = real_mode >= 0 && real_mode < 5 ? real_mode : 0;
  raise (SIGUSR1);
  nest_step = 0;
  setround_ (real_mode);
  t->mode = m; t->flags = f; t->err = e;
  t->call = saved;
  hk = h;
}

void sim_stop (void *pc) {
  SimThread *t = hk.t;
  Call *c = t ? t->call : 0;
  if (!c) { hk.stop = ~0ull; return; }
  int e = errno;
  fenv_t env; fegetenv (&env);
  hk.on = 0;
  char b[96];
  if (c->st && !c->nest)
    while (c->evi < c->st->ev.size () && c->st->ev[c->evi].cb <= hk.n) {
      const Ev &ev = c->st->ev[c->evi++];
      uint64_t off = (uintptr_t) pc - lib_base;
      if (ev.kind == EV_NEST) { do_nest (t, ev.arg, pcname (pc, b, sizeof b)); hk.on = 0; }
      else {
        SimThread *n = pick (t, ev.arg);
        if (!n) continue;
        if (ev.kind == EV_STALL) out->stalls++; else out->switches++;
        foldi (off * 8 + t->id); foldi (n->id * 31 + ev.kind);
        note ("    T%d %s in %s at callback %lu [%s] -> T%d\n", t->id, ev.kind == EV_STALL ? "stopped forever" : "preempted",
              op_table[c->in->op].sym, (unsigned long) hk.n, pcname (pc, b, sizeof b), n->id);
        t->state = ev.kind == EV_STALL ? T_STALLED : T_READY;
        release (n);
        park (t);
      }
    }
  if (hk.n >= c->cap) {
    if (refrun) { curref->hung = 1; _exit (0); }
    if (!c->nest && c->yields < 200 && pick (t, c->yields)) {
      switch_away (t, c->yields++, T_READY); c->cap = hk.n + 100000;
    } else {
      viol (V_HANG, t, inst_index (c->in), "%s: no return within %lu instrumented steps", op_table[c->in->op].sym, (unsigned long) hk.n);
      finish ();
    }
  }
  hk.t = t;
  hk.stop = next_stop (c);
  hk.on = 1;
  fesetenv (&env);
  errno = e;
}

void sim_hot (uint64_t n) {
  if (!curref) return;
  int k = curref->nhot++;
  if (k < 32) curref->hot[k] = n;
  else { uint64_t r = mix (n, k) % (k + 1); if (r < 32) curref->hot[r] = n; }
}

static void __attribute__ ((noinline)) scrub_stack (int byte) {
  volatile char b[24 * 1024];
  memset ((void *) b, byte, sizeof b);
  __asm__ volatile ("" :: "r" (b) : "memory");
}

// ---- bracket of each real call
extern "C" void sim_enter (void) {
  SimThread *t = hk.t; Call *c = t->call;
  if (!c->ncalls) { c->flags = t->flags; c->err = t->err; }
  c->ncalls++;
  scrub_stack (gfill);
  feclearexcept (FE_ALL_EXCEPT);
  if (c->flags) fesetexcept (c->flags);
  fesetround (t->bin);
  hk.n = c->ncb; hk.stop = next_stop (c); hk.rec = refrun;
  errno = c->err;
  hk.on = 1;
}
extern "C" void sim_leave (void) {
  int e = errno;
  hk.on = 0;
  SimThread *t = hk.t; Call *c = t->call;
  int f = fetestexcept (FE_ALL_EXCEPT);
  c->ncb = hk.n;
  if (c->flags & ~f) c->flagclr = c->flags & ~f;
  if (e == 0 && c->err != 0) c->errzero = c->err;
  c->err = e; c->flags = f;
  c->mode = getround_ ();
  c->bin = fegetround ();
#ifdef __SSE__
  if ((int) (__builtin_ia32_stmxcsr () & 0x6000) >> 3 != c->bin) c->bin = (__builtin_ia32_stmxcsr () & 0x6000) >> 3 == (unsigned) t->bin ? -1 : (int) (__builtin_ia32_stmxcsr () & 0x6000) >> 3;
#endif
  if (c->bin != FE_TONEAREST) fesetround (FE_TONEAREST);   // the simulator's own code
  c->uloc = uselocale ((locale_t) 0);
}

// ---------------------------------------------------------------- references
// The library's thread-local block of the calling thread.
static size_t lib_tls_len;
static int find_tls (struct dl_phdr_info *i, size_t, void *p) {
  if (!strstr (i->dlpi_name, "libdfp")) return 0;
  *(unsigned char **) p = (unsigned char *) i->dlpi_tls_data;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) lib_tls_len = i->dlpi_phdr[k].p_memsz;
  return 1;
}
static unsigned char *lib_tls () { unsigned char *p = 0; dl_iterate_phdr (find_tls, &p); return p; }
// What the call gives as the first call of a fresh process.
static Ref *shref;                       // shared mapping
static void run_ref_child (const OpDef *o, const Args *a, int mode, int loc) {
  if (loc >= 0) {
    locale_t l = newlocale (LC_ALL_MASK, locs[loc].name, 0);
    if (!l) { fprintf (stderr, "locale %s missing\n", locs[loc].name); _exit (96); }
    uselocale (l);
  }
  memset (thr, 0, sizeof thr); nthr = 1;
  SimThread *t = &thr[0];
  t->state = T_RUNNING; t->mode = mode;
  Call c; memset (&c, 0, sizeof c);
  c.in = 0; c.cap = 60000000; c.afirst = -1;
  setround_ (mode);
  t->call = &c; hk.t = t;
  refrun = 1; curref = shref; gfill = 0x5C;
  altstack (t);
  std::vector<unsigned char> snap;
  for (int i = 0; i < n_lib_data; i++)
    snap.insert (snap.end (), (unsigned char *) lib_data[i].lo, (unsigned char *) lib_data[i].hi);
  unsigned char *tls = lib_tls ();
  std::vector<unsigned char> tsnap (tls, tls ? tls + lib_tls_len : tls);
  memset (&shref->res, 0, sizeof shref->res);
  op_call (o, a, &shref->res, 1);
  size_t k = 0;
  for (int i = 0; i < n_lib_data; i++) {
    size_t len = lib_data[i].hi - lib_data[i].lo;
    if (memcmp (snap.data () + k, (void *) lib_data[i].lo, len)) {
      shref->dirty = 1;
      for (size_t z = 0; z + 8 <= len && shref->nleft < 32; z += 8) if (memcmp (snap.data () + k + z, (char *) lib_data[i].lo + z, 8)) shref->left[shref->nleft++] = (int) (k + z);
    }
    k += len;
  }
  for (size_t z = 0; z < tsnap.size () && shref->nleft < 32; z += 4) if (memcmp (tsnap.data () + z, tls + z, 4)) shref->left[shref->nleft++] = -1 - (int) z;
  if (blk_live (t->id, c.serial) > 0 && shref->nleft < 32) shref->left[shref->nleft++] = 1 << 30;
  shref->flags = c.flags; shref->err = c.err; shref->mode = c.mode; shref->ncb = c.ncb; shref->nalloc = c.nalloc;
  _exit (0);
}
uint64_t stat_refs;
// word of the library's memory -> operations that change it; one that many
// change (the flags of libbid) distinguishes none of them
static const size_t RARE = 15;
static std::map<int, std::set<int>> word_users;
Ref *get_ref (Inst *in, int mode, int variant) {
  auto key = mode * 16 + variant;
  auto it = in->refs.find (key);
  if (it != in->refs.end ()) return it->second;
  const OpDef *o = &op_table[in->op];
  Args a = in->args; int loc = -1;
  if (variant >= 1 && variant < 1 + NLOC) { // input as the C locale would spell it
    std::vector<int> m;
    std::string s = to_c_spelling (std::string (a.str, a.slen), variant - 1, m);
    memset (a.str, 0, sizeof a.str);
    memcpy (a.str, s.data (), s.size ()); a.slen = s.size ();
  } else if (variant >= 8) loc = variant - 8;
  memset (shref, 0, sizeof *shref);
  pid_t p = fork ();
  if (p == 0) { out = 0; plan = 0; alarm (60); run_ref_child (o, &a, mode, loc); }
  int st; while (waitpid (p, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 96) exit (96);
  if (!(WIFEXITED (st) && WEXITSTATUS (st) == 0)) shref->crashed = 1;
  if (WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM) { shref->crashed = 0; shref->hung = 1; }
  stat_refs++;
  Ref *r = (Ref *) malloc (sizeof (Ref));
  *r = *shref;
  in->refs[key] = r;
  for (int i = 0; i < r->nleft; i++) { auto &u = word_users[r->left[i]]; if (u.size () <= RARE) u.insert (in->op); }
  return r;
}
// Did a reference call of IN change memory of the library that few operations change?
bool leaves_state (const Inst *in) {
  for (auto &q : in->refs)
    for (int i = 0; i < q.second->nleft; i++) if (word_users[q.second->left[i]].size () <= RARE) return true;
  return false;
}
// Operations that leave something behind in the library's memory: the ones whose
// later calls could see it.  Found by running each a few times alone.
std::vector<int> stateful_ops;
void screen_ops (uint64_t seed) {
  std::vector<Inst *> all;
  for (int i = 0; i < op_count; i++) {
    int k = op_table[i].kind;
    if (k == K_SETROUND || k == K_REGISTER || k == K_FOREIGN || k == K_CXX_IN || k == K_CXX_OUT) continue;
    Rng r (mix (seed, i));
    for (int n = 0; n < 3; n++) {
      Inst *in = gen_inst (i, r, "C14");
      get_ref (in, (int) r.below (5), 0);
      all.push_back (in);
    }
  }
  for (auto *in : all) {
    if (leaves_state (in) && (stateful_ops.empty () || stateful_ops.back () != in->op)) stateful_ops.push_back (in->op);
    for (auto &q : in->refs) free (q.second);
    delete in;
  }
}
// Translate INPUT, meant for locale L, to the C locale; MAP gives the index in
// INPUT of every index of the result.
std::string to_c_spelling (const std::string &in, int l, std::vector<int> &map) {
  std::string o; size_t i = 0; const std::string d = locs[l].dec;
  map.clear ();
  while (i < in.size ()) {
    map.push_back (i);
    if (in.compare (i, d.size (), d) == 0) { o += '.'; i += d.size (); }
    else if (in[i] == '.') { o += '~'; i++; }
    else o += in[i++];
  }
  map.push_back (i);
  return o;
}
std::string from_c_text (const std::string &in, int l) {
  std::string o;
  for (char c : in) if (c == '.') o += locs[l].dec; else o += c;
  return o;
}
// Variant of the reference that judges OP with ARGS in locale L.
int ref_variant (const OpDef *o, const Args *a, int l) {
  if (l == 0) return 0;
  if (o->kind == K_STRTOD || o->kind == K_WCSTOD) return 1 + l;
  if (o->kind == K_CXX_IN || o->kind == K_CXX_OUT) return 8 + l;
  return 0;
}
Orc *get_orc (Inst *in, int mode) {
  if (mode < 0 || mode > 4) return 0;
  Orc &c = in->orc[mode];
  if (!c.state) c.state = oracle_expect (&op_table[in->op], &in->args, mode, c.out, &c.kind, &c.flags) ? 2 : 1;
  return c.state == 2 ? &c : 0;
}

// ---------------------------------------------------------------- judging
static std::string hexs (const void *p, int n) {
  static const char *d = "0123456789abcdef"; std::string s;
  for (int i = n - 1; i >= 0; i--) { s += d[((const unsigned char *) p)[i] >> 4]; s += d[((const unsigned char *) p)[i] & 15]; }
  return s;
}
static bool is_dec_result (const OpDef *o) {
  switch (o->kind) {
    case K_D_D: case K_D_DD: case K_D_DT: case K_D_DDD: case K_D_DI: case K_D_DL: case K_D_DpI: case K_D_DpD: case K_D_S:
    case K_CVT: case K_SI2D: case K_DI2D: case K_TI2D: case K_SF2D: case K_DF2D: case K_XF2D: case K_TF2D:
    case K_STRTOD: case K_WCSTOD: return true;
  }
  return false;
}
static bool is_text (const OpDef *o) {
  switch (o->kind) { case K_DEC: case K_STRFROM: case K_SNPRINTF: case K_SWPRINTF: case K_PRINTF_DFP: case K_FPRINTF: return true; }
  return false;
}
bool op_is_print (const OpDef *o) { return is_text (o) && o->kind != K_DEC; }
// operations that have no way to fail, and so never touch errno
static bool never_errs (const OpDef *o) {
  if (!strncmp (o->sym, "ilogb", 5)) return false;
  if (o->groups & (G_ARITH | G_CMP)) return true;
  if (o->kind == K_DEC || o->kind == K_CVT || o->kind == K_SETROUND) return true;
  if (o->kind >= K_SI2D && o->kind <= K_TI2D) return true;
  static const char *const n[] = {"fabs", "ceil", "floor", "trunc", "round", "rint", "nearbyint", "copysign", 0};
  for (int i = 0; n[i]; i++) { size_t l = strlen (n[i]); if (!strncmp (o->sym, n[i], l) && o->sym[l] == 'd') return true; }
  return op_is_print (o);
}
static bool dec_isnan (int w, const unsigned char *b) { return dec_decode (w, b).cls >= 2; }
static bool dec_numeq (int w, const unsigned char *x, const unsigned char *y) {
  Dec a = dec_decode (w, x), b = dec_decode (w, y);
  if (a.cls || b.cls) return a.cls == b.cls && a.sign == b.sign;
  if (a.sign != b.sign) return false;
  if (!a.c || !b.c) return a.c == b.c;
  while (a.c % 10 == 0) { a.c /= 10; a.e++; }
  while (b.c % 10 == 0) { b.c /= 10; b.e++; }
  return a.c == b.c && a.e == b.e;
}
static std::string describe (const OpDef *o, const Args *a) {
  std::string s = o->sym; char b[160];
  int na = 0;
  switch (o->kind) { case K_D_DD: case K_I_DD: na = 2; break; case K_D_DDD: na = 3; break;
    case K_STRTOD: case K_WCSTOD: case K_D_S: case K_SETROUND: case K_REGISTER: case K_FOREIGN: case K_CXX_IN: na = 0; break; default: na = 1; }
  s += '(';
  for (int i = 0; i < na; i++) { if (i) s += ','; s += "0x" + hexs (a->a[i], (o->kind >= K_SI2D && o->kind <= K_TF2D) ? 16 : o->w / 8); }
  if (o->kind == K_STRTOD || o->kind == K_WCSTOD || o->kind == K_D_S || o->kind == K_CXX_IN) { s += '"'; s += std::string (a->str, a->slen > 90 ? 90 : a->slen); s += '"'; }
  if (o->kind == K_STRFROM) { snprintf (b, sizeof b, ",n=%lld,\"%.20s\"", a->i, a->str); s += b; }
  else if (is_text (o) && o->kind != K_DEC) { snprintf (b, sizeof b, ",%%%d.%d%c flags %d", a->width, a->prec, a->spec, a->pflags); s += b; }
  if (o->kind == K_D_DI || o->kind == K_D_DL || o->kind == K_SETROUND || o->kind == K_FOREIGN) { snprintf (b, sizeof b, ",%lld", a->i); s += b; }
  if ((o->groups & G_STREAM) || o->kind == K_CXX_OUT || o->kind == K_CXX_IN) { snprintf (b, sizeof b, ",device buf %d failat %d times %d chunk %d err %d mask %d", a->bufmode, a->failat, a->failcnt, a->chunk, a->err, a->mask); s += b; }
  s += ')';
  for (auto &ch : s) if ((unsigned char) ch < 32 || (unsigned char) ch > 126) ch = '?';
  return s;
}

static std::string group_c_text (const std::string &c, int l) {
  // insert the separator in the integer part of plain C text
  std::string d = from_c_text (c, l), sep = locs[l].sep;
  if (sep.empty ()) return d;
  size_t i = 0; while (i < d.size () && !(d[i] >= '0' && d[i] <= '9')) i++;
  size_t e = i; while (e < d.size () && d[e] >= '0' && d[e] <= '9') e++;
  std::string o = d.substr (0, i);
  for (size_t k = i; k < e; k++) { if (k > i && (e - k) % 3 == 0) o += sep; o += d[k]; }
  return o + d.substr (e);
}

struct Kept { int thread, inst; uint64_t from, to; };
static std::vector<Kept> kept;

static bool has_width (const OpDef *o, const Args *a) { return op_is_print (o) && o->kind != K_STRFROM && a->width > 0; }
static Inst *plain_of (Inst *in) {
  if (!in->plain) { in->plain = new Inst; in->plain->op = in->op; in->plain->args = in->args; in->plain->args.width = 0; in->plain->args.failat = -1; }
  return in->plain;
}

// characters of a text: those of a wide stream count once however many bytes
// the device gets for them
static size_t text_len (const OpDef *o, const std::string &s) {
  if (!(o->groups & G_WIDE)) return s.size ();
  size_t n = 0;
  for (char c : s) n += ((unsigned char) c & 0xc0) != 0x80;
  return n;
}

static std::string padded (const OpDef *o, const Args *a, std::string s) {
  if (a->width <= 0 || (int) text_len (o, s) >= a->width) return s;
  size_t pad = a->width - text_len (o, s), sign = !s.empty () && (s[0] == '-' || s[0] == '+' || s[0] == ' ');
  if (a->pflags & 8) s.append (pad, ' ');
  else if (a->pflags & 32 && !dec_decode (o->w, a->a[0]).cls) s.insert (sign, pad, '0');
  else s.insert (0, pad, ' ');
  return s;
}

static void judge (SimThread *t, Call *c, Inst *in, Res *r, int loc) {
  const OpDef *o = &op_table[in->op]; const Args *a = &in->args;
  int ii = inst_index (in);
  bool multi = o->kind == K_CXX_IN || o->kind == K_CXX_OUT;
  const char *nst = c->nest ? " (in a signal handler)" : "";
  std::string D = describe (o, a) + nst;
  const char *d = D.c_str ();
  // ---- state that no call may change
  int wantmode = t->mode;
  if (o->kind == K_SETROUND) {
    bool ok = a->i >= 0 && a->i <= 4 && (int) a->i == a->i;
    if (ok) wantmode = (int) a->i;
    if ((r->ri == 0) != ok) viol (V_SETROUND, t, ii, "fe_dec_setround(%lld) returned %lld", a->i, r->ri);
    if (c->mode != wantmode) viol (V_SETROUND, t, ii, "after fe_dec_setround(%lld) the mode is %d, expected %d", a->i, c->mode, wantmode);
    t->mode = c->mode;
  } else if (c->mode != wantmode) {
    viol (V_MODE, t, ii, "%s in mode %d left the thread in decimal rounding mode %d", d, wantmode, c->mode);
    setround_ (wantmode);
  }
  if (c->bin != t->bin) viol (V_BINMODE, t, ii, "%s changed the binary rounding mode (0x%x to 0x%x)", d, t->bin, c->bin);
  if (c->uloc != (t->lobj ? t->lobj : LC_GLOBAL_LOCALE)) viol (V_LOCALE, t, ii, "%s changed the thread's locale", d);
  if (c->flagclr) viol (V_FLAGCLR, t, ii, "%s cleared exception flags 0x%x raised before the call", d, c->flagclr);
  if (c->errzero) viol (V_ERRZERO, t, ii, "%s set errno to zero (was %d)", d, c->errzero);
  if (o->kind == K_REGISTER || o->kind == K_FOREIGN || o->kind == K_SETROUND) {
    if (o->kind == K_REGISTER && r->ri && !c->afail) {
      // a refusal is allowed; what was registered must go on working, which the later steps show
      note ("    register_printf_dfp returned %lld\n", r->ri);
    }
    return;
  }
  // ---- references
  int variant = ref_variant (o, a, loc);
  Ref *ref = get_ref (in, wantmode, variant);
  if (ref->crashed) { viol (V_CRASH, t, ii, "%s crashes a fresh process", d); return; }
  if (ref->hung) { viol (V_HANG, t, ii, "%s never returns in a fresh process", d); return; }
  if (multi) {
    bool lost = c->afail || c->lfail;
    const char *w = lost ? cxx_check_fault (o, a, r, &ref->res) : cxx_check (o, a, r, &ref->res);
    if (w) viol (lost ? V_FAULTRES : V_CXX, t, ii, "%s: %s", d, w);
    return;
  }
  bool faulted = c->afail || c->lfail;
  // ---- flags
  // a handler's own arithmetic may add to the flags of the call it interrupts
  if (!faulted && !r->fired && !c->nested && c->flags != (t->flags | ref->flags))
    viol (V_FLAGDIFF, t, ii, "%s in mode %d: flags 0x%x before, 0x%x after; alone it raises 0x%x", d, wantmode, t->flags, c->flags, ref->flags);
  Orc *q = variant == 0 && loc == 0 ? get_orc (in, wantmode) : 0;
  if (q && q->flags >= 0 && (o->groups & G_ARITH) && !faulted && !c->nested && (c->flags & ~t->flags) != (q->flags & ~t->flags))
    viol (V_FLAGIEEE, t, ii, "%s in mode %d raised flags 0x%x, IEEE 754 requires 0x%x", d, wantmode, c->flags & ~t->flags, q->flags & ~t->flags);
  if (variant == 0 && loc == 0) {
    int fre, xf = exact_flags (o, a, wantmode, &fre);
    if (xf >= 0 && ((ref->flags ^ xf) & ~fre & FE_ALL_EXCEPT))
      viol (V_FLAGIEEE, t, ii, "%s in mode %d raises flags 0x%x alone, IEEE 754 requires 0x%x", d, wantmode, ref->flags, xf);
  }
  if (variant == 0 && loc == 0 && (o->kind == K_STRTOD || o->kind == K_WCSTOD)) {
    int what;
    if (const char *e = text_exact (o, a, wantmode, &ref->res, ref->flags, ref->err, &what))
      viol (what == 0 ? V_ORACLE : what == 1 ? V_FLAGIEEE : V_ERRDIFF, t, ii, "%s in mode %d = 0x%s, %lld: %s (alone: errno %d, flags 0x%x)", d, wantmode,
	    hexs (ref->res.r, o->w / 8).c_str (), ref->res.ri, e, ref->err, ref->flags);
  }
  if (const char *e = flag_rule (o, a, &ref->res, ref->flags)) 
    viol (V_FLAGIEEE, t, ii, "%s in mode %d = 0x%s: %s (alone it raises 0x%x)", d, wantmode, hexs (ref->res.r, o->w / 8).c_str (), e, ref->flags);
  // ---- errno
  bool trunc = (o->kind == K_STRFROM || o->kind == K_SNPRINTF) && a->i <= (long long) ref->res.ri;
  if (!faulted && !r->fired) {
    int want = ref->err ? ref->err : t->err;
    if (c->err != want) viol (V_ERRDIFF, t, ii, "%s: errno %d before, %d after, expected %d", d, t->err, c->err, want);
    else if (ref->err && never_errs (o)) viol (V_ERRDIFF, t, ii, "%s cannot fail but sets errno to %d", d, ref->err);
    else if (ref->err && is_text (o)) viol (V_ERRDIFF, t, ii, "%s succeeds but sets errno to %d", d, ref->err);
    else if (const char *e = errno_rule (o, a, &ref->res, ref->err)) viol (V_ERRDIFF, t, ii, "%s = 0x%s: %s (alone: errno %d)", d, hexs (ref->res.r, o->w / 8).c_str (), e, ref->err);
  }
  (void) trunc;
  // ---- results
  if (r->guard) viol (V_BOUND, t, ii, "%s wrote %d bytes outside the caller's buffer", d, r->guard);
  if (is_text (o)) {
    std::string ctext (ref->res.text, ref->res.tlen), want = ctext;
    bool grouped = op_is_print (o) && o->kind != K_STRFROM && (a->pflags & 16);
    long wri = ref->res.ri;
    Ref *plain = has_width (o, a) ? get_ref (plain_of (in), wantmode, 0) : 0;
    if (plain && (plain->crashed || plain->hung)) return;
    if (plain && padded (o, a, std::string (plain->res.text, plain->res.tlen)) != ctext)
      viol (V_WIDTH, t, ii, "%s alone gives \"%.80s\", without the width it is \"%.60s\"", d, ctext.c_str (), plain->res.text);
    if (loc && op_is_print (o)) {
      // the text without a width, spelt for the locale, then padded
      if (plain) ctext = std::string (plain->res.text, plain->res.tlen);
      want = grouped ? group_c_text (ctext, loc) : from_c_text (ctext, loc);
      if (o->kind == K_SWPRINTF)                             // the harness keeps one '?' per wide character
        for (const char *m : {locs[loc].dec, locs[loc].sep})
          for (size_t p; m[0] && m[1] && (p = want.find (m)) != std::string::npos; ) want.replace (p, strlen (m), "?");
      want = padded (o, a, want);
      wri = (long) text_len (o, want);
    }
    if (o->kind == K_STRFROM || o->kind == K_SNPRINTF) {
      std::string full = want; size_t n = (size_t) a->i;
      if (faulted) {
        bool same = r->ri == wri && std::string (r->text, r->tlen) == full.substr (0, n ? n - 1 : 0);
        if (!same && !(r->ri <= 0 && (c->err == ENOMEM || c->lfail)))
          viol (V_FAULTRES, t, ii, "%s under failed allocation returned %lld (errno %d), neither its result nor a failure", d, r->ri, c->err);
        return;
      }
      std::string exp = n ? full.substr (0, n - 1) : "";
      bool small = n <= full.size ();
      if (n && !r->ri2) viol (V_BOUND, t, ii, "%s left the buffer without a terminating null", d);
      if (std::string (r->text, r->tlen) != exp)
        viol (small ? V_BOUND : V_RESULT, t, ii, "%s stored \"%.60s\", expected \"%.60s\"", d, std::string (r->text, r->tlen).c_str (), exp.c_str ());
      if (r->ri != wri || (o->kind == K_STRFROM && r->ri != (long long) full.size ()))
        viol (V_BOUND, t, ii, "%s returned %lld, full length is %ld (text %zu)", d, r->ri, wri, full.size ());
    } else if (o->groups & G_STREAM) {
      std::string got (r->text, r->tlen);
      if (faulted) {
        if (!(got == want && r->ri == wri) && !(r->ri < 0 && want.compare (0, got.size (), got) == 0))
          viol (V_FAULTRES, t, ii, "%s under failed allocation returned %lld", d, r->ri);
        return;
      }
      if (want.compare (0, got.size (), got) || got.size () > want.size ())
        viol (r->fired ? V_STREAM : V_RESULT, t, ii, "%s delivered \"%.60s\", %s \"%.60s\"", d, got.c_str (), r->fired ? "no prefix of" : "expected", want.c_str ());
      else if (r->ri2 > 0 && r->ri >= 0)
        viol (V_STREAM, t, ii, "%s returned %lld although the device refused bytes during the call", d, r->ri);
      else if (r->ri2 == 0 && (r->ri != wri || r->ri != (long long) text_len (o, want)))
        viol (V_STREAM, t, ii, "%s returned %lld, but produced %zu characters (alone: %ld)", d, r->ri, text_len (o, want), wri);
      else if (!r->fired && got.size () != want.size ())
        viol (V_RESULT, t, ii, "%s delivered only %zu of %zu bytes", d, got.size (), want.size ());
    } else {
      if (r->ri != wri || std::string (r->text, r->tlen) != want)
        viol (V_RESULT, t, ii, "%s gave %lld \"%.60s\", alone %ld \"%.60s\"", d, r->ri, std::string (r->text, r->tlen).c_str (), wri, want.c_str ());
    }
    if (q && q->kind == 2 && !r->fired && (o->kind != K_STRFROM && o->kind != K_SNPRINTF ? true : a->i > (long long) q->out.size ())
        && std::string (r->text, r->tlen) != q->out)
      viol (V_ORACLE, t, ii, "%s in mode %d gave \"%.50s\", correctly rounded \"%.50s\"", d, wantmode, std::string (r->text, r->tlen).c_str (), q->out.c_str ());
    if (q && q->kind == 5 && !r->fired && r->ri == (long long) r->tlen && !same_value (std::string (r->text, r->tlen), q->out))
      viol (V_ORACLE, t, ii, "%s in mode %d gave \"%.50s\", whose value is not the correctly rounded %.60s", d, wantmode, std::string (r->text, r->tlen).c_str (), q->out.c_str ());
    return;
  }
  long long wri = ref->res.ri;
  if (variant && wri >= 0) {
    std::vector<int> m; to_c_spelling (std::string (a->str, a->slen), loc, m);
    if (wri < (long long) m.size ()) wri = m[wri];
  }
  bool same = !memcmp (r->r, ref->res.r, 16) && !memcmp (r->r2, ref->res.r2, 16) && r->ri == wri;
  if (!same) {
    if (faulted) {
      bool ok = false;
      if (o->kind == K_STRTOD || o->kind == K_WCSTOD)
        ok = (dec_isnan (o->w, r->r) || ((r->ri == 0 || (a->i & 1)) && dec_decode (o->w, r->r).cls == 0 && dec_decode (o->w, r->r).c == 0))
             && (c->err == ENOMEM || c->lfail);
      else if (is_dec_result (o)) ok = dec_isnan (o->kind == K_CVT ? o->w2 : o->w, r->r);
      if (!ok) viol (V_FAULTRES, t, ii, "%s under failed allocation gave 0x%s/%lld (errno %d), alone 0x%s/%lld", d, hexs (r->r, 16).c_str (), r->ri, c->err, hexs (ref->res.r, 16).c_str (), wri);
    } else
      viol (V_RESULT, t, ii, "%s in mode %d gave 0x%s r2 0x%s/%lld, alone 0x%s r2 0x%s/%lld", d, wantmode, hexs (r->r, 16).c_str (), hexs (r->r2, 16).c_str (), r->ri,
            hexs (ref->res.r, 16).c_str (), hexs (ref->res.r2, 16).c_str (), wri);
    if (faulted) return;
  }
  if (q && !faulted) {
    int rw = o->kind == K_CVT ? o->w2 : o->w;
    bool ok = true;
    switch (q->kind) {
      case 0: ok = !memcmp (r->r, q->out.data (), 16); break;
      case 1: ok = !memcmp (&r->ri, q->out.data (), 8); break;
      case 3: ok = dec_isnan (rw, r->r); break;
      case 4: ok = dec_numeq (rw, r->r, (const unsigned char *) q->out.data ()); break;
    }
    if (!ok) viol (V_ORACLE, t, ii, "%s in mode %d gave 0x%s/%lld, correctly rounded 0x%s", d, wantmode, hexs (r->r, 16).c_str (), r->ri,
                   q->out.size () ? hexs (q->out.data (), q->out.size ()).c_str () : "NaN");
  }
}

// ---------------------------------------------------------------- steps
static void set_locale (SimThread *t, int l) {
  locale_t old = t->lobj;
  if (l < 0) { uselocale (LC_GLOBAL_LOCALE); t->lobj = 0; }
  else {
    t->lobj = newlocale (LC_ALL_MASK, locs[l].name, 0);
    if (!t->lobj) { fprintf (stderr, "locale missing\n"); _exit (96); }
    uselocale (t->lobj);
  }
  t->loc = l;
  // free only real objects; the object's memory is overwritten first
  if (old) { poison = 1; freelocale (old); poison = 0; }
}

static void exec_step (SimThread *t, const Step &s, int nest) {
  if (s.setmode >= 0) { setround_ (s.setmode); t->mode = s.setmode; if (out) out->modesets++; }
  if (!nest && s.setloc >= -1) { set_locale (t, s.setloc); out->locsets++; note ("  T%d uselocale %s\n", t->id, s.setloc < 0 ? "global" : locs[s.setloc].name); }
  if (!nest && s.setgloc >= 0) { setlocale (LC_ALL, locs[s.setgloc].name); cur_gloc = s.setgloc; out->locsets++; note ("  setlocale %s\n", locs[s.setgloc].name); }
  static const int bins[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
  if (s.setbin >= 0) t->bin = bins[s.setbin & 3];
  if (s.setflags >= 0) t->flags = s.setflags;
  if (s.seterrno >= 0) t->err = s.seterrno;
  if (s.inst < 0) return;
  Inst *in = plan->insts[s.inst];
  const OpDef *o = &op_table[in->op];
  int grow = 0, last = 0; (void) last;
  static thread_local Res rs[2];
  Res &r = rs[nest ? 1 : 0];
  int reps = nest ? 1 : s.rep < 1 ? 1 : s.rep;
  for (int k = 0; k < reps; k++) {
    Call c; memset (&c, 0, sizeof c);
    int loc = t->loc >= 0 ? t->loc : cur_gloc;
    int variant = ref_variant (o, &in->args, loc);
    uint64_t base = 200000;
    int m = t->mode;
    if (o->kind != K_SETROUND && o->kind != K_REGISTER && o->kind != K_FOREIGN) base += 20 * get_ref (in, m >= 0 && m < 5 ? m : 0, variant)->ncb;
    c.st = &s; c.in = in; c.cap = base; c.nest = nest; c.afirst = nest ? -1 : s.alloc_first; c.acount = s.alloc_count;
    c.locsfail = !nest && s.locfail;
    c.serial = serial_no;
    Call *prev = t->call; t->call = &c; hk.t = t;
    memset (&r, 0, offsetof (Res, text)); memset (r.text, 0, 256);
    if (!nest) {
      out->steps++;
      note ("  T%d step %d: %s mode %d\n", t->id, t->cur, describe (o, &in->args).c_str (), t->mode);
      // events before the call
      while (c.evi < s.ev.size () && s.ev[c.evi].cb == 0) {
        const Ev &ev = s.ev[c.evi++];
        if (ev.kind == EV_SWITCH) { SimThread *n = pick (t, ev.arg); if (n) { out->switches++; foldi (t->id * 64 + n->id); note ("    T%d yields before the call -> T%d\n", t->id, n->id); t->state = T_READY; release (n); park (t); hk.t = t; } }
      }
    }
    int rm = getround_ ();
    if (rm != t->mode) viol (nest ? V_MODE : V_MODE, t, s.inst, "T%d is in decimal rounding mode %d before %s, last set %d", t->id, rm, o->sym, t->mode), setround_ (t->mode);
    op_call (o, &in->args, &r, 0);
    t->call = prev; if (nest) hk.t = t;
    if (nest) { t->call = &c; }
    out->callbacks += c.ncb;
    out->devfaults += r.fired;
    judge (t, &c, in, &r, loc);
    t->call = prev;
    if (!nest) {
      if (blk_live (t->id, c.serial) > 0) { if (k >= reps / 2) grow++; if (!k) kept.push_back (Kept {t->id, s.inst, c.serial, serial_no}); }
      for (int i = 0; i < 16; i++) fold (r.r[i] * 131 + r.r2[i]);
      fold (r.ri); fold (r.ri2); fold (r.tlen); fold (c.err); fold (c.flags); fold (c.mode);
      for (int i = 0; i < r.tlen && i < TEXTMAX; i += 1) fold ((unsigned char) r.text[i]);
      t->flags = c.flags; t->err = c.err;
      if (reps >= 4 && k == reps - 1 && grow >= 2)
        viol (V_LEAK, t, s.inst, "%s keeps memory on %d of the last %d of %d repetitions", describe (o, &in->args).c_str (), grow, reps - reps / 2, reps);
    }
  }
}

// Calls with different operands that each left a block behind for good.
static void sweep_leaks (SimThread *t) {
  for (size_t i = 0; i < kept.size (); i++) {
    std::set<int> insts; int op = plan->insts[kept[i].inst]->op;
    for (auto &q : kept) if (q.thread == t->id && plan->insts[q.inst]->op == op)
      for (int b = 0; b < nblk; b++) if (blk[b].thread == q.thread && blk[b].serial > q.from && blk[b].serial <= q.to) insts.insert (q.inst);
    if (kept[i].thread == t->id && insts.size () >= 4) {
      viol (V_LEAK, t, kept[i].inst, "%s keeps memory for each of %zu different operands", op_table[op].sym, insts.size ());
      return;
    }
  }
}

static void thread_body (SimThread *t) {
  hk.t = t; hk.on = 0;
  if (t->id) {
    int m = getround_ ();
    if (m != 0) { viol (V_NEWTHREAD, t, -1, "a new thread starts in decimal rounding mode %d", m); setround_ (0); }
    if (fetestexcept (FE_ALL_EXCEPT)) feclearexcept (FE_ALL_EXCEPT);
  }
  for (t->cur = 0; t->cur < (int) t->steps->size (); t->cur++)
    exec_step (t, (*t->steps)[t->cur], 0);
  t->cur--;
  sweep_leaks (t);
  set_locale (t, -1);
  t->state = T_DONE;
  SimThread *n = pick (t, 0);
  if (!n) finish ();
  foldi (0xD0 + n->id);
  release (n);
  for (;;) pause ();
}

static void run_child (Plan *p) {
  plan = p;
  crash_handlers ();
  gfill = p->fill;
  cur_gloc = p->gloc;
  if (p->gloc) if (!setlocale (LC_ALL, locs[p->gloc].name)) { fprintf (stderr, "locale %s missing\n", locs[p->gloc].name); _exit (96); }
  nthr = (int) p->thr.size ();
  memset (thr, 0, sizeof thr);
  for (int i = 0; i < nthr; i++) {
    thr[i].id = i; thr[i].steps = &p->thr[i]; thr[i].loc = -1;
    sem_init (&thr[i].sem, 0, 0);
  }
  out->threads = nthr;
  feclearexcept (FE_ALL_EXCEPT);
  SimThread *t = &thr[0];
  t->th = pthread_self (); t->state = T_RUNNING; altstack (t);
  thread_body (t);
}

// Every reference a plan can need, computed before the run is forked.
static void prepare (Plan *p) {
  for (auto &th : p->thr) {
    int mode = 0, loc = -1, gl = p->gloc;
    for (auto &s : th) {
      if (s.setmode >= 0) mode = s.setmode;
      if (s.setloc >= -1) loc = s.setloc;
      if (s.setgloc >= 0) gl = s.setgloc;
      if (s.inst < 0) continue;
      Inst *in = p->insts[s.inst]; const OpDef *o = &op_table[in->op];
      if (o->kind == K_SETROUND) { if (in->args.i >= 0 && in->args.i <= 4) mode = (int) in->args.i; continue; }
      if (o->kind == K_REGISTER || o->kind == K_FOREIGN) continue;
      int l = loc >= 0 ? loc : gl;
      int v = ref_variant (o, &in->args, l);
      get_ref (in, mode, v);
      if (has_width (o, &in->args)) get_ref (plain_of (in), mode, 0);
      if (l == 0) get_orc (in, mode);
      for (auto &e : s.ev) if (e.kind == EV_NEST) {
        int ni = e.arg & 0xffff, nm = (e.arg >> 16) - 1;
        if (ni >= (int) p->insts.size ()) continue;
        Inst *n = p->insts[ni]; const OpDef *no = &op_table[n->op];
        // without a mode of its own the handler runs in whatever mode is live
        for (int m = 0; m < 5; m++) if (nm < 0 || nm == m) { get_ref (n, m, ref_variant (no, &n->args, l)); if (has_width (no, &n->args)) get_ref (plain_of (n), m, 0); if (l == 0) get_orc (n, m); }
      }
    }
  }
}

static RunOut *shout;
// Run a plan in a fresh process; the result stays valid until the next call.
const RunOut *run_plan (Plan *p) {
  prepare (p);
  memset (shout, 0, offsetof (RunOut, trace)); shout->trace[0] = 0;
  shout->hash = 1469598103934665603ull; shout->ileave = 7;
  fflush (0);
  pid_t pid = fork ();
  if (pid == 0) { out = shout; alarm (60); run_child (p); _exit (0); }
  int st; while (waitpid (pid, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED (st) && (WEXITSTATUS (st) == 96 || WEXITSTATUS (st) == 98)) exit (WEXITSTATUS (st));
  RunOut *o = shout;
  if (!o->done) {
    SimThread ft; ft.id = o->crash_thread; ft.cur = o->crash_step;
    RunOut *sv = out; out = o;
    int inst = -1; const char *sym = "?";
    if (ft.id < (int) p->thr.size () && ft.cur < (int) p->thr[ft.id].size ()) {
      inst = p->thr[ft.id][ft.cur].inst;
    }
    std::string dd;
    if (inst >= 0) { dd = describe (&op_table[p->insts[inst]->op], &p->insts[inst]->args); sym = dd.c_str (); }
    o->nviol = 0;
    if (o->crashed_sig) viol (V_CRASH, &ft, inst, "%s: signal %d in %s", sym, o->crashed_sig, o->crash_sym);
    else if (WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM) viol (V_HANG, &ft, inst, "run does not end");
    else viol (V_CRASH, &ft, inst, "%s: process died (status 0x%x)", sym, st);
    out = sv;
  }
  return o;
}

static int find_lib (struct dl_phdr_info *i, size_t, void *) {
  if (!strstr (i->dlpi_name, "libdfp")) return 0;
  lib_base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) &p = i->dlpi_phdr[k];
    if (p.p_type != PT_LOAD) continue;
    uintptr_t lo = lib_base + p.p_vaddr, hi = lo + p.p_memsz;
    if ((p.p_flags & PF_X) && hi > lib_text_end) lib_text_end = hi;
    if ((p.p_flags & PF_W) && n_lib_data < 4) lib_data[n_lib_data++] = Range {lo, hi};
  }
  for (int k = 0; k < i->dlpi_phnum; k++) {           // leave out the read-only-after-relocation part
    const ElfW(Phdr) &p = i->dlpi_phdr[k];
    if (p.p_type != PT_GNU_RELRO) continue;
    uintptr_t lo = lib_base + p.p_vaddr, hi = lo + p.p_memsz;
    for (int j = 0; j < n_lib_data; j++) if (lib_data[j].lo >= lo - 4096 && lib_data[j].lo < hi && hi <= lib_data[j].hi) lib_data[j].lo = hi;
  }
  return 1;
}

void sim_setup () {
  in_main = 1;
  lib_handle = dlopen (LIBNAME, RTLD_NOW | RTLD_NOLOAD);
  if (!lib_handle) { fprintf (stderr, "library not loaded: %s\n", dlerror ()); exit (95); }
  dl_iterate_phdr (find_lib, 0);
  getround_ = (int (*) (void)) dlsym (lib_handle, "fe_dec_getround");
  setround_ = (int (*) (int)) dlsym (lib_handle, "fe_dec_setround");
  if (!getround_ || !setround_ || !lib_base) { fprintf (stderr, "library incomplete\n"); exit (95); }
  size_t n = lib_text_end - lib_base;
  cov_map = (uint8_t *) mmap (0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shref = (Ref *) mmap (0, sizeof (Ref), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shout = (RunOut *) mmap (0, sizeof (RunOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  op_init (lib_handle);
}
size_t cov_count () {
  size_t n = lib_text_end - lib_base, c = 0;
  for (size_t i = 0; i < n; i++) c += cov_map[i];
  return c;
}
