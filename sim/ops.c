/* Operation table: every exported libdfp entry point as a uniform call.
   Entry points are looked up with dlsym in the library under test, so that
   nothing binds to the copies of the same routines in libgcc.  */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <wchar.h>
#include <errno.h>
#include <printf.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include "ops.h"

typedef _Decimal32 D32;
typedef _Decimal64 D64;
typedef _Decimal128 D128;
typedef __int128 TI;
typedef unsigned __int128 UTI;

static OpDef tab[1024];
OpDef *op_table = tab;
int op_count;
static int user_H, user_D, user_DD;	/* printf_info.user bits of the modifiers */

static void
add (const char *sym, int kind, int w, int w2, int groups)
{
  void *fn = dlsym (lib_handle, sym);
  if (kind == K_CXX_IN || kind == K_CXX_OUT || kind == K_SNPRINTF || kind == K_SWPRINTF
      || kind == K_FPRINTF || kind == K_FOREIGN)
    fn = (void *) 1;
  if (!fn)
    return;
  OpDef *o = &tab[op_count++];
  snprintf (o->sym, sizeof o->sym, "%s", sym);
  o->kind = kind; o->w = w; o->w2 = w2; o->groups = groups; o->fn = fn;
}

static void
add3 (const char *names, int kind, int groups)
{
  static const int ws[3] = { 32, 64, 128 };
  char buf[1024], *save = 0;
  snprintf (buf, sizeof buf, "%s", names);
  for (char *n = strtok_r (buf, " ", &save); n; n = strtok_r (0, " ", &save))
    for (int i = 0; i < 3; i++)
      {
	char s[64];
	snprintf (s, sizeof s, "%sd%d", n, ws[i]);
	add (s, kind, ws[i], ws[i], groups);
      }
}

static int cap_user;
static int
cap_fn (FILE *f, const struct printf_info *info, const void *const *args)
{ (void) f; (void) args; cap_user = info->user; return 0; }
static int
cap_ai (const struct printf_info *info, size_t n, int *at, int *sz)
{ (void) info; (void) n; (void) at; (void) sz; return 0; }

void
op_init (void *handle)
{
  static const struct { const char *l; int w; } md[3] = { {"sd", 32}, {"dd", 64}, {"td", 128} };
  char s[64];
  (void) handle;
  add3 ("acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp2 expm1 fabs floor "
	"lgamma log log10 log1p log2 logb round roundeven sin sinh tan tanh tgamma trunc "
	"nextdown nextup quantum", K_D_D, G_MATH);
  add3 ("rint nearbyint sqrt", K_D_D, G_MATH | G_ROUND);
  add3 ("atan2 copysign fmax fmaxmag fmin fminmag fmod hypot nextafter pow remainder", K_D_DD, G_MATH);
  add3 ("quantize fdim", K_D_DD, G_MATH | G_ROUND);
  add3 ("nexttoward", K_D_DT, G_MATH);
  add3 ("fma", K_D_DDD, G_MATH | G_ROUND);
  add3 ("ldexp scalbn", K_D_DI, G_MATH | G_ROUND);
  add3 ("scalbln", K_D_DL, G_MATH | G_ROUND);
  add3 ("frexp", K_D_DpI, G_MATH);
  add3 ("modf", K_D_DpD, G_MATH);
  add3 ("nan", K_D_S, G_MATH);
  add3 ("finite fpclassify ilogb isfinite isinf isnan isnormal issignaling signbit", K_I_D, G_CMP);
  add3 ("llogb llquantexp llround lround", K_L_D, G_MATH);
  add3 ("llrint lrint", K_L_D, G_MATH | G_ROUND);
  add3 ("isgreater isgreaterequal isless islessequal islessgreater isunordered samequantum", K_I_DD, G_CMP);
  add3 ("decoded", K_DEC, G_PRINT);
  for (int i = 0; i < 3; i++)
    {
      static const char *const ar[] = { "add", "sub", "mul", "div" };
      static const char *const cm[] = { "eq", "ne", "lt", "le", "gt", "ge", "unord" };
      for (int k = 0; k < 4; k++)
	{ snprintf (s, 64, "__bid_%s%s3", ar[k], md[i].l); add (s, K_D_DD, md[i].w, md[i].w, G_ARITH | G_ROUND); }
      for (int k = 0; k < 7; k++)
	{ snprintf (s, 64, "__bid_%s%s2", cm[k], md[i].l); add (s, K_I_DD, md[i].w, md[i].w, G_CMP); }
      static const struct { const char *f; int k; } fx[] = {
	{"__bid_fix%ssi", K_D2SI}, {"__bid_fixuns%ssi", K_D2SI}, {"__bid_fix%sdi", K_D2DI},
	{"__bid_fixuns%sdi", K_D2DI}, {"__bid_fix%sti", K_D2TI}, {"__bid_fixuns%sti", K_D2TI},
	{"__bid_extend%stf", K_D2TF}, {"__bid_extend%sxf", K_D2XF}, {"__bid_extend%sdf", K_D2DF},
	{"__bid_trunc%ssf", K_D2SF}, {"__bid_trunc%sdf", K_D2DF}, {"__bid_trunc%sxf", K_D2XF},
	{"__bid_trunc%stf", K_D2TF}, };
      for (unsigned k = 0; k < sizeof fx / sizeof *fx; k++)
	{ snprintf (s, 64, fx[k].f, md[i].l); add (s, fx[k].k, md[i].w, md[i].w, G_CONV | (fx[k].k >= K_D2SF ? G_ROUND : 0)); }
      static const struct { const char *f; int k; int g; } xf[] = {
	{"__bid_floatsi%s", K_SI2D, G_ROUND}, {"__bid_floatunssi%s", K_SI2D, G_ROUND},
	{"__bid_floatdi%s", K_DI2D, G_ROUND}, {"__bid_floatunsdi%s", K_DI2D, G_ROUND},
	{"__bid_floatti%s", K_TI2D, G_ROUND}, {"__bid_floatunsti%s", K_TI2D, G_ROUND},
	{"__bid_extendsf%s", K_SF2D, G_ROUND}, {"__bid_extenddf%s", K_DF2D, G_ROUND}, {"__bid_extendxf%s", K_XF2D, G_ROUND},
	{"__bid_extendtf%s", K_TF2D, G_ROUND}, {"__bid_truncdf%s", K_DF2D, G_ROUND}, {"__bid_truncxf%s", K_XF2D, G_ROUND},
	{"__bid_trunctf%s", K_TF2D, G_ROUND}, };
      for (unsigned k = 0; k < sizeof xf / sizeof *xf; k++)
	{ snprintf (s, 64, xf[k].f, md[i].l); add (s, xf[k].k, md[i].w, md[i].w, G_CONV | xf[k].g); }
    }
  add ("__bid_extendsddd2", K_CVT, 32, 64, G_CONV);
  add ("__bid_extendsdtd2", K_CVT, 32, 128, G_CONV);
  add ("__bid_extendddtd2", K_CVT, 64, 128, G_CONV);
  add ("__bid_truncddsd2", K_CVT, 64, 32, G_CONV | G_ROUND);
  add ("__bid_trunctdsd2", K_CVT, 128, 32, G_CONV | G_ROUND);
  add ("__bid_trunctddd2", K_CVT, 128, 64, G_CONV | G_ROUND);
  add3 ("strto", K_STRTOD, G_PARSE);
  add3 ("wcsto", K_WCSTOD, G_PARSE);
  add3 ("strfrom", K_STRFROM, G_PRINT);
  static const int ws[3] = { 32, 64, 128 };
  for (int i = 0; i < 3; i++)
    {
      static const struct { const char *n; int k; int g; } pr[] = {
	{"snprintf", K_SNPRINTF, G_PRINT}, {"mixprintf", K_SNPRINTF, G_PRINT | G_MIX}, {"swprintf", K_SWPRINTF, G_PRINT},
	{"printf_dfp", K_PRINTF_DFP, G_PRINT | G_STREAM}, {"fprintf", K_FPRINTF, G_PRINT | G_STREAM},
	{"wprintf_dfp", K_PRINTF_DFP, G_PRINT | G_STREAM | G_WIDE}, {"fwprintf", K_FPRINTF, G_PRINT | G_STREAM | G_WIDE},
	{"cxx_in", K_CXX_IN, G_CXX}, {"cxx_out", K_CXX_OUT, G_CXX} };
      for (int k = 0; k < 9; k++)
	{
	  void *fn = pr[k].k == K_PRINTF_DFP ? dlsym (lib_handle, "printf_dfp") : (void *) 1;
	  if (!fn)
	    continue;
	  OpDef *o = &tab[op_count++];
	  snprintf (o->sym, sizeof o->sym, "%s:%d", pr[k].n, ws[i]);
	  o->kind = pr[k].k; o->w = ws[i]; o->w2 = pr[k].g & G_MIX ? ws[(i + 1) % 3] : ws[i]; o->groups = pr[k].g; o->fn = fn;
	}
    }
  add ("fe_dec_setround", K_SETROUND, 64, 64, G_CTL);
  add ("register_printf_dfp", K_REGISTER, 64, 64, G_REG);
  add ("foreign", K_FOREIGN, 64, 64, G_REG);

  /* Learn the modifier bits through the public interface only.  */
  register_printf_specifier ('Y', cap_fn, cap_ai);
  char b[8];
  snprintf (b, sizeof b, "%HY"); user_H = cap_user;
  snprintf (b, sizeof b, "%DY"); user_D = cap_user;
  snprintf (b, sizeof b, "%DDY"); user_DD = cap_user;
}

int
op_find (const char *sym)
{
  for (int i = 0; i < op_count; i++)
    if (!strcmp (tab[i].sym, sym))
      return i;
  return -1;
}

const char *
mod_string (int w)
{ return w == 32 ? "H" : w == 64 ? "D" : "DD"; }

/* ---- simulated output device ---- */
struct dev { Res *r; const Args *a; int left; };

static ssize_t
dev_write (void *c, const char *buf, size_t size)
{
  struct dev *d = c;
  size_t acc = size;
  if (size == 0)
    return 0;
  if (d->a->failat >= 0 && d->left != 0)
    {
      if (d->r->tlen >= d->a->failat)
	acc = 0;
      else if (d->r->tlen + (int) size > d->a->failat)
	acc = d->a->failat - d->r->tlen;
    }
  if (d->a->chunk > 0 && acc > (size_t) d->a->chunk)
    acc = d->a->chunk;
  if (d->r->tlen + acc > TEXTMAX)
    acc = TEXTMAX - d->r->tlen;
  memcpy (d->r->text + d->r->tlen, buf, acc);
  d->r->tlen += acc;
  if (acc < size)
    {
      d->r->refused++;
      d->r->fired++;
      if (d->left > 0 && d->r->tlen >= d->a->failat)
	d->left--;
      errno = d->a->err ? d->a->err : EIO;
    }
  return acc;
}

/* Cookie streams cannot be wide: those write to a file in memory which holds
   no more than FAILAT bytes.  *FD stays open to read it afterwards.  */
static FILE *
wide_open (int failat, int *fd)
{
  int f = memfd_create ("device", MFD_ALLOW_SEALING);
  if (f < 0)
    return 0;
  if (failat >= 0
      && (ftruncate (f, failat) != 0 || fcntl (f, F_ADD_SEALS, F_SEAL_GROW) != 0))
    abort ();
  *fd = dup (f);
  return fdopen (f, "w");
}

static void
fill_info (struct printf_info *pi, const OpDef *o, const Args *a)
{
  memset (pi, 0, sizeof *pi);
  pi->prec = a->prec;
  pi->width = a->width;
  pi->spec = a->spec;
  pi->alt = a->pflags & 1;
  pi->showsign = (a->pflags >> 1) & 1;
  pi->space = (a->pflags >> 2) & 1;
  pi->left = (a->pflags >> 3) & 1;
  pi->group = (a->pflags >> 4) & 1;
  pi->pad = ((a->pflags >> 5) & 1) && !pi->left ? '0' : ' ';
  pi->user = o->w == 32 ? user_H : o->w == 64 ? user_D : user_DD;
}

static void
fill_fmt (char *f, size_t n, const OpDef *o, const Args *a)
{
  char w[16] = "", p[16] = "";
  if (a->width > 0)
    snprintf (w, sizeof w, "%d", a->width);
  if (a->prec >= 0)
    snprintf (p, sizeof p, ".%d", a->prec);
  snprintf (f, n, "%%%s%s%s%s%s%s%s%s%s%c", a->pflags & 1 ? "#" : "", a->pflags & 2 ? "+" : "",
	    a->pflags & 4 ? " " : "", a->pflags & 8 ? "-" : "", a->pflags & 16 ? "'" : "",
	    a->pflags & 32 ? "0" : "", w, p, mod_string (o->w), a->spec);
}

#define BYW(X) switch (o->w) { case 32: { X (D32) } break; case 64: { X (D64) } break; default: { X (D128) } break; }
#define LD(T, v, n) T v; memcpy (&v, a->a[n], sizeof v);
#define ST(v) memcpy (r->r, &v, sizeof v);

/* Output parameters point at memory that holds something else than in the
   reference run, so that one left unwritten shows.  */
/* Call FN and bracket exactly the call.  */
#define CALL(lhs, expr) do { sim_enter (); lhs expr; sim_leave (); } while (0)

void
op_call (const OpDef *o, const Args *a, Res *r, int as_ref)
{
  void *fn = o->fn;
  switch (o->kind)
    {
#define X(T) LD (T, x, 0) T y; CALL (y =, ((T (*) (T)) fn) (x)); ST (y)
    case K_D_D: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) LD (T, y, 1) T z; CALL (z =, ((T (*) (T, T)) fn) (x, y)); ST (z)
    case K_D_DD: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) LD (D128, y, 1) T z; CALL (z =, ((T (*) (T, D128)) fn) (x, y)); ST (z)
    case K_D_DT: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) LD (T, y, 1) LD (T, u, 2) T z; CALL (z =, ((T (*) (T, T, T)) fn) (x, y, u)); ST (z)
    case K_D_DDD: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) T z; CALL (z =, ((T (*) (T, int)) fn) (x, (int) a->i)); ST (z)
    case K_D_DI: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) T z; CALL (z =, ((T (*) (T, long)) fn) (x, (long) a->i)); ST (z)
    case K_D_DL: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) T z; int e = as_ref ? -7777 : 0x5a5a5a5a; CALL (z =, ((T (*) (T, int *)) fn) (x, &e)); ST (z) r->ri = e;
    case K_D_DpI: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) T z, ip; memset (&ip, as_ref ? 0 : 0x5a, sizeof ip); CALL (z =, ((T (*) (T, T *)) fn) (x, &ip)); ST (z) memcpy (r->r2, &ip, sizeof ip);
    case K_D_DpD: BYW (X) break;
#undef X
#define X(T) T z; CALL (z =, ((T (*) (const char *)) fn) (a->str)); ST (z)
    case K_D_S: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) int z; CALL (z =, ((int (*) (T)) fn) (x)); r->ri = z;
    case K_I_D: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) long z; CALL (z =, ((long (*) (T)) fn) (x)); r->ri = z;
    case K_L_D: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) LD (T, y, 1) int z; CALL (z =, ((int (*) (T, T)) fn) (x, y)); r->ri = z;
    case K_I_DD: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) char b[128]; memset (b, as_ref ? 'x' : 'y', sizeof b); b[127] = 0; char *q; CALL (q =, ((char *(*) (T, char *)) fn) (x, b)); \
    r->ri = q == b; r->tlen = strlen (b); memcpy (r->text, b, r->tlen);
    case K_DEC: BYW (X) break;
#undef X
    case K_CVT:
#define CV(T, U) { LD (T, x, 0) U z; CALL (z =, ((U (*) (T)) fn) (x)); ST (z) }
      if (o->w == 32 && o->w2 == 64) CV (D32, D64)
      else if (o->w == 32) CV (D32, D128)
      else if (o->w == 64 && o->w2 == 32) CV (D64, D32)
      else if (o->w == 64) CV (D64, D128)
      else if (o->w2 == 32) CV (D128, D32)
      else CV (D128, D64)
      break;
#define D2(T, R) LD (T, x, 0) R z; CALL (z =, ((R (*) (T)) fn) (x)); memset (r->r, 0, 16); ST (z)
#define X(T) D2 (T, int)
    case K_D2SI: BYW (X) break;
#undef X
#define X(T) D2 (T, long)
    case K_D2DI: BYW (X) break;
#undef X
#define X(T) D2 (T, TI)
    case K_D2TI: BYW (X) break;
#undef X
#define X(T) D2 (T, float)
    case K_D2SF: BYW (X) break;
#undef X
#define X(T) D2 (T, double)
    case K_D2DF: BYW (X) break;
#undef X
#define X(T) LD (T, x, 0) long double z; CALL (z =, ((long double (*) (T)) fn) (x)); memcpy (r->r, &z, 10);
    case K_D2XF: BYW (X) break;
#undef X
#define X(T) D2 (T, __float128)
    case K_D2TF: BYW (X) break;
#undef X
#define I2(T, I) I v; memcpy (&v, a->a[0], sizeof v); T z; CALL (z =, ((T (*) (I)) fn) (v)); ST (z)
#define X(T) I2 (T, int)
    case K_SI2D: BYW (X) break;
#undef X
#define X(T) I2 (T, long)
    case K_DI2D: BYW (X) break;
#undef X
#define X(T) I2 (T, TI)
    case K_TI2D: BYW (X) break;
#undef X
#define X(T) I2 (T, float)
    case K_SF2D: BYW (X) break;
#undef X
#define X(T) I2 (T, double)
    case K_DF2D: BYW (X) break;
#undef X
#define X(T) I2 (T, long double)
    case K_XF2D: BYW (X) break;
#undef X
#define X(T) I2 (T, __float128)
    case K_TF2D: BYW (X) break;
#undef X
    case K_STRTOD:
      {
	/* every call of a thread finds its text at the same address */
	static __thread char text[2][STRMAX];
	static __thread int depth;
	char *s = text[depth & 1], *e = 0;
	memcpy (s, a->str, a->slen);
	s[a->slen] = 0;
	depth++;
#define X(T) T z; CALL (z =, ((T (*) (const char *, char **)) fn) (s, a->i & 1 ? 0 : &e)); ST (z)
	BYW (X)
	depth--;
	r->ri = a->i & 1 ? -1 : e - s;
      }
      break;
#undef X
    case K_WCSTOD:
      {
	static __thread wchar_t text[2][STRMAX];
	static __thread int depth;
	wchar_t *ws = text[depth & 1], *e = 0;
	short at[STRMAX + 1];	/* byte each wide character comes from */
	int k = 0, n = 0;
	while (k < a->slen)
	  {
	    const unsigned char *s = (const unsigned char *) a->str + k;
	    at[n] = k;
	    if (s[0] >= 0xc2 && s[0] < 0xe0 && k + 1 < a->slen && (s[1] & 0xc0) == 0x80)
	      ws[n++] = (s[0] & 31) << 6 | (s[1] & 63), k += 2;
	    else
	      ws[n++] = s[0], k++;
	  }
	at[n] = k;
	ws[n] = 0;
	depth++;
#define X(T) T z; CALL (z =, ((T (*) (const wchar_t *, wchar_t **)) fn) (ws, a->i & 1 ? 0 : &e)); ST (z)
	BYW (X)
#undef X
	r->ri = a->i & 1 ? -1 : e < ws || e > ws + n ? -2 : at[e - ws];
	depth--;
      }
      break;
    case K_STRFROM:
      {
	/* Buffer of exactly N bytes between guard zones; the reference run
	   uses an ample one.  The caller derives what N bytes must hold.  */
	size_t n = as_ref ? TEXTMAX : (size_t) a->i, m = n < TEXTMAX ? n : TEXTMAX;
	unsigned char *base = malloc (TEXTMAX + 256), *s = base + 128;
	unsigned char pat = 0xA0 | (a->i & 7);
	static __thread char fmt[2][64];
	static __thread int depth;
	char *f = fmt[depth & 1];
	memcpy (f, a->str, a->slen < 63 ? a->slen : 63);
	f[a->slen < 63 ? a->slen : 63] = 0;
	depth++;
	memset (base, pat, TEXTMAX + 256);
	int z;
#define X(T) LD (T, x, 0) CALL (z =, ((int (*) (char *, size_t, const char *, T)) fn) ((char *) s, n, f, x));
	BYW (X)
#undef X
	depth--;
	r->ri = z;
	for (int k = 0; k < 128; k++)
	  if (base[k] != pat)
	    r->guard++;
	for (size_t k = m; k < (size_t) TEXTMAX + 128; k++)
	  if (s[k] != pat)
	    r->guard++;
	size_t l = 0;
	while (l < m && s[l])
	  l++;
	r->ri2 = n == 0 ? 1 : l < m;	/* terminated inside the buffer */
	if (n == 0) l = 0;
	r->tlen = l;
	memcpy (r->text, s, l);
	free (base);
      }
      break;
    case K_SNPRINTF:
      {
	char f[64];
	fill_fmt (f, sizeof f, o, a);
	size_t n = as_ref ? TEXTMAX : (size_t) a->i;
	char *b = malloc (TEXTMAX + 64);
	memset (b, 0x5a, TEXTMAX + 64);
	int z;
	if (o->groups & G_MIX)
	  {
	    /* Several conversions in one call; the reference run makes a call
	       for each.  */
	    char g[64], all[160];
	    OpDef o2 = *o;
	    o2.w = o->w2;
	    fill_fmt (g, sizeof g, &o2, a);
	    snprintf (all, sizeof all, "%%d|%s|%%s|%s|%%ld|%s", f, g, f);
#define ONE(T, n_, fmt) { LD (T, x, n_) CALL (z =, snprintf (q, e - q, fmt, x)); q += z < 0 ? 0 : z; }
#define BOTH(T, U) \
	if (as_ref) \
	  { \
	    char *q = b, *e = b + n; \
	    q += snprintf (q, e - q, "-7|"); ONE (T, 0, f) \
	    q += snprintf (q, e - q, "|ab|"); ONE (U, 1, g) \
	    q += snprintf (q, e - q, "|123456789012|"); ONE (T, 0, f) \
	    z = q - b; \
	  } \
	else \
	  { LD (T, x, 0) LD (U, y, 1) CALL (z =, snprintf (b, n, all, -7, x, "ab", y, 123456789012L, x)); }
	    if (o->w == 32) { BOTH (D32, D64) }
	    else if (o->w == 64) { BOTH (D64, D128) }
	    else { BOTH (D128, D32) }
	  }
	else
	  {
#define X(T) LD (T, x, 0) CALL (z =, snprintf (b, n, f, x));
	    BYW (X)
#undef X
	  }
	r->ri = z;
	for (size_t k = n; k < (size_t) TEXTMAX + 64; k++)
	  if (b[k] != 0x5a)
	    r->guard++;
	size_t l = 0;
	while (l < n && b[l])
	  l++;
	r->ri2 = n == 0 ? 1 : l < n;
	r->tlen = n ? l : 0;
	memcpy (r->text, b, r->tlen);
	free (b);
      }
      break;
    case K_SWPRINTF:
      {
	char f[64];
	wchar_t wf[64];
	fill_fmt (f, sizeof f, o, a);
	int k;
	for (k = 0; f[k]; k++) wf[k] = f[k];
	wf[k] = 0;
	wchar_t *b = malloc (TEXTMAX * sizeof (wchar_t));
	b[0] = 0;
	int z;
#define X(T) LD (T, x, 0) CALL (z =, swprintf (b, TEXTMAX, wf, x));
	BYW (X)
#undef X
	r->ri = z;
	for (k = 0; z > 0 && k < z && k < TEXTMAX; k++)
	  r->text[k] = b[k] < 128 ? (char) b[k] : '?';
	r->tlen = z > 0 ? k : 0;
	free (b);
      }
      break;
    case K_PRINTF_DFP:
    case K_FPRINTF:
      {
	static const Args healthy_proto = { .failat = -1 };
	Args h = healthy_proto;
	struct dev d = { r, as_ref ? &h : a, a->failcnt };
	cookie_io_functions_t io = { 0, dev_write, 0, 0 };
	int wide = (o->groups & G_WIDE) != 0, wfd = -1;
	FILE *fp = wide ? wide_open (d.a->failat, &wfd) : fopencookie (&d, "w", io);
	char vb[512];
	if (!fp)
	  break;
	if (a->bufmode == 0)
	  setvbuf (fp, 0, _IONBF, 0);
	else
	  setvbuf (fp, vb, a->bufmode == 1 ? _IOLBF : _IOFBF,
		   a->bufmode < 2 ? 64 : a->bufmode > 512 ? 512 : a->bufmode);
	int z;
	if (wide)
	  fwide (fp, 1);
	if (o->kind == K_PRINTF_DFP)
	  {
	    struct printf_info pi;
	    fill_info (&pi, o, a);
	    pi.wide = wide;
	    D128 v;
	    memcpy (&v, a->a[0], 16);
	    const void *p = &v;
	    const void *const args[1] = { &p };
	    CALL (z =, ((int (*) (FILE *, const struct printf_info *, const void *const *)) fn) (fp, &pi, args));
	  }
	else
	  {
	    char f[64];
	    fill_fmt (f, sizeof f, o, a);
	    if (wide)
	      {
		wchar_t wf[64];
		int k = 0;
		do wf[k] = f[k]; while (f[k++]);
#define X(T) LD (T, x, 0) CALL (z =, fwprintf (fp, wf, x));
		BYW (X)
#undef X
	      }
	    else
	      {
#define X(T) LD (T, x, 0) CALL (z =, fprintf (fp, f, x));
		BYW (X)
#undef X
	      }
	  }
	r->ri = z;
	if (wide && ferror (fp))
	  r->refused++, r->fired++;
	r->ri2 = r->refused;		/* refusals seen by the time of return */
	if (fclose (fp) != 0 && wide)
	  r->fired++;
	if (wide)
	  {
	    off_t n = lseek (wfd, 0, SEEK_CUR);
	    r->tlen = n < 0 ? 0 : n > TEXTMAX ? TEXTMAX : n;
	    if (pread (wfd, r->text, r->tlen, 0) != r->tlen)
	      abort ();
	    close (wfd);
	  }
      }
      break;
    case K_SETROUND:
      {
	int z;
	CALL (z =, ((int (*) (int)) fn) ((int) a->i));
	r->ri = z;
      }
      break;
    case K_REGISTER:
      {
	int z;
	CALL (z =, ((int (*) (void)) fn) ());
	r->ri = z;
      }
      break;
    case K_FOREIGN:
      {
	static const wchar_t *const names[] = { L"X", L"W", L"K", L"P", L"XX", L"WW", L"KK", L"PP" };
	long z;
	if (a->i < 8)
	  CALL (z =, register_printf_modifier (names[a->i & 7]));
	else if (a->i == 8)
	  CALL (z =, register_printf_type (0));
	else
	  CALL (z =, register_printf_specifier ("JKNO"[a->i & 3], cap_fn, cap_ai));
	(void) z;
	r->ri = 0;
      }
      break;
    case K_CXX_IN:
    case K_CXX_OUT:
      cxx_call (o, a, r, as_ref);
      break;
    default:
      abort ();
    }
}
