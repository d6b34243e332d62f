// When a call must set errno and when it must leave it alone (C, annex F and
// POSIX), judged on the call's own arguments and on its result in a fresh
// process.  Only statements that hold for every conforming result are made:
// where libdfp's own value is doubtful, the rule is silent.
#include "oracle.h"
#include <cerrno>
#include <cfenv>
#include <cstring>

static bool is_name (const char *sym, const char *list) {
  // SYM without its d32/d64/d128 suffix is a word of LIST
  size_t l = strlen (sym);
  while (l && sym[l - 1] >= '0' && sym[l - 1] <= '9') l--;
  if (l && sym[l - 1] == 'd') l--;
  for (const char *p = list; *p; ) {
    size_t n = strcspn (p, " ");
    if (n == l && !memcmp (p, sym, n)) return true;
    p += n; while (*p == ' ') p++;
  }
  return false;
}

static bool tiny (int w, const Dec &d) {        // zero or subnormal
  const Fmt &f = fmt_of (w);
  return d.cls == 0 && (!d.c || d.e + ndig (d.c) - 1 < f.emin + f.p - 1);
}

static const char *text_rule (const OpDef *o, const Args *a, const Res *r, int err) {
  Dec z = dec_decode (o->w, r->r);
  long n = r->ri < 0 || r->ri > a->slen ? a->slen : r->ri;
  if (r->ri == 0) return err == ERANGE ? "a text with no number set errno to ERANGE" : 0;
  const char *p = a->str, *e = a->str + n;
  while (p < e && (*p == ' ' || (*p >= 9 && *p <= 13))) p++;
  if (p < e && (*p == '+' || *p == '-')) p++;
  bool word = p < e && strchr ("iInN", *p) && *p;
  if (z.cls >= 2) return err ? "parsing a NaN set errno" : 0;
  if (word) return err ? "parsing an infinity set errno" : 0;
  if (z.cls == 1) return err == ERANGE ? 0 : "an overflowing text did not set errno to ERANGE";
  if (p < e && *p == '0' && p + 1 < e && (p[1] | 32) == 'x') return 0;
  const Fmt &f = fmt_of (o->w);
  bool max = z.e == f.emax && z.c == pow10u (f.p) - 1;  // overflow in a directed mode
  bool least = z.e + ndig (z.c) == f.emin + f.p && z.c == pow10u (ndig (z.c) - 1);      // underflow rounded up
  if (!tiny (o->w, z)) return err && !((max || least) && err == ERANGE) ? "parsing a representable number set errno" : 0;
  if (z.c) return err && err != ERANGE ? "errno is not ERANGE" : 0;
  if (r->ri < 0) return 0;              // no end pointer: what was the number is not known
  bool nz = false;
  for (; p < e && (*p | 32) != 'e'; p++) if (*p >= '1' && *p <= '9') nz = true;
  if (nz) return err == ERANGE ? 0 : "an underflowing text did not set errno to ERANGE";
  return err ? "parsing a zero set errno" : 0;
}

static bool zero_times_inf (const Dec *d) {
  return (d[0].cls == 1 && d[1].cls == 0 && !d[1].c) || (d[1].cls == 1 && d[0].cls == 0 && !d[0].c);
}

const char *errno_rule (const OpDef *o, const Args *a, const Res *r, int err) {
  int na;
  switch (o->kind) {
    case K_D_D: case K_D_DI: case K_D_DL: case K_D_DpI: case K_D_DpD: case K_I_D: case K_L_D: na = 1; break;
    case K_D_DD: case K_D_DT: case K_I_DD: na = 2; break;
    case K_D_DDD: na = 3; break;
    case K_CVT: case K_D2SI: case K_D2DI: case K_D2TI: case K_SI2D: case K_DI2D: case K_TI2D:
    case K_D2SF: case K_D2DF: case K_D2XF: case K_D2TF: case K_SF2D: case K_DF2D: case K_XF2D: case K_TF2D:
    case K_DEC: case K_D_S:
      return err ? "an operation that cannot fail set errno" : 0;
    case K_STRTOD: case K_WCSTOD: return text_rule (o, a, r, err);
    default: return 0;
  }
  if (((o->groups & (G_ARITH | G_CMP)) && !is_name (o->sym, "ilogb"))
      || is_name (o->sym, "fabs ceil floor trunc round roundeven rint nearbyint copysign quantum quantize cbrt asinh atan "
		  "atan2 tanh erf fmax fmaxmag fmin fminmag frexp modf nan samequantum"))
    return err ? "an operation that cannot fail set errno" : 0;
  bool nan = false, inf = false;
  Dec x = dec_decode (o->w, a->a[0]), d[3];
  for (int i = 0; i < na; i++) {
    d[i] = dec_decode (i == 1 && o->kind == K_D_DT ? 128 : o->w, a->a[i]);
    if (d[i].cls >= 2) nan = true;
    if (d[i].cls == 1) inf = true;
  }
  if (is_name (o->sym, "ilogb llogb llquantexp")) {
    bool dom = nan || inf || (!x.c && !is_name (o->sym, "llquantexp"));
    return dom ? err == EDOM ? 0 : "a domain error did not set errno to EDOM" : err ? "errno set without an error" : 0;
  }
  if (is_name (o->sym, "lround llround lrint llrint")) {
    int m = x.cls ? 99 : x.c ? x.e + ndig (x.c) - 1 : -99;       // decimal exponent; the limit is 9.2e18
    if (m == 18) return 0;
    return m > 18 ? err == EDOM ? 0 : "a domain error did not set errno to EDOM" : err ? "errno set without an error" : 0;
  }
  if (o->kind == K_L_D || o->kind == K_I_D || o->kind == K_I_DD) return 0;
  // infinity times zero plus NaN: invalid and a domain error are optional
  if (na == 3 && nan && is_name (o->sym, "fma") && zero_times_inf (d)) return err && err != EDOM ? "errno set without an error" : 0;
  if (nan) return err ? "a NaN operand set errno" : 0;
  Dec z = dec_decode (o->w, r->r);
  bool trig = is_name (o->sym, "sin cos tan");
  if (z.cls >= 2) {
    if ((trig && !inf) || is_name (o->sym, "remainder")) return err && !trig && err != EDOM ? "a NaN result set errno to something else than EDOM" : 0;
    return err == EDOM ? 0 : "a domain error did not set errno to EDOM";
  }
  if (z.cls == 1 && !inf) {
    if (trig || is_name (o->sym, "acosh remainder fma")) return 0;
    return err == ERANGE ? 0 : "a pole or range error did not set errno to ERANGE";
  }
  // a step from the largest number to infinity is an overflow, wherever it leads
  if (z.cls == 1 && d[0].cls == 0 && is_name (o->sym, "nextafter nexttoward")) return err && err != ERANGE ? "errno set without an error" : 0;
  if (z.cls == 0 && tiny (o->w, z)) return err && err != ERANGE ? "errno set without an error" : 0;
  return err ? "errno set without an error" : 0;
}

// The same for the exception flags of the math functions: invalid for a domain
// error, divide-by-zero for a pole, overflow for a finite operation that gives
// infinity, and none of the three without its cause.
const char *flag_rule (const OpDef *o, const Args *a, const Res *r, int fl) {
  int na;
  switch (o->kind) {
    case K_D_D: case K_D_DI: case K_D_DL: case K_D_DpI: case K_D_DpD: na = 1; break;
    case K_D_DD: case K_D_DT: na = 2; break;
    case K_D_DDD: na = 3; break;
    default: return 0;
  }
  if (o->groups & G_ARITH) return 0;
  bool nan = false, inf = false, snan = false;
  Dec d[3], z = dec_decode (o->w, r->r);
  for (int i = 0; i < na; i++) {
    d[i] = dec_decode (i == 1 && o->kind == K_D_DT ? 128 : o->w, a->a[i]);
    if (d[i].cls >= 2) nan = true;
    if (d[i].cls == 3) snan = true;
    if (d[i].cls == 1) inf = true;
  }
  if (snan) return 0;
  if (na == 3 && nan && is_name (o->sym, "fma") && zero_times_inf (d)) return 0;
  if (nan) return fl & (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW) ? "a quiet NaN operand raised a flag" : 0;
  // what these return for large finite operands is not theirs to judge by
  bool trig = is_name (o->sym, "sin cos tan"), pow = is_name (o->sym, "pow");
  if ((trig && !inf) || is_name (o->sym, "atan atan2 tanh asinh acosh remainder")) {
    if (z.cls >= 2 || (z.cls == 1 && !inf)) return is_name (o->sym, "acosh") && d[0].cls == 0 && d[0].sign && !(fl & FE_INVALID) ? "a domain error did not raise invalid" : 0;
  }
  if (z.cls >= 2) {
    if (pow && o->w == 128) return 0;
    if (fl & FE_DIVBYZERO && !pow) return "a NaN result raised divide-by-zero";
    return fl & FE_INVALID ? 0 : "a domain error did not raise invalid";
  }
  if (fl & FE_INVALID) return "invalid raised without a domain error";
  if (z.cls == 1 && !inf) {
    bool pole = is_name (o->sym, "log log2 log10 log1p logb atanh") || (is_name (o->sym, "lgamma tgamma pow") && !d[0].c);
    if (pole) return (fl & FE_DIVBYZERO) ? 0 : "a pole did not raise divide-by-zero";
    if (pow || (is_name (o->sym, "lgamma") && d[0].sign)) return 0;
    if (fl & FE_DIVBYZERO) return "divide-by-zero raised without a pole";
    return fl & FE_OVERFLOW ? 0 : "an overflow did not raise overflow";
  }
  if (pow) return 0;
  if (fl & FE_DIVBYZERO) return "divide-by-zero raised without a pole";
  if (z.cls == 1 && d[0].cls == 0 && is_name (o->sym, "nextafter nexttoward")) return 0;
  const Fmt &f = fmt_of (o->w);
  bool max = z.cls == 0 && z.e == f.emax && z.c == pow10u (f.p) - 1;     // overflow in a directed mode
  if (fl & FE_OVERFLOW && !max && !is_name (o->sym, "tgamma lgamma")) return "overflow raised without an infinite result";
  return 0;
}
