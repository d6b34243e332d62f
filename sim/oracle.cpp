// Reference model of the correctly rounded operations, written from IEEE
// 754-2008 on unbounded integers.  Shares no code with libdfp.
#include "oracle.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <fenv.h>
#include <cerrno>
#include <cstring>
using boost::multiprecision::cpp_int;

static const Fmt fmts[3] = { {32, 7, -101, 90}, {64, 16, -398, 369}, {128, 34, -6176, 6111} };
const Fmt &fmt_of (int w) { return fmts[w == 32 ? 0 : w == 64 ? 1 : 2]; }

u128 pow10u (int k) { u128 r = 1; while (k-- > 0) r *= 10; return r; }
int ndig (u128 c) { int n = 0; while (c) { n++; c /= 10; } return n ? n : 1; }

Dec dec_decode (int w, const unsigned char *b) {
  Dec d = {0, 0, 0, 0};
  u128 v = 0;
  memcpy (&v, b, w / 8);
  const Fmt &f = fmt_of (w);
  d.sign = (int) (v >> (w - 1)) & 1;
  int ebits = w == 32 ? 8 : w == 64 ? 10 : 14;
  int cb = w - 1 - ebits;               // 23, 53, 113
  unsigned top5 = (unsigned) (v >> (w - 6)) & 31;
  if (top5 == 31) { d.cls = (v >> (w - 7)) & 1 ? 3 : 2; return d; }
  if (top5 == 30) { d.cls = 1; return d; }
  if ((top5 >> 3) == 3) {
    d.e = (int) ((v >> (cb - 2)) & ((1u << ebits) - 1));
    d.c = ((u128) 1 << cb) | (v & (((u128) 1 << (cb - 2)) - 1));
  } else {
    d.e = (int) ((v >> cb) & ((1u << ebits) - 1));
    d.c = v & (((u128) 1 << cb) - 1);
  }
  if (w == 128 && (top5 >> 3) == 3) d.c = 0;
  if (d.c >= pow10u (f.p)) d.c = 0;
  d.e += f.emin;
  return d;
}

void dec_encode (int w, const Dec &d, unsigned char *out) {
  const Fmt &f = fmt_of (w);
  int ebits = w == 32 ? 8 : w == 64 ? 10 : 14;
  int cb = w - 1 - ebits;
  u128 v = (u128) d.sign << (w - 1);
  if (d.cls == 1) v |= (u128) 30 << (w - 6);
  else if (d.cls == 2) v |= (u128) 31 << (w - 6);
  else if (d.cls == 3) v |= (u128) 63 << (w - 7);
  else {
    u128 be = d.e - f.emin;
    if (d.c < ((u128) 1 << cb)) v |= be << cb | d.c;
    else v |= (u128) 3 << (w - 3) | be << (cb - 2) | (d.c & (((u128) 1 << (cb - 2)) - 1));
  }
  memset (out, 0, 16);
  memcpy (out, &v, w / 8);
}

static cpp_int p10 (int k) {
  static cpp_int tab[700]; static bool init = false;
  if (!init) { tab[0] = 1; for (int i = 1; i < 700; i++) tab[i] = tab[i - 1] * 10; init = true; }
  if (k < 700) return tab[k];
  return boost::multiprecision::pow (cpp_int (10), (unsigned) k);
}
static int cdig (const cpp_int &n) {
  if (n == 0) return 1;
  int k = (int) ((double) msb (n) * 0.30102999566398);     // one too few at most
  return n >= p10 (k + 1) ? k + 2 : n >= p10 (k) ? k + 1 : k;
}

// divide N by 10^k rounding per mode; returns inexact
static bool rdiv (cpp_int &n, int k, int mode, int sign) {
  if (k <= 0) return false;
  int nd = cdig (n);
  if (k > nd + 2) k = nd + 2;           // same discarded value class: 0 < frac < 1/2
  cpp_int q, r, d = p10 (k);
  divide_qr (n, d, q, r);
  bool inexact = r != 0;
  if (inexact) {
    cpp_int t = r * 2;
    int cmp = t < d ? -1 : t == d ? 0 : 1;
    bool up = false;
    switch (mode) {
      case 0: up = cmp > 0 || (cmp == 0 && (q & 1) != 0); break;
      case 1: up = false; break;
      case 2: up = !sign; break;
      case 3: up = sign; break;
      case 4: up = cmp >= 0; break;
    }
    if (up) q += 1;
  }
  n = q;
  return inexact;
}

static bool named (const char *sym, const char *list) {
  size_t l = strlen (sym);
  while (l && sym[l - 1] >= '0' && sym[l - 1] <= '9') l--;
  if (l && sym[l - 1] == 'd') l--;
  for (const char *p = list; *p; ) { size_t n = strcspn (p, " "); if (n == l && !memcmp (p, sym, n)) return true; p += n; while (*p == ' ') p++; }
  return false;
}
static cpp_int big (u128 c) { cpp_int x = (unsigned long) (c >> 64); x <<= 64; x += (unsigned long) c; return x; }
struct Rounded { Dec d; int flags; };

// value = (-1)^sign * n * 10^e exactly (a sticky digit already included)
static Rounded round_to (const Fmt &f, int mode, int sign, cpp_int n, long e, long ideal) {
  Rounded r; r.flags = 0; r.d.cls = 0; r.d.sign = sign;
  if (n == 0) {
    if (ideal < f.emin) ideal = f.emin;
    if (ideal > f.emax) ideal = f.emax;
    r.d.c = 0; r.d.e = (int) ideal; return r;
  }
  int nd = cdig (n);
  bool tiny = nd + e < f.p + f.emin;
  long t = e;
  if (nd + e - f.p > t) t = nd + e - f.p;
  if (t < f.emin) t = f.emin;
  bool inexact = false;
  if (t > e) {
    inexact = rdiv (n, (int) (t - e > 1000000 ? 1000000 : t - e), mode, sign);
    if (n == p10 (f.p)) { n /= 10; t++; }
  }
  if (!inexact) {
    if (n == 0) { }
    else if (t < ideal) { while (t < ideal && n % 10 == 0) { n /= 10; t++; } }
    else if (t > ideal) { cpp_int lim = p10 (f.p); while (t > ideal && t > f.emin && n * 10 < lim) { n *= 10; t--; } }
  }
  if (n == 0) { r.flags = FE_INEXACT | FE_UNDERFLOW; r.d.c = 0; r.d.e = (int) t; return r; }
  if (t > f.emax) {
    cpp_int lim = p10 (f.p);
    while (t > f.emax && n * 10 < lim) { n *= 10; t--; }
    if (t > f.emax) {
      r.flags = FE_OVERFLOW | FE_INEXACT;
      bool toinf = mode == 0 || mode == 4 || (mode == 2 && !sign) || (mode == 3 && sign);
      if (toinf) r.d.cls = 1;
      else { r.d.c = pow10u (f.p) - 1; r.d.e = f.emax; }
      return r;
    }
  }
  if (inexact) r.flags |= FE_INEXACT;
  if (inexact && tiny) r.flags |= FE_UNDERFLOW;
  r.d.c = 0;
  { cpp_int x = n; unsigned long lo = (unsigned long) (x & 0xffffffffffffffffull).convert_to<unsigned long> ();
    unsigned long hi = (x >> 64).convert_to<unsigned long> (); r.d.c = (u128) hi << 64 | lo; }
  r.d.e = (int) t;
  return r;
}


static Rounded do_add (const Fmt &f, int mode, Dec x, Dec y) {
  long ideal = x.e < y.e ? x.e : y.e;
  if (x.c == 0 && y.c == 0) {
    Rounded r; r.flags = 0; r.d.cls = 0; r.d.c = 0; r.d.e = (int) ideal;
    r.d.sign = x.sign == y.sign ? x.sign : mode == 3;
    return r;
  }
  // bring to a common exponent, replacing a far smaller operand by a sticky digit
  cpp_int a = big (x.c), b = big (y.c);
  long e;
  if (x.c && y.c) {
    Dec *hi = &x, *lo = &y; cpp_int *H = &a, *L = &b;
    if (x.e < y.e) { std::swap (hi, lo); std::swap (H, L); }
    long gap = hi->e - lo->e;
    if (gap > 3 * f.p + 10) {
      int k = 2 * f.p + 6;
      *H *= p10 (k); *L = 1;
      e = hi->e - k;
    } else { *H *= p10 ((int) gap); e = lo->e; }
  } else {
    // one is zero: exact value of the other, padded toward the ideal exponent
    e = x.c ? x.e : y.e;
  }
  cpp_int s = (x.sign ? -a : a) + (y.sign ? -b : b);
  if (s == 0) {
    Rounded r; r.flags = 0; r.d.cls = 0; r.d.c = 0; r.d.e = (int) ideal; r.d.sign = mode == 3; return r;
  }
  int sg = s < 0;
  if (sg) s = -s;
  return round_to (f, mode, sg, s, e, ideal);
}

// a*b + c with one rounding
static Rounded do_fma (const Fmt &f, int mode, const Dec &x, const Dec &y, const Dec &z) {
  cpp_int a = big (x.c) * big (y.c), b = big (z.c);
  long ea = (long) x.e + y.e, eb = z.e, ideal = ea < eb ? ea : eb, e = ideal;
  int sa = x.sign ^ y.sign, sb = z.sign;
  if (a == 0 && b == 0) return round_to (f, mode, sa == sb ? sa : mode == 3, 0, 0, ideal);
  if (a == 0) e = eb; else if (b == 0) e = ea;
  else {
    bool big_a = ea >= eb;
    cpp_int &H = big_a ? a : b, &L = big_a ? b : a;
    long gap = big_a ? ea - eb : eb - ea;
    if (gap > 6 * f.p + 10) { int k = 3 * f.p + 6; H *= p10 (k); L = 1; e = (big_a ? ea : eb) - k; }
    else { H *= p10 ((int) gap); e = ideal; }
  }
  cpp_int s = (sa ? -a : a) + (sb ? -b : b);
  if (s == 0) return round_to (f, mode, mode == 3, 0, 0, ideal);
  int sg = s < 0;
  if (sg) s = -s;
  return round_to (f, mode, sg, s, e, ideal);
}
static Rounded do_sqrt (const Fmt &f, int mode, const Dec &x) {
  cpp_int n = big (x.c), r, q;
  int k = 4 * f.p + 8; if ((x.e - k) & 1) k++;
  q = sqrt (n * p10 (k), r);
  long e = ((long) x.e - k) / 2;
  if (r != 0) { q = q * 10 + 1; e--; }
  return round_to (f, mode, 0, q, e, x.e < 0 ? (x.e - 1) / 2 : x.e / 2);
}
// the value of a binary floating-point operand: (-1)^sign * m * 2^e; false if it is not a number
static bool binary_value (const OpDef *o, const Args *a, int *sign, cpp_int *m, int *e) {
  int x, bias, mb;
  if (o->kind == K_SF2D) { uint32_t u; memcpy (&u, a->a[0], 4); *sign = u >> 31; x = u >> 23 & 255; bias = 127; mb = 23; *m = u & 0x7fffff; if (x == 255) return false; }
  else if (o->kind == K_DF2D) { uint64_t u; memcpy (&u, a->a[0], 8); *sign = u >> 63; x = u >> 52 & 2047; bias = 1023; mb = 52; *m = u & 0xfffffffffffffull; if (x == 2047) return false; }
  else if (o->kind == K_XF2D) {
    uint64_t u; uint16_t h; memcpy (&u, a->a[0], 8); memcpy (&h, a->a[0] + 8, 2); *sign = h >> 15; x = h & 32767;
    if (x == 32767 || (x && !(u >> 63)) || (!x && u >> 63)) return false;
    *m = u; *e = (x ? x : 1) - 16383 - 63; return true;
  } else { u128 u; memcpy (&u, a->a[0], 16); *sign = (int) (u >> 127); x = (int) (u >> 112) & 32767; bias = 16383; mb = 112; *m = big (u & (((u128) 1 << 112) - 1)); if (x == 32767) return false; }
  if (x) *m += cpp_int (1) << mb; else x = 1;
  *e = x - bias - mb;
  return true;
}

// C * 10^E rounded to a binary format of P digits whose least exponent of a unit is QMIN and whose values stay below
// 2^TOP: *M * 2^*Q, or infinity (true).
static bool to_binary (int mode, int sign, const cpp_int &c, int e, int P, int qmin, int top, cpp_int *m, int *q) {
  cpp_int n = c, d = 1;
  if (e >= 0) n *= p10 (e); else d = p10 (-e);
  *q = qmin; *m = 0;
  if (n == 0) return false;
  int k = (int) msb (n) - (int) msb (d) - P;           // the quotient by 2^k has P or P + 1 digits, or one more
  cpp_int r;
  for (;; k++) {
    if (k < qmin) k = qmin;
    cpp_int N = n, D = d;
    if (k >= 0) D <<= k; else N <<= -k;
    divide_qr (N, D, *m, r);
    if (*m != 0 && (int) msb (*m) >= P) continue;
    cpp_int t = r * 2; int cmp = t < D ? -1 : t == D ? 0 : 1;
    if (r != 0 && (mode == 0 ? cmp > 0 || (cmp == 0 && (*m & 1) != 0) : mode == 2 ? !sign : mode == 3 ? (bool) sign : mode == 4 ? cmp >= 0 : false)) *m += 1;
    break;
  }
  *q = k;
  if (*m != 0 && (int) msb (*m) == P) { *m >>= 1; ++*q; }
  if (*m != 0 && (int) msb (*m) + *q >= top) {
    if (mode == 0 || mode == 4 || (mode == 2 && !sign) || (mode == 3 && sign)) return true;
    *m = (cpp_int (1) << P) - 1; *q = top - P;
  }
  return false;
}
static std::string binary_bytes (int kind, int sign, bool inf, const cpp_int &m, int q, int P, int qmin, int top) {
  int eb = kind == K_D2SF ? 8 : kind == K_D2DF ? 11 : 15, width = kind == K_D2SF ? 32 : kind == K_D2DF ? 64 : kind == K_D2XF ? 80 : 128;
  bool explicit1 = kind == K_D2XF; int mb = explicit1 ? 64 : P - 1;
  cpp_int v = 0;
  if (inf) { v = cpp_int ((1 << eb) - 1) << mb; if (explicit1) v |= cpp_int (1) << 63; }
  else {
    bool normal = m != 0 && (int) msb (m) == P - 1;
    cpp_int f = m; if (normal && !explicit1) f -= cpp_int (1) << (P - 1);
    v = f; if (normal) v |= cpp_int (q - qmin + 1) << mb;
  }
  if (sign) v |= cpp_int (1) << (width - 1);
  std::string s (16, 0);
  for (int i = 0; i < 16; i++) { s[i] = (char) (v & 255).convert_to<unsigned> (); v >>= 8; }
  (void) top;
  return s;
}

static Rounded do_mul (const Fmt &f, int mode, const Dec &x, const Dec &y) {
  return round_to (f, mode, x.sign ^ y.sign, big (x.c) * big (y.c), (long) x.e + y.e, (long) x.e + y.e);
}

static Rounded do_div (const Fmt &f, int mode, const Dec &x, const Dec &y) {
  int sg = x.sign ^ y.sign;
  long ideal = (long) x.e - y.e;
  if (x.c == 0) return round_to (f, mode, sg, 0, 0, ideal);
  int k = f.p + 4 + ndig (y.c) - ndig (x.c);
  if (k < 0) k = 0;
  // enough digits for an exact quotient to be recognised
  k += f.p * 4;
  cpp_int n = big (x.c) * p10 (k), q, r;
  divide_qr (n, big (y.c), q, r);
  long e = ideal - k;
  if (r != 0) { q = q * 10 + 1; e -= 1; }
  return round_to (f, mode, sg, q, e, ideal);
}

static std::string dec_bytes (int w, const Dec &d) {
  unsigned char o[16]; dec_encode (w, d, o);
  return std::string ((char *) o, 16);
}

static const int FEALL = FE_ALL_EXCEPT;

static Rounded arith (const Fmt &f, int mode, char op, const Dec &x, Dec y, bool *nan) {
  Rounded r; r.flags = 0; *nan = false;
  r.d = Dec {0, 0, 0, 0};
  if (op == '-') y.sign ^= 1;
  if (op == '+' || op == '-') {
    if (x.cls == 1 && y.cls == 1 && x.sign != y.sign) { *nan = true; r.flags = FE_INVALID; return r; }
    if (x.cls == 1) { r.d = x; return r; }
    if (y.cls == 1) { r.d = y; return r; }
    return do_add (f, mode, x, y);
  }
  int sg = x.sign ^ y.sign;
  if (op == '*') {
    if (x.cls == 1 || y.cls == 1) {
      if ((x.cls == 0 && x.c == 0) || (y.cls == 0 && y.c == 0)) { *nan = true; r.flags = FE_INVALID; return r; }
      r.d.cls = 1; r.d.sign = sg; return r;
    }
    return do_mul (f, mode, x, y);
  }
  if (x.cls == 1) {
    if (y.cls == 1) { *nan = true; r.flags = FE_INVALID; return r; }
    r.d.cls = 1; r.d.sign = sg; return r;
  }
  if (y.cls == 1) { r.d.sign = sg; r.d.e = f.emin; return r; }
  if (y.c == 0) {
    if (x.c == 0) { *nan = true; r.flags = FE_INVALID; return r; }
    r.d.cls = 1; r.d.sign = sg; r.flags = FE_DIVBYZERO; return r;
  }
  return do_div (f, mode, x, y);
}

static Dec canon_inf (Dec d) { if (d.cls == 1) { d.c = 0; d.e = 0; } return d; }

bool oracle_expect (const OpDef *o, const Args *a, int mode, std::string &out, int *kind, int *flags) {
  *flags = -1; *kind = 0;
  const Fmt &f = fmt_of (o->w);
  switch (o->kind) {
    case K_D_DD: {
      Dec x = dec_decode (o->w, a->a[0]), y = dec_decode (o->w, a->a[1]);
      if (x.cls > 1 || y.cls > 1) return false;
      if (o->groups & G_ARITH) {
        char op = strstr (o->sym, "_add") ? '+' : strstr (o->sym, "_sub") ? '-' : strstr (o->sym, "_mul") ? '*' : '/';
        bool nan;
        if (o->w == 32) {
          // _Decimal32 operators work in _Decimal64 and narrow the result
          Rounded r = arith (fmt_of (64), mode, op, x, y, &nan);
          if (nan) { *kind = 3; *flags = r.flags; return true; }
          if (r.d.cls == 1) { *flags = r.flags; out = dec_bytes (32, canon_inf (r.d)); return true; }
          Rounded q = round_to (f, mode, r.d.sign, big (r.d.c), r.d.e, r.d.e);
          out = dec_bytes (32, canon_inf (q.d)); *flags = r.flags | q.flags;
          return true;
        }
        Rounded r = arith (f, mode, op, x, y, &nan);
        *flags = r.flags & FEALL;
        if (nan) { *kind = 3; return true; }
        out = dec_bytes (o->w, canon_inf (r.d));
        return true;
      }
      if (named (o->sym, "fdim")) {
        if (x.cls || y.cls) return false;
        bool nan; Rounded r = arith (f, mode, '-', x, y, &nan), e = arith (f, 0, '-', x, y, &nan);
        if (e.d.sign || (e.d.cls == 0 && e.d.c == 0)) r.d = Dec {0, 0, 0, 0};
        *kind = 4; out = dec_bytes (o->w, canon_inf (r.d)); return true;
      }
      if (!strncmp (o->sym, "quantize", 8)) {
        if (x.cls || y.cls) return false;
        cpp_int n = big (x.c);
        if (x.e >= y.e) {
          if (n != 0) {
            if (x.e - y.e > 2 * f.p) { *kind = 3; *flags = FE_INVALID; return true; }
            n *= p10 (x.e - y.e);
          }
        } else if (rdiv (n, y.e - x.e, mode, x.sign)) *flags = FE_INEXACT;
        if (*flags < 0) *flags = 0;
        if (n >= p10 (f.p)) { *kind = 3; *flags = FE_INVALID; return true; }
        Dec d = {0, x.sign, (u128) (n >> 64).convert_to<unsigned long> () << 64 | (n & 0xffffffffffffffffull).convert_to<unsigned long> (), y.e};
        *flags = -1;
        out = dec_bytes (o->w, d);
        return true;
      }
      return false;
    }
    case K_D_D:
      if (!strncmp (o->sym, "rint", 4) || !strncmp (o->sym, "nearbyint", 9)) {
        Dec x = dec_decode (o->w, a->a[0]);
        if (x.cls) return false;
        if (x.e >= 0) return false;
        cpp_int n = big (x.c);
        rdiv (n, -x.e, mode, x.sign);
        Dec d = {0, x.sign, (u128) (n >> 64).convert_to<unsigned long> () << 64 | (n & 0xffffffffffffffffull).convert_to<unsigned long> (), 0};
        *kind = 4;                      // compare numerically
        out = dec_bytes (o->w, d);
        return true;
      }
      if (named (o->sym, "sqrt")) {
        Dec x = dec_decode (o->w, a->a[0]);
        if (x.cls || (x.sign && x.c)) return false;
        *kind = 4; out = dec_bytes (o->w, x.c ? do_sqrt (f, mode, x).d : x);
        return true;
      }
      return false;
    case K_D_DDD: {
      Dec x = dec_decode (o->w, a->a[0]), y = dec_decode (o->w, a->a[1]), z = dec_decode (o->w, a->a[2]);
      if (!named (o->sym, "fma") || x.cls || y.cls || z.cls) return false;
      *kind = 4; out = dec_bytes (o->w, canon_inf (do_fma (f, mode, x, y, z).d));
      return true;
    }
    case K_D_DI: case K_D_DL: {
      Dec x = dec_decode (o->w, a->a[0]);
      if (!named (o->sym, "scalbn scalbln ldexp") || x.cls) return false;
      long n = o->kind == K_D_DI ? (int) a->i : (long) a->i, lim = 40000;
      if (n > lim) n = lim;
      if (n < -lim) n = -lim;
      *kind = 4; out = dec_bytes (o->w, canon_inf (round_to (f, mode, x.sign, big (x.c), x.e + n, x.e + n).d));
      return true;
    }
    case K_SF2D: case K_DF2D: case K_XF2D: case K_TF2D: {
      int sg, e; cpp_int m;
      if (!binary_value (o, a, &sg, &m, &e)) return false;
      if (e > 0) { m <<= e; e = 0; }
      else { while (e < 0 && m != 0 && (m & 1) == 0) { m >>= 1; e++; } m *= boost::multiprecision::pow (cpp_int (5), (unsigned) -e); }
      *kind = 4; out = dec_bytes (o->w, canon_inf (round_to (f, mode, sg, m, e, e).d));
      return true;
    }
    case K_D2SF: case K_D2DF: case K_D2XF: case K_D2TF: {
      Dec x = dec_decode (o->w, a->a[0]);
      if (x.cls) return false;
      unsigned char canon[16]; dec_encode (o->w, x, canon);
      if (memcmp (canon, a->a[0], o->w / 8)) return false;         // libgcc's part takes some of these for numbers
      int k = o->kind, P = k == K_D2SF ? 24 : k == K_D2DF ? 53 : k == K_D2XF ? 64 : 113, top = k == K_D2SF ? 128 : k == K_D2DF ? 1024 : 16384, qmin = 3 - top - P, q; cpp_int m;
      bool inf = to_binary (mode, x.sign, big (x.c), x.e, P, qmin, top, &m, &q);
      *kind = 0; out = binary_bytes (k, x.sign, inf, m, q, P, qmin, top);
      return true;
    }
    case K_L_D:
      if (!strncmp (o->sym, "lrint", 5) || !strncmp (o->sym, "llrint", 6)) {
        Dec x = dec_decode (o->w, a->a[0]);
        if (x.cls) return false;
        cpp_int n = big (x.c);
        if (x.e > 20) return false;
        if (x.e > 0) n *= p10 (x.e); else rdiv (n, -x.e, mode, x.sign);
        if (n > cpp_int (0x7fffffffffffffffll)) return false;
        long v = n.convert_to<long> ();
        if (x.sign) v = -v;
        *kind = 1;
        out = std::string ((char *) &v, sizeof v);
        return true;
      }
      return false;
    case K_CVT: {
      if (o->w2 >= o->w) return false;
      Dec x = dec_decode (o->w, a->a[0]);
      if (x.cls) return false;
      Rounded r = round_to (fmt_of (o->w2), mode, x.sign, big (x.c), x.e, x.e);
      out = dec_bytes (o->w2, canon_inf (r.d));
      *flags = r.flags;
      return true;
    }
    case K_TI2D: {
      u128 v; memcpy (&v, a->a[0], 16);
      int sg = !strstr (o->sym, "uns") && (v >> 127);
      if (sg) v = -v;
      Rounded r = round_to (f, mode, sg, big (v), 0, 0);
      out = dec_bytes (o->w, r.d);
      return true;
    }
    case K_SI2D: case K_DI2D: {
      bool uns = strstr (o->sym, "uns") != 0;
      cpp_int n; int sg = 0;
      if (o->kind == K_SI2D) { int v; memcpy (&v, a->a[0], 4); if (uns) n = (unsigned) v; else { sg = v < 0; n = v; if (sg) n = -n; } }
      else { long v; memcpy (&v, a->a[0], 8); if (uns) n = (unsigned long) v; else { sg = v < 0; n = v; if (sg) n = -n; } }
      Rounded r = round_to (f, mode, sg, n, 0, 0);
      out = dec_bytes (o->w, r.d);
      return true;
    }
    case K_STRFROM: case K_SNPRINTF: case K_SWPRINTF: case K_PRINTF_DFP: case K_FPRINTF: {
      // %.Pe and %.Pf of finite values, no flags
      if (o->groups & G_MIX) return false;
      int prec, spec;
      if (o->kind == K_STRFROM) {
        const char *s = a->str;
        if (s[0] != '%' || s[1] != '.') return false;
        s += 2; prec = 0;
        while (*s >= '0' && *s <= '9') prec = prec * 10 + *s++ - '0';
        spec = *s;
      } else { prec = a->prec; spec = a->spec; if (spec != 'g' && spec != 'G' && spec != 'a' && spec != 'A' && (a->pflags || a->width > 0)) return false; if (a->pflags & 32) return false; }
      if (prec < 0 || prec > 200) return false;
      Dec x = dec_decode (o->w, a->a[0]);
      if (x.cls) return false;
      if (x.c == 0) return false;
      cpp_int n = big (x.c);
      if (spec == 'g' || spec == 'G' || spec == 'a' || spec == 'A') {
        // the text denotes the value rounded to that many significant digits
        int sig = prec ? prec : 1, drop = cdig (n) - sig;
        long e = x.e;
        if (drop > 0) { rdiv (n, drop, mode, x.sign); e += drop; }
        out = std::string (x.sign ? "-" : "") + n.str () + "e" + std::to_string (e); *kind = 5;
        return true;
      }
      if (spec == 'e' || spec == 'E') {
        int nd = cdig (n), drop = nd - (prec + 1);
        long ex = (long) x.e + nd - 1;
        if (drop > 0) { rdiv (n, drop, mode, x.sign); if (cdig (n) > prec + 1) { n /= 10; ex++; } }
        std::string s = n.str ();
        while ((int) s.size () < prec + 1) s += '0';
        std::string t = x.sign ? "-" : "";
        t += s[0];
        if (prec > 0) { t += '.'; t += s.substr (1); }
        char b[32]; snprintf (b, sizeof b, "%c%c%02ld", spec, ex < 0 ? '-' : '+', ex < 0 ? -ex : ex);
        out = t + b; *kind = 2;
        return true;
      }
      if (spec == 'f' || spec == 'F') {
        if (x.e > 300) return false;
        // value * 10^prec, rounded to an integer
        long sh = (long) x.e + prec;
        if (sh >= 0) n *= p10 ((int) sh); else rdiv (n, (int) -sh, mode, x.sign);
        std::string s = n.str ();
        while ((int) s.size () < prec + 1) s.insert (0, "0");
        std::string t = x.sign ? "-" : "";
        t += s.substr (0, s.size () - prec);
        if (prec > 0) { t += '.'; t += s.substr (s.size () - prec); }
        out = t; *kind = 2;
        return true;
      }
      return false;
    }
  }
  return false;
}

// The flags IEEE 754 fixes for operations other than + - * / on numbers.  The
// result has the flags a call must raise; bits of *FREE may be raised or not.
// -1: nothing is said.
int exact_flags (const OpDef *o, const Args *a, int mode, int *fre) {
  *fre = 0;
  const Fmt &f = fmt_of (o->w);
  Dec x = dec_decode (o->w, a->a[0]), y = dec_decode (o->w, a->a[1]);
  bool snan = x.cls == 3 || ((o->kind == K_D_DD || o->kind == K_I_DD || o->kind == K_D_DDD) && y.cls == 3);
  if ((o->groups & G_MIX) && dec_decode (o->w2, a->a[1]).cls == 3) return -1;
  if (snan && !(o->groups & G_ARITH) && o->kind != K_CVT) return -1;    // signalling NaNs are IEEE's, not C's
  switch (o->kind) {
    case K_D_DD:
      if (o->groups & G_ARITH) {
        if (x.cls < 2 && y.cls < 2) return -1;
        return x.cls == 3 || y.cls == 3 ? FE_INVALID : 0;
      }
      if (named (o->sym, "quantize")) {
        if (x.cls == 2 || y.cls == 2) return 0;
        if (x.cls || y.cls) return x.cls == y.cls ? 0 : FE_INVALID;
        cpp_int n = big (x.c);
        if (x.e >= y.e) { if (n != 0) { if (x.e - y.e > 2 * f.p) return FE_INVALID; n *= p10 (x.e - y.e); } }
        else rdiv (n, y.e - x.e, mode, x.sign);
        *fre = FE_INEXACT; return n >= p10 (f.p) ? FE_INVALID : 0;
      }
      if (named (o->sym, "fmax fmin fmaxmag fminmag")) return 0;
      if (named (o->sym, "copysign")) return 0;
      return -1;
    case K_D_D: {
      if (named (o->sym, "fabs nearbyint")) return 0;
      if (named (o->sym, "ceil floor trunc round roundeven")) { if (!x.cls) *fre = FE_INEXACT; return 0; }
      if (named (o->sym, "rint")) {
        if (x.cls || x.e >= 0) return 0;
        cpp_int n = big (x.c);
        return rdiv (n, -x.e, mode, x.sign) ? FE_INEXACT : 0;
      }
      if (named (o->sym, "sqrt")) {
        if (x.cls == 2) return 0;
        if (x.sign && (x.cls == 1 || x.c)) return FE_INVALID;
        if (!x.cls && x.c) *fre = FE_INEXACT;
        return 0;
      }
      return -1;
    }
    case K_CVT: {
      if (x.cls == 3) return FE_INVALID;
      if (x.cls || o->w2 > o->w) return 0;
      return round_to (fmt_of (o->w2), mode, x.sign, big (x.c), x.e, x.e).flags;
    }
    case K_SI2D: case K_DI2D: case K_TI2D: *fre = FE_INEXACT; return 0;
    case K_D2SI: case K_D2DI: case K_D2TI: {
      if (x.cls) { *fre = FE_INVALID | FE_INEXACT; return 0; }
      cpp_int n = big (x.c);
      if (x.e > 60) { if (n != 0) *fre = FE_INVALID | FE_INEXACT; return 0; }
      if (x.e > 0) n *= p10 (x.e); else if (x.e < 0) { n /= p10 (-x.e > 60 ? 60 : -x.e); }
      int bits = o->kind == K_D2SI ? 32 : o->kind == K_D2DI ? 64 : 128; bool uns = strstr (o->sym, "uns") != 0;
      cpp_int lim = cpp_int (1) << (uns ? bits : bits - 1);
      bool out = x.sign ? (uns ? true : n > lim - lim / 1000000) : n >= lim - lim / 1000000;
      *fre = out ? FE_INEXACT | FE_INVALID : FE_INEXACT;    // libbid's conversions are silent, the others raise invalid
      return 0;
    }
    case K_L_D: {
      if (!named (o->sym, "lrint llrint lround llround")) return -1;
      if (x.cls) return FE_INVALID;
      cpp_int n = big (x.c); bool ix = false;
      if (x.e > 40) return n == 0 ? 0 : FE_INVALID;
      if (x.e > 0) n *= p10 (x.e); else ix = rdiv (n, -x.e, named (o->sym, "lround llround") ? 4 : mode, x.sign);
      cpp_int lim = cpp_int (1) << 63;
      bool out = x.sign ? n > lim : n >= lim;
      *fre = named (o->sym, "lround llround") || out ? FE_INEXACT : 0;
      return out ? FE_INVALID : ix ? FE_INEXACT : 0;
    }
    case K_I_DD: {
      if (o->groups & G_CMP) {
        if (x.cls > 1 || y.cls > 1) *fre = FE_INVALID;
        return 0;
      }
      return -1;
    }
    case K_DEC: case K_STRFROM: case K_SNPRINTF: case K_SWPRINTF: case K_PRINTF_DFP: case K_FPRINTF:
      *fre = FE_INEXACT; return 0;
    case K_STRTOD: case K_WCSTOD:
      *fre = FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW; return 0;
    case K_D_S: return 0;
    case K_D_DpI: case K_D_DpD: return 0;
    case K_D_DI: case K_D_DL: {
      if (x.cls) return 0;
      return round_to (f, mode, x.sign, big (x.c), (long) x.e + (a->i > 100000 ? 100000 : a->i < -100000 ? -100000 : a->i), x.e).flags & ~(*fre = FE_INEXACT | FE_UNDERFLOW);
    }
  }
  return -1;
}

// What strtod and wcstod make of a text in the C locale: the number of
// characters consumed, the value rounded once in MODE, the flags and errno.
// Words (inf, nan) are not judged.  Returns null or what is wrong; *WHAT is
// 0 value, 1 flags, 2 errno.
const char *text_exact (const OpDef *o, const Args *a, int mode, const Res *r, int fl, int err, int *what) {
  const Fmt &f = fmt_of (o->w);
  const char *p = a->str, *end = p + strnlen (p, a->slen), *s0 = p;
  *what = 0;
  while (p < end && (*p == ' ' || (*p >= 9 && *p <= 13))) p++;
  int sign = 0;
  if (p < end && (*p == '+' || *p == '-')) sign = *p++ == '-';
  if (p < end && strchr ("iInN", *p)) return 0;
  std::string dig; long e = 0; bool any = false, point = false;
  for (; p < end; p++) {
    if (*p == '.' && !point) { if (!any && !(p + 1 < end && p[1] >= '0' && p[1] <= '9')) break; point = true; continue; }
    if (*p < '0' || *p > '9') break;
    any = true; if (point) e--;
    if (!dig.empty () || *p != '0') dig += *p;
  }
  if (!any) { if (r->ri > 0) return "characters consumed of a text with no number"; *what = 2; return err == ERANGE ? "a text with no number set errno to ERANGE" : 0; }
  if (p < end && (*p | 32) == 'e') {
    const char *q = p + 1; bool neg = false; long x = 0;
    if (q < end && (*q == '+' || *q == '-')) neg = *q++ == '-';
    if (q < end && *q >= '0' && *q <= '9') {
      for (; q < end && *q >= '0' && *q <= '9'; q++) if (x < 100000000) x = x * 10 + (*q - '0');
      e += neg ? -x : x; p = q;
    }
  }
  if (r->ri >= 0 && r->ri != p - s0) return "the end pointer does not follow the number";
  Dec z = dec_decode (o->w, r->r);
  if (z.cls > 1) return "a number was parsed as a NaN";
  if (z.sign != sign) return "the sign of the text is lost";
  if (dig.empty ()) {
    if (z.cls || z.c) return "a zero was parsed as something else";
    *what = 2; if (err) return "parsing a zero set errno";
    *what = 1; return fl & FE_ALL_EXCEPT ? "parsing a zero raised a flag" : 0;
  }
  // by the library's own tests a text of few digits that ends below the least exponent is zero
  bool below = (int) dig.size () <= f.p && e < f.emin;
  Rounded x = round_to (f, mode, sign, cpp_int (dig), e, e);
  bool zero = z.cls == 0 && !z.c;
  if (!(below && zero)) {
    bool eq = z.cls == x.d.cls;
    if (eq && !z.cls) {
      Dec u = z, v = x.d;
      while (u.c && u.c % 10 == 0) { u.c /= 10; u.e++; }
      while (v.c && v.c % 10 == 0) { v.c /= 10; v.e++; }
      eq = u.c == v.c && (!u.c || u.e == v.e);
    }
    if (!eq) return "the value is not that of the text, correctly rounded";
    *what = 1;
    if ((fl ^ x.flags) & FE_ALL_EXCEPT) return "the flags are not those of the one rounding";
    *what = 2;
    bool range = x.flags & (FE_OVERFLOW | FE_UNDERFLOW);
    return range ? err == ERANGE ? 0 : "a range error did not set errno to ERANGE" : err ? "parsing a representable number set errno" : 0;
  }
  *what = 2; if (err != ERANGE) return "an underflowing text did not set errno to ERANGE";
  *what = 1; return fl & FE_ALL_EXCEPT & ~(FE_UNDERFLOW | FE_INEXACT) ? "an underflowing text raised other flags" : 0;
}

// Do two decimal texts (padding, sign, digits, point, exponent) denote the same number?
static bool text_value (const std::string &s, int *sign, std::string *dig, long *e) {
  size_t i = 0;
  while (i < s.size () && s[i] == ' ') i++;
  *sign = 0; *e = 0; dig->clear ();
  if (i < s.size () && (s[i] == '-' || s[i] == '+')) *sign = s[i++] == '-';
  bool point = false, any = false;
  for (; i < s.size (); i++) {
    if (s[i] == '.' && !point) { point = true; continue; }
    if (s[i] < '0' || s[i] > '9') break;
    any = true; *dig += s[i]; if (point) --*e;
  }
  if (!any) return false;
  if (i < s.size () && (s[i] == 'e' || s[i] == 'E')) {
    char *end; long x = strtol (s.c_str () + i + 1, &end, 10);
    if (end == s.c_str () + i + 1) return false;
    *e += x; i = end - s.c_str ();
  }
  while (i < s.size () && s[i] == ' ') i++;
  if (i != s.size ()) return false;
  size_t z = dig->find_first_not_of ('0');
  *dig = z == std::string::npos ? "" : dig->substr (z);
  while (!dig->empty () && dig->back () == '0') { dig->pop_back (); ++*e; }
  return true;
}
bool same_value (const std::string &a, const std::string &b) {
  int sa, sb; std::string da, db; long ea, eb;
  if (!text_value (a, &sa, &da, &ea) || !text_value (b, &sb, &db, &eb)) return false;
  return sa == sb && da == db && (da.empty () || ea == eb);
}
