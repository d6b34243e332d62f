// Workloads: what each property's simulated runs are made of.
#include "sim.h"
#include "gen.h"
#include "oracle.h"
#include <algorithm>
#include <cfenv>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>

#define B(x) (1u << (x))
const Profile profiles[] = {
  {"C01", B (V_ORACLE) | B (V_SETROUND) | B (V_NEWTHREAD) | B (V_RESULT) | B (V_CRASH) | B (V_HANG)},
  {"C02", B (V_MODE) | B (V_BINMODE)},
  {"C03", B (V_RESULT) | B (V_CRASH) | B (V_HANG)},
  {"C04", B (V_FLAGCLR) | B (V_FLAGDIFF) | B (V_FLAGIEEE)},
  {"C05", B (V_ERRZERO) | B (V_ERRDIFF)},
  {"C06", B (V_STREAM) | B (V_WIDTH) | B (V_RESULT) | B (V_CRASH) | B (V_HANG)},
  {"C07", B (V_CXX) | B (V_CRASH) | B (V_HANG)},
  {"C08", B (V_FAULTRES) | B (V_CRASH) | B (V_HANG) | B (V_MODE) | B (V_FLAGCLR) | B (V_RESULT)},
  {"C09", B (V_LEAK) | B (V_CRASH)},
  {"C10", B (V_RESULT) | B (V_WIDTH) | B (V_LOCALE) | B (V_CRASH)},
  {"C11", B (V_RESULT) | B (V_MODE) | B (V_CRASH) | B (V_HANG)},
  {"C12", B (V_RESULT) | B (V_REGRET) | B (V_CRASH) | B (V_HANG)},
  {"C13", B (V_BOUND) | B (V_RESULT) | B (V_CRASH)},
  {"C14", B (V_RESULT) | B (V_FLAGDIFF) | B (V_CRASH) | B (V_HANG)},
};
const Profile *find_profile (const std::string &p) {
  for (auto &q : profiles) if (p == q.prop) return &q;
  return 0;
}

// ---------------------------------------------------------------- values
static void put (unsigned char *out, int w, int sign, u128 c, int e) {
  const Fmt &f = fmt_of (w);
  if (e < f.emin) e = f.emin;
  if (e > f.emax) e = f.emax;
  Dec d = {0, sign, c, e};
  dec_encode (w, d, out);
}
static u128 digits (Rng &r, int n) {
  u128 c = 0;
  for (int i = 0; i < n; i++) c = c * 10 + (i == 0 ? 1 + r.below (9) : r.below (10));
  if (n > 20 && r.p (8)) {                             // a carry out of the low word is near
    u128 lo = r.p (60) ? ~0ull - r.below (3) : r.below (3), h = c >> 64 << 64 | lo;
    if (ndig (h) == n) c = h;
  }
  return c;
}
// N digits that are hard to round: a random head, then a tie, a near tie, nearly one unit or nearly none
static u128 hard_digits (Rng &r, int n) {
  int head = r.p (35) ? 7 : r.p (35) ? 16 : (int) r.below (n);
  if (head >= n) head = n - 1;
  std::string s;
  for (int i = 0; i < head; i++) s += (char) ('0' + (i == 0 ? 1 + r.below (9) : r.p (15) ? 9 : r.below (10)));
  if (r.p (15)) for (auto &c : s) c = '9';
  int tail = n - head; std::string t (tail, '0');
  switch (r.below (7)) {
    case 0: t[0] = '5'; break;
    case 1: t[0] = '5'; t[tail - 1] = tail > 1 ? '1' : '5'; break;
    case 2: t.assign (tail, '9'); t[0] = '4'; break;
    case 3: t.assign (tail, '9'); t[0] = '4'; t[tail - 1] = '8'; break;
    case 4: t.assign (tail, '9'); break;
    case 5: t[tail - 1] = '1'; break;
    default: { t[0] = '5'; int k = (int) r.below (tail); if (k) t[k] = (char) ('0' + r.below (10)); }
  }
  u128 c = 0;
  for (char x : s + t) c = c * 10 + (unsigned) (x - '0');
  return c;
}
void gen_dec (Rng &r, int w, unsigned char *o, int bias) {
  const Fmt &f = fmt_of (w);
  memset (o, 0, 16);
  int sign = r.p (35), k = (int) r.below (100);
  if (bias == 1) k = 20 + (int) r.below (45);          // ordinary, many digits
  if (bias == 3) k = 65 + (int) r.below (35);          // zeros, infinities, NaNs, the ends of the range
  if (r.p (bias == 2 ? 75 : 8)) { int n = r.range (f.p / 2, f.p); put (o, w, sign, hard_digits (r, n), r.p (80) ? r.range (-n - 3, 3) : r.range (f.emin, f.emax)); return; }
  if (k < 20) { put (o, w, sign, r.below (1001), -(int) r.below (4)); return; }
  if (k < 36) { int n = r.range (1, f.p); put (o, w, sign, digits (r, n), r.range (-n - 6, 6)); return; }
  if (k < 46) { int n = f.p; put (o, w, sign, digits (r, n), r.range (-n - 3, 3)); return; }
  if (k < 58) { put (o, w, sign, digits (r, r.range (1, f.p)), r.range (f.emin, f.emax)); return; }
  if (k < 65) { int n = r.range (1, f.p - 1); u128 c = digits (r, n) * 10 + 5; put (o, w, sign, c, -(int) r.below (n + 2)); return; } // ties
  if (k < 70) { put (o, w, sign, 0, r.p (50) ? r.range (-8, 8) : r.range (f.emin, f.emax)); return; }
  if (k < 74) { Dec d = {1, sign, 0, 0}; dec_encode (w, d, o); return; }
  if (k < 77) { Dec d = {2, sign, 0, 0}; dec_encode (w, d, o); return; }
  if (k < 79) { Dec d = {3, sign, 0, 0}; dec_encode (w, d, o); return; }
  if (k < 84) { put (o, w, sign, digits (r, r.range (1, f.p - 1)), f.emin + (int) r.below (3)); return; }     // subnormal
  if (k < 88) { put (o, w, sign, pow10u (f.p) - 1 - r.below (3), f.emax - (int) r.below (3)); return; }      // huge
  if (k < 93) { u128 c = pow10u (r.range (0, f.p - 1)); c += r.range (-1, 1); put (o, w, sign, c, r.range (-f.p, 3)); return; }
  if (k < 96) { for (int i = 0; i < w / 8; i++) o[i] = (unsigned char) r.next (); return; }                  // any encoding
  if (k < 98) {                                        // a coefficient too long to be canonical: a zero; Inf and NaN with trailing bits
    int ebits = w == 32 ? 8 : w == 64 ? 10 : 14, cb = w - 1 - ebits, big = w == 128 && r.p (60);
    u128 e = (u128) (r.p (60) ? -f.emin + r.range (-f.p, f.p) : r.range (0, f.emax - f.emin)), v, noise = ((u128) r.next () << 64) | r.next ();
    if (big) { u128 lo = pow10u (f.p); v = e << cb | (lo + noise % (((u128) 1 << cb) - lo)); }
    else if (r.p (25)) v = (u128) (30 + r.below (2)) << (w - 6) | (noise & (((u128) 1 << (w - 6)) - 1));
    else {
      u128 base = (u128) 1 << cb, lo = w == 128 ? 0 : pow10u (f.p) - base, span = (u128) 1 << (cb - 2);
      v = (u128) 3 << (w - 3) | e << (cb - 2) | (lo + noise % (span - lo));
    }
    if (sign) v |= (u128) 1 << (w - 1);
    memcpy (o, &v, w / 8);
    return;
  }
  static const long cs[] = {1, 2, 5, 31415926, 27182818, 10, 15, 7853981, 69314718, 100, 25};
  put (o, w, sign, cs[r.below (11)], -(int) r.below (9));
}
// Operands of a product or a quotient (DIV) whose leading digit falls at the top of the range, or whose last kept digit
// falls at its bottom: every number of digits lost to underflow is as likely, however long the operands are.
static void placed_pair (Rng &r, int w, bool div, unsigned char *a, unsigned char *b) {
  const Fmt &f = fmt_of (w);
  int kept = r.range (-2, f.p + 1), nx = r.p (60) ? f.p : r.range (1, f.p), ny = r.p (50) ? f.p : r.range (1, f.p);
  u128 x, y;
  switch (r.below (5)) {
    case 0: x = digits (r, nx); y = digits (r, ny); break;
    case 1: x = hard_digits (r, nx); { static const int q[] = {1, 2, 4, 5, 8, 10, 25, 1000}; y = q[r.below (8)]; } break;
    case 2: x = kept > 0 && kept < nx ? digits (r, kept) * pow10u (nx - kept) + (r.p (50) ? 0 : 5 * pow10u (nx - kept - 1)) : digits (r, nx); y = pow10u (ny - 1); break;
    case 3: x = pow10u (nx) - 1 - r.below (3); y = r.p (50) ? pow10u (ny) - 1 : pow10u (ny - 1) + r.below (2); break;
    default: { int h = r.range (1, nx); x = digits (r, h) * pow10u (nx - h); h = r.range (1, ny); y = digits (r, h) * pow10u (ny - h); }
  }
  nx = ndig (x); ny = ndig (y);
  int top = r.p (70) ? f.emin + kept - 1 : f.emax + f.p - 1 + r.range (-2, 2);        // where the leading digit is to be
  int s = div ? top - (nx - ny) + r.range (0, 1) : top - (nx + ny - 1) + r.range (-1, 0);   // x.e - y.e, or x.e + y.e
  int lo = div ? s + f.emin : s - f.emax, hi = div ? s + f.emax : s - f.emin;
  if (lo < f.emin) lo = f.emin;
  if (hi > f.emax) hi = f.emax;
  if (lo > hi) lo = hi;
  int e = r.range (lo, hi);
  put (a, w, r.p (50), x, e); put (b, w, r.p (50), y, div ? e - s : s - e);
}
static void related (Rng &r, int w, const unsigned char *x, unsigned char *y) {
  const Fmt &f = fmt_of (w);
  Dec d = dec_decode (w, x);
  memcpy (y, x, 16);
  if (d.cls) { if (r.p (50)) gen_dec (r, w, y, 0); return; }
  switch (r.below (6)) {
    case 0: return;
    case 1: d.sign ^= 1; break;
    case 2: if (d.c + 1 < pow10u (f.p)) d.c++; break;
    case 3: if (d.c > 0) d.c--; break;
    case 4: if (d.c % 10 == 0 && d.e < f.emax) { d.c /= 10; d.e++; } else if (d.c * 10 < pow10u (f.p) && d.e > f.emin) { d.c *= 10; d.e--; } break;
    case 5: d.e += r.range (-f.p, f.p); if (d.e < f.emin) d.e = f.emin; if (d.e > f.emax) d.e = f.emax; d.c = digits (r, r.range (1, f.p)); break;
  }
  dec_encode (w, d, y);
}

// Texts whose value lies near an end of the range, or whose digits do.
static std::string long_number (Rng &r, int w, const char *dec) {
  const Fmt &f = fmt_of (w);
  int top = f.emax + f.p, bot = -f.emin;               // digits of the largest value; places of the smallest
  std::string s, t; char b[16];
  if (r.p (30)) s += "-";
  auto run = [&] (int n) {
    std::string q; int k = (int) r.below (4);
    for (int i = 0; i < n; i++) q += k == 0 ? '9' : k == 1 && i ? '0' : (char) ('0' + (i ? r.below (10) : 1 + r.below (9)));
    return q;
  };
  int n = r.range (1, f.p + 3);
  switch (r.below (w == 128 ? 8 : 5) + (w == 128 && r.p (70) ? 5 : 0)) {
    case 0: t = run (top + r.range (-3, 4)); if (r.p (30)) t += dec + run (r.range (1, 3)); break;     // overflow without an exponent
    case 1: t = std::string ("0") + dec + std::string (bot + r.range (-f.p - 2, 3), '0') + run (r.range (1, 4)); break;
    case 2: t = run (r.range (40, 400)); snprintf (b, sizeof b, "e-%d", r.range (0, 420)); t += b; break;
    case 3: t = "0." + std::string (r.range (20, 300), '0') + run (n); snprintf (b, sizeof b, "e%d", r.range (0, 420)); t += b; break;
    case 4: t = std::string (r.range (20, 400), '0') + run (n); break;
    default:                                           // the same with exponents
      t = run (n); if (r.p (50) && n > 1) t.insert (1 + r.below (n - 1), dec);
      { size_t p = t.find (dec); int ni = p == std::string::npos ? n : (int) p;
        snprintf (b, sizeof b, "e%d", r.p (50) ? top - ni + r.range (-2, 2) : -bot + r.range (-n - 2, n + 2)); t += b; }
  }
  return s + t;
}
// texts whose rounding decides: ties, long tails, the ends of the range
static std::string hard_number (Rng &r, int w, const char *dec) {
  const Fmt &f = fmt_of (w);
  std::string s, d; char b[24];
  int n = r.p (60) ? f.p : r.range (1, f.p + 3), k = (int) r.below (4);
  for (int i = 0; i < n; i++) d += k == 0 ? '9' : k == 1 && i ? '0' : (char) ('0' + (i ? r.below (10) : 1 + r.below (9)));
  if (r.p (70)) {
    static const char *const tail[] = {"5", "50", "49", "51", "499999999", "500000001", "9", "1", "0", "00000"};
    d += tail[r.below (10)];
    if (r.p (10)) d += std::string (r.range (10, 60), '0') + (r.p (50) ? "1" : "");
  }
  if (r.p (25)) s += "-";
  if (r.p (5)) s += std::string (r.range (1, 12), '0');
  // the exponent of the first digit
  int e = r.p (25) ? r.range (-12, 12) : r.p (45) ? f.emax + f.p - 1 + r.range (-3, 3) : r.p (50) ? f.emin + f.p - 1 + r.range (-2, 2) : f.emin + r.range (-2, f.p);
  int pt = r.p (40) ? 1 : r.range (0, (int) d.size ());
  s += d.substr (0, pt);
  if (pt < (int) d.size () || r.p (20)) { if (!pt && r.p (50)) s += "0"; s += dec + d.substr (pt); }
  snprintf (b, sizeof b, "e%d", e - (pt - 1));
  return s + b;
}

std::string gen_number (Rng &r, int w, const char *dec, int plong) {
  const Fmt &f = fmt_of (w);
  std::string s;
  if (r.p (plong)) return long_number (r, w, dec);
  int k = (int) r.below (100);
  if (r.p (15)) s += r.p (50) ? " " : "\t ";
  if (r.p (30)) s += r.p (70) ? "-" : "+";
  if (k < 5) { static const char *const t[] = {"inf", "INFINITY", "nan", "NaN(12)", "infx", "nan(", "in", "n"}; return s + t[r.below (8)]; }
  if (k < 12) { static const char *const t[] = {"", "x", "+", "-", "e5", ".", ".e1", "--1", "0x12", "hello", "\x01"}; return s + t[r.below (11)]; }
  int ni = r.p (20) ? 0 : r.range (1, r.p (15) ? f.p + 12 : f.p > 10 ? 12 : f.p), nf = r.p (30) ? 0 : r.range (0, r.p (15) ? f.p + 8 : 6);
  if (!ni && !nf) ni = 1;
  if (r.p (10)) s += std::string (r.below (40), '0');
  for (int i = 0; i < ni; i++) s += (char) ('0' + r.below (10));
  if (nf || r.p (10)) s += dec;
  for (int i = 0; i < nf; i++) s += (char) ('0' + r.below (10));
  if (r.p (45)) {
    s += r.p (70) ? 'e' : 'E';
    int m = r.p (70) ? 9 : f.emax + 60;
    int e = r.range (-m, m);
    char b[16]; snprintf (b, sizeof b, r.p (30) ? "%+d" : "%d", e);
    s += b;
    if (r.p (4)) s += "99999999";
  }
  if (r.p (25)) { static const char *const t[] = {" ", "x", ".", ",", "e", "e+", " 5", "f", "\n"}; s += t[r.below (9)]; }
  return s;
}

void gen_print (Rng &r, Args &a, const std::string &prop) {
  static const char sp[] = "aAeEfFgG";
  a.spec = sp[r.below (8)];
  a.prec = r.p (35) ? -1 : r.range (0, 12);
  if (r.p (5)) a.prec = r.range (13, 60);
  if (r.p (3)) a.prec = r.range (100, 300);
  a.width = r.p (60) ? 0 : r.range (1, 48);
  a.pflags = r.p (50) ? 0 : (int) r.below (64);
  if (r.p (2)) a.width = r.range (100, 5000);       // longer than any internal buffer
  if (r.p (1)) a.prec = r.range (300, 5500);
  if (prop == "C01") { a.width = 0; a.pflags = 0; if (r.p (70)) a.spec = "eEfF"[r.below (4)]; a.prec = r.range (0, r.p (80) ? 10 : 36); }
  if (prop == "C10" && r.p (40)) { a.width = 0; a.pflags &= ~32; }
}

// Operands of fma, fdim and sqrt whose exact result is hard to round.
static void hard_math (Rng &r, const OpDef *o, Args &a) {
  const Fmt &f = fmt_of (o->w);
  int w = o->w;
  if (!strncmp (o->sym, "sqrt", 4)) {                  // squares of short numbers, and their neighbours
    int h = (f.p + 1) / 2, n = r.range (1, h); u128 c = r.p (30) ? pow10u (n) - 1 - r.below (3) : r.p (30) ? pow10u (n - 1) + r.below (3) : digits (r, n);
    u128 q = c * c; int e = 2 * r.range (-f.p, 4);
    if (r.p (70)) { int k = r.range (0, f.p - ndig (q) < 0 ? 0 : f.p - ndig (q)); q *= pow10u (k); e -= k; q += r.range (-2, 2); }
    if (q >= pow10u (f.p)) q = pow10u (f.p) - 1;
    if (r.p (10)) e = r.range (f.emin, f.emax);
    put (a.a[0], w, 0, q, e); return;
  }
  if (o->kind != K_D_DDD) {                            // a difference: far apart, touching, or at a tie
    int n = r.range (1, f.p), e = r.p (80) ? r.range (-f.p, 4) : r.range (f.emin, f.emax), m = r.p (50) ? f.p : r.range (1, f.p);
    put (a.a[0], w, 0, r.p (60) ? hard_digits (r, f.p) : digits (r, n), e);
    put (a.a[1], w, r.p (60), r.p (40) ? pow10u (m - 1) * (r.p (50) ? 5 : 1) : hard_digits (r, m), e - r.range (0, f.p + 3)); return;
  }
  int k = (int) r.below (5);
  if (k == 4) { placed_pair (r, w, false, a.a[0], a.a[1]); put (a.a[2], w, r.p (50), r.p (50) ? 0 : digits (r, r.range (1, f.p)), f.emin + r.range (0, 3)); return; }
  int nx = r.p (60) ? f.p : r.range (1, f.p), ny = r.p (40) ? f.p : r.range (1, f.p), ex = r.range (-f.p, 3), ey = r.range (-f.p, 3), sx = r.p (50), sy = r.p (50);
  u128 x = digits (r, nx), y = r.p (30) ? pow10u (ny - 1) : digits (r, ny);
  put (a.a[0], w, sx, x, ex); put (a.a[1], w, sy, y, ey);
  int top = ex + ey + ndig (x) + ndig (y) - 1;         // exponent of the digit before the product's first, or of that
  if (k <= 1) {                                        // an addend that cancels the product's leading digits
    u128 z; int ez;
    if (w < 128) { u128 pr = x * y; int np = ndig (pr), d = np > f.p ? np - f.p : 0; z = pr / pow10u (d); ez = ex + ey + d; z += r.range (-1, 1); }
    else { u128 h = x, g = y; int eh = ex, eg = ey; while (h >= pow10u (17)) { h /= 10; eh++; } while (g >= pow10u (17)) { g /= 10; eg++; } z = h * g; ez = eh + eg; }
    put (a.a[2], w, !(sx ^ sy) ^ r.p (10), z, ez);
  } else                                               // one far below or above, or at a tie of the other
    put (a.a[2], w, r.p (50), r.p (40) ? pow10u (r.range (0, f.p - 1)) * (r.p (50) ? 5 : 1) : hard_digits (r, r.range (1, f.p)), top + r.range (-3 * f.p, f.p));
}

Inst *gen_inst (int op, Rng &r, const std::string &prop) {
  Inst *in = new Inst;
  in->op = op;
  Args &a = in->args;
  memset (&a, 0, sizeof a);
  a.failat = -1; a.failcnt = -1; a.prec = -1;
  const OpDef *o = &op_table[op];
  int bias = (o->groups & G_MATH) && r.p (70) ? 1 : (o->groups & G_ARITH) && r.p (55) ? 1 : 0;
  if (prop == "C01" && r.p (60)) bias = r.p (40) ? 2 : 1;
  if ((prop == "C01" || prop == "C04") && o->kind == K_CVT && o->w2 < o->w) bias = r.p (60) ? 2 : 1;
  if ((o->kind == K_D_DpI || o->kind == K_D_DpD) ? r.p (40) : (o->groups & G_MATH) && r.p (6)) bias = 3;
  auto str = [&] (const std::string &s) { a.slen = (int) s.size () > STRMAX - 2 ? STRMAX - 2 : (int) s.size (); memcpy (a.str, s.data (), a.slen); };
  switch (o->kind) {
    case K_SI2D: case K_DI2D: case K_TI2D: {
      long v[2] = {(long) r.next (), r.p (70) ? 0 : (long) r.next ()};
      if (r.p (40)) v[0] >>= r.below (63);
      if (r.p (5)) v[0] = r.p (50) ? LONG_MIN : LONG_MAX;
      if (v[0] < 0 && r.p (50)) v[1] = -1;
      if (r.p (30)) {
        u128 h = hard_digits (r, o->kind == K_TI2D ? r.range (20, 38) : r.range (8, 18));
        if (r.p (40)) h = -h;
        memcpy (v, &h, 16);
      }
      memcpy (a.a[0], v, 16); break; }
    case K_SF2D: { float f = (float) ((double) (long) r.next () / (double) (1ll << r.range (0, 62))); if (r.p (20)) { uint32_t u = (uint32_t) r.next (); memcpy (&f, &u, 4); } memcpy (a.a[0], &f, 4); goto dyadic; }
    case K_DF2D: { double f = (double) (long) r.next () / (double) (1ll << r.range (0, 62)); if (r.p (20)) { uint64_t u = r.next (); memcpy (&f, &u, 8); } memcpy (a.a[0], &f, 8); goto dyadic; }
    case K_XF2D: { long double f = (long double) (long) r.next () / (long double) (1ll << r.range (0, 62)); if (r.p (4)) f = ldexpl (f, r.range (-16500, 16383)); memcpy (a.a[0], &f, 10); goto dyadic; }
    case K_TF2D: { __float128 f = (__float128) (long) r.next () / (__float128) (1ll << r.range (0, 62)); if (r.p (4)) f *= ldexpl (1, r.range (-16400, 16383)); memcpy (a.a[0], &f, 16); goto dyadic; }
    dyadic:
      if (r.p (35)) {                                  // binary numbers whose decimal digits end in a tie, or that are whole
        u128 h = hard_digits (r, r.range (6, o->kind == K_SF2D ? 8 : o->kind == K_DF2D ? 16 : 19)); int k = r.p (40) ? 0 : r.range (0, 12), sg = r.p (50) ? -1 : 1;
        long double v = sg * (long double) h / (1 << k);
        if (o->kind == K_SF2D) { float q = (float) v; memcpy (a.a[0], &q, 4); }
        else if (o->kind == K_DF2D) { double q = (double) v; memcpy (a.a[0], &q, 8); }
        else if (o->kind == K_XF2D) memcpy (a.a[0], &v, 10);
        else { __float128 q = v; memcpy (a.a[0], &q, 16); }
      }
      break;
    case K_STRTOD: case K_WCSTOD: str (r.p (prop == "C01" || prop == "C04" ? 60 : prop == "C05" ? 30 : 8) ? hard_number (r, o->w, ".") : gen_number (r, o->w, ".", prop == "C05" ? 20 : 6)); a.i = r.p (15); break;
    case K_D_S: { static const char *const t[] = {"", "1", "123", "x", "0x7", "abc_1"}; str (t[r.below (6)]); break; }
    case K_SETROUND: { static const long long v[] = {0, 1, 2, 3, 4, 0, 1, 2, 3, 4, -1, 5, 6, 7, 8, 100, INT_MIN, INT_MAX, 256, 257, -2, 1024}; a.i = v[r.below (22)]; break; }
    case K_FOREIGN: a.i = r.range (0, 11); break;
    case K_CXX_IN: {
      std::string s; a.nops = r.range (1, 4);
      static const char *const sep[] = {" ", "\n", "  ", "\t", " \n "};
      if (r.p (15)) s += sep[r.below (5)];
      for (int i = 0, n = r.range (0, 4); i < n; i++) {
        std::string t = gen_number (r, o->w, ".", 2);
        size_t p = t.find_first_not_of (" \t\n"); if (p != std::string::npos) t = t.substr (p);
        if (r.p (8)) { t = ""; for (int k = r.range (100, 160); k > 0; k--) t += (char) ('0' + r.below (10)); }
        s += t;
        if (i + 1 < n || r.p (40)) s += sep[r.below (5)];
      }
      str (s);
      a.chunk = r.p (40) ? 0 : r.range (1, 5);
      if (prop != "C08" && r.p (40)) a.failat = (int) r.below (a.slen + 2);
      a.err = r.p (40); a.mask = r.p (60) ? 0 : (int) r.below (8); a.i = r.p (40);
      break; }
    case K_CXX_OUT:
      a.nops = r.range (1, 3);
      for (int k = 0; k < 3; k++) gen_dec (r, o->w, a.a[k], 0);
      a.prec = r.p (70) ? r.range (0, 12) : r.p (90) ? r.range (0, 40) : r.range (41, 6000);
      a.width = r.p (60) ? 0 : r.p (92) ? r.range (1, 80) : r.range (81, 2000); a.pflags = (int) r.below (64);
      if (prop != "C08" && r.p (50)) { a.failat = r.range (0, 60); a.failcnt = r.p (70) ? -1 : r.range (1, 2); }
      a.err = r.p (40); a.mask = r.p (60) ? 0 : (int) r.below (8); a.i = r.p (40);
      break;
    case K_STRFROM: {
      gen_dec (r, o->w, a.a[0], bias);
      gen_print (r, a, prop);
      char b[32];
      if (a.prec < 0) snprintf (b, sizeof b, "%%%c", a.spec); else snprintf (b, sizeof b, "%%.%d%c", a.prec, a.spec);
      str (b); a.prec = -1; a.width = a.pflags = 0; a.i = TEXTMAX - 10;
      break; }
    case K_SNPRINTF: case K_SWPRINTF: case K_PRINTF_DFP: case K_FPRINTF:
      gen_dec (r, o->w, a.a[0], bias);
      gen_print (r, a, prop);
      if (o->groups & G_MIX) {
        // short enough for the text of all conversions to fit the model's
        gen_dec (r, o->w2, a.a[1], bias);
        a.width = 0; a.pflags &= ~16;
        if (a.spec == 'f' || a.spec == 'F') a.spec = 'e';
        if (a.prec > 60) a.prec = 60;
      }
      a.i = TEXTMAX - 10;
      a.bufmode = r.p (40) ? 0 : r.p (30) ? 1 : r.range (2, 40);
      break;
    default:
      gen_dec (r, o->w, a.a[0], bias);
      if (o->kind == K_D_DT) gen_dec (r, 128, a.a[1], bias);
      else if (r.p (30)) related (r, o->w, a.a[0], a.a[1]); else gen_dec (r, o->w, a.a[1], bias);
      gen_dec (r, o->w, a.a[2], bias);
      if (o->kind == K_CVT && o->w2 < o->w && r.p (30)) {          // near the ends of the narrower range
        const Fmt &g = fmt_of (o->w2);
        Dec d = dec_decode (o->w, a.a[0]);
        if (!d.cls && d.c) {
          int nd = 0; for (u128 c = d.c; c; c /= 10) nd++;
          int top = r.p (50) ? g.emax + g.p : g.emin + (int) r.below (g.p + 2);
          if (r.p (25)) { nd = r.range (g.p + 1, fmt_of (o->w).p); d.c = pow10u (nd) - 1 - r.below (6); top = g.emin + g.p - 1; }
          d.e = top - nd + r.range (-1, 1); put (a.a[0], o->w, d.sign, d.c, d.e);
        }
      }
      if ((o->groups & G_ARITH) && r.p (prop == "C01" || prop == "C04" ? 35 : 10)) {
        // exponents that bring the result to a tie, or to an end of the range
        const Fmt &f = fmt_of (o->w);
        Dec x = dec_decode (o->w, a.a[0]);
        if (!x.cls && r.p (35) && (strstr (o->sym, "_mul") || strstr (o->sym, "_div"))) placed_pair (r, o->w, strstr (o->sym, "_div") != 0, a.a[0], a.a[1]);
        else if (!x.cls) switch (r.below (5)) {
          case 4: {                                    // just below the smallest normal number
            u128 n = pow10u (f.p) - 1 - (r.p (50) ? 0 : r.below (4)); int k = r.range (1, 3), e = f.emin - 1;
            if (strstr (o->sym, "_mul") && r.p (40)) { // a product of nines that may round up to it
              int h = r.range (f.p / 2 + 1, f.p - 1), e1 = r.range (-h, h);
              put (a.a[0], o->w, r.p (50), pow10u (h) - 1, e1); put (a.a[1], o->w, r.p (50), pow10u (h) + 1, f.emin + f.p - 1 - 2 * h - e1);
              break; }
            if (strstr (o->sym, "_mul")) { put (a.a[0], o->w, r.p (50), n, -r.range (0, 3 * f.p)); x = dec_decode (o->w, a.a[0]);
              u128 m = r.p (60) ? pow10u (k) + (r.p (50) ? 0 : 1) : pow10u (f.p - 1) + r.below (3); put (a.a[1], o->w, r.p (50), m, e - x.e - ndig (m) + 1); }
            else if (strstr (o->sym, "_div")) { put (a.a[0], o->w, r.p (50), n, f.emin + r.range (0, 3 * f.p)); x = dec_decode (o->w, a.a[0]);
              u128 m = r.p (60) ? pow10u (k) : r.p (50) ? pow10u (f.p - 1) + r.below (3) : n - r.below (4); put (a.a[1], o->w, r.p (50), m, x.e - e - ndig (m) + 1 + (m > n / 2 ? 1 : 0)); }
            else put (a.a[1], o->w, r.p (50), n, x.e - r.range (0, f.p));
            break; }
          case 0: put (a.a[1], o->w, r.p (50), r.p (50) ? 5 : hard_digits (r, r.range (2, f.p)), x.e - r.range (0, f.p + 3)); break;
          case 1: { static const int q[] = {2, 4, 5, 8, 16, 25, 3, 11}; put (a.a[1], o->w, r.p (50), q[r.below (8)], r.range (-3, 3)); break; }
          case 2: put (a.a[1], o->w, r.p (50), hard_digits (r, r.range (2, f.p)), (r.p (50) ? f.emin : f.emax) - x.e - r.range (0, f.p)); break;
          default: put (a.a[1], o->w, r.p (50), hard_digits (r, r.range (2, f.p)), x.e - (r.p (50) ? f.emin : f.emax) - r.range (-f.p, f.p));
        }
      }
      if (o->groups & G_MATH) {
        const Fmt &f = fmt_of (o->w);
        if (o->kind == K_D_D && r.p (prop == "C04" || prop == "C05" ? 20 : 6)) {       // poles and ends of domains
          switch (r.below (5)) {
            case 0: put (a.a[0], o->w, r.p (50), 1, 0); break;
            case 1: put (a.a[0], o->w, r.p (50), pow10u (f.p - 1) + r.range (-1, 1), 1 - f.p); break;
            case 2: put (a.a[0], o->w, 1, r.below (200), 0); break;
            case 3: put (a.a[0], o->w, r.p (50), digits (r, r.range (2, 5)), 0); break;
            default: put (a.a[0], o->w, r.p (50), digits (r, r.range (1, f.p)), 1 + (int) r.below (f.p)); break;
          }
        }
        if ((o->kind == K_D_DDD || !strncmp (o->sym, "fdim", 4) || !strncmp (o->sym, "sqrt", 4)) && r.p (prop == "C01" ? 65 : 15)) hard_math (r, o, a);
        if (!strncmp (o->sym, "quantize", 8) && r.p (80)) {
          put (a.a[0], o->w, r.p (40), digits (r, r.range (1, f.p)), r.range (-f.p, 3));
          Dec x = dec_decode (o->w, a.a[0]); put (a.a[1], o->w, 0, 1, x.e + r.range (0, f.p));
        }
        if ((!strncmp (o->sym, "rint", 4) || !strncmp (o->sym, "nearby", 6) || !strncmp (o->sym, "l", 1)) && r.p (70)) {
          int n = r.range (1, f.p > 16 ? 16 : f.p); put (a.a[0], o->w, r.p (40), digits (r, n), -(int) r.below (n + 2));
        }
      }
      a.i = r.p (70) ? r.range (-12, 12) : r.p (60) ? r.range (-7000, 7000) : r.p (50) ? INT_MAX : INT_MIN;
      if (o->kind == K_D_DI || o->kind == K_D_DL) {
        const Fmt &f = fmt_of (o->w); Dec x = dec_decode (o->w, a.a[0]);
        if (!x.cls && r.p (30)) a.i = (r.p (50) ? f.emin : f.emax) - x.e + r.range (-f.p - 3, f.p + 3);
        else if (r.p (10)) a.i = (r.p (50) ? 1 : -1) * (2 * (f.emax + 2 * f.p) + r.range (-4, 4));
      }
      if (o->kind == K_D_DL && r.p (10)) a.i = r.p (50) ? LONG_MAX : LONG_MIN;
  }
  return in;
}

// Make IN a near relative of FROM: what a cache with a careless key would take for the same call.
static void relate (Inst *in, const Inst *from, Rng &r) {
  const OpDef *o = &op_table[in->op]; Args &a = in->args;
  if (o->kind == K_CXX_IN || o->kind == K_CXX_OUT || o->kind == K_FOREIGN || o->kind == K_REGISTER || o->kind == K_SETROUND) return;
  Args own = a; a = from->args;
  if (o->kind == K_STRTOD || o->kind == K_WCSTOD) {    // the same length, or a common head
    if (!a.slen) return;
    int i = (int) r.below (a.slen);
    for (int z = 0; z < 30 && !(a.str[i] >= '0' && a.str[i] <= '9'); z++) i = (int) r.below (a.slen);
    if (r.p (60)) { if (a.str[i] >= '0' && a.str[i] <= '9') a.str[i] = (char) ('0' + r.below (10)); }
    else if (r.p (50)) { a.slen = i; memset (a.str + i, 0, STRMAX - i); }
    else a.i ^= 1;
    return;
  }
  if (o->kind >= K_SI2D && o->kind <= K_TF2D) { a.a[0][r.below (o->kind == K_SI2D || o->kind == K_SF2D ? 4 : 8)] ^= 1 << r.below (8); return; }
  if (op_is_print (o) && r.p (40)) {                   // another format for the same value, or another value
    memcpy (own.a[0], a.a[0], 16); a = own; return;
  }
  if (r.p (20)) { a.i = own.i; if (o->kind == K_D_DI || o->kind == K_D_DL) return; }
  int n = o->kind == K_D_DD || o->kind == K_I_DD || o->kind == K_D_DT ? 2 : o->kind == K_D_DDD ? 3 : 1, w = o->w;
  int i = (int) r.below (n); if (o->kind == K_D_DT && i == 1) w = 128;
  Dec d = dec_decode (w, a.a[i]); const Fmt &f = fmt_of (w);
  unsigned char y[16]; memset (y, 0, sizeof y);
  switch (r.below (6)) {
    case 0: case 1: case 2:                            // the same value, another quantum
      if (d.cls) { related (r, w, a.a[i], y); break; }
      if (!d.c) { d.e = r.p (50) ? r.range (-6, 6) : r.range (f.emin, f.emax); if (r.p (30)) d.sign ^= 1; }
      else for (int k = r.range (1, 8); k > 0; k--) {
        if (d.c % 10 == 0 && d.e < f.emax && r.p (80)) { d.c /= 10; d.e++; }
        else if (d.c * 10 < pow10u (f.p) && d.e > f.emin) { d.c *= 10; d.e--; }
      }
      dec_encode (w, d, y); break;
    case 3: d.sign ^= 1; dec_encode (w, d, y); if (d.cls) { memcpy (y, a.a[i], 16); y[w / 8 - 1] ^= 0x80; } break;
    case 4: memcpy (y, own.a[i], 16); break;
    default: related (r, w, a.a[i], y);
  }
  memcpy (a.a[i], y, 16);
  if (n > 1 && r.p (15)) { unsigned char z[16]; memcpy (z, a.a[0], 16); if (o->kind != K_D_DT) { memcpy (a.a[0], a.a[1], 16); memcpy (a.a[1], z, 16); } }
}

// Device faults for stream output, aimed inside the text.
void gen_device (Inst *in, Rng &r) {
  const OpDef *o = &op_table[in->op]; Args &a = in->args;
  if (!(o->groups & G_STREAM)) return;
  Ref *ref = get_ref (in, 0, 0);
  int len = ref->res.tlen;
  a.failat = (int) r.below (len + 2);
  if (r.p (15)) a.failat = 0;
  if (r.p (15) && len) a.failat = len - 1;
  a.failcnt = o->kind == K_FPRINTF || o->groups & G_WIDE || r.p (60) ? -1 : r.range (1, 2);
  a.chunk = o->kind == K_PRINTF_DFP && !(o->groups & G_WIDE) && r.p (15) ? r.range (1, 7) : 0;
  static const int es[] = {EIO, ENOSPC, EINTR, EAGAIN, EPIPE, EBADF};
  a.err = es[r.below (6)];
}

// ---------------------------------------------------------------- pools
static bool wanted (const OpDef *o, const std::string &p, Rng &r) {
  int g = o->groups, k = o->kind;
  bool ctl = k == K_SETROUND || k == K_REGISTER || k == K_FOREIGN, cxx = k == K_CXX_IN || k == K_CXX_OUT;
  if (p == "C07") return cxx;
  if (p == "C01") return (g & (G_ROUND | G_PARSE)) || k == K_SETROUND || ((g & G_PRINT) && op_is_print (o));
  if (p == "C06") return g & G_STREAM;
  if (p == "C13") return k == K_STRFROM;
  if (p == "C10") return (g & G_PARSE) || (op_is_print (o));
  if (p == "C12") return op_is_print (o) || k == K_REGISTER || k == K_FOREIGN;
  if (cxx) return p == "C08" || p == "C09";
  if (ctl) return false;
  if (p == "C04") return !(g & G_CMP) || r.p (20);
  return true;
}

static int family_pick (const std::string &p, Rng &r, const std::vector<int> &c) {
  // weight by family so that the many comparison/conversion symbols do not crowd out the rest
  for (int tries = 0; tries < 20; tries++) {
    int op = c[r.below (c.size ())]; const OpDef *o = &op_table[op];
    int keep = 100;
    if (o->groups & G_CMP) keep = 25;
    if (o->groups & G_CONV) keep = 35;
    if (p == "C08" || p == "C09") { if (!(o->groups & (G_PARSE | G_PRINT | G_MATH | G_CXX))) keep = 5; }
    if (p == "C05" && (o->groups & (G_CMP | G_CONV))) keep = 15;
    if (p == "C02" && (o->groups & (G_CMP | G_CONV))) keep = 15;
    if (r.p (keep)) return op;
  }
  return c[r.below (c.size ())];
}

static std::vector<int> boosted (const std::string &p, const std::vector<int> &c) {
  // operations that carry most of a property's risk
  std::vector<int> v;
  for (int op : c) {
    const OpDef *o = &op_table[op]; int k = o->kind;
    bool b = false;
    if (p == "C01") b = (o->groups & G_ARITH) || k == K_SETROUND;
    else if (p == "C02" || p == "C11") b = !strncmp (o->sym, "exp", 3) || !strncmp (o->sym, "next", 4) || (o->groups & G_ROUND);
    else if (p == "C03" || p == "C14") b = (o->groups & (G_PARSE | G_PRINT));
    else if (p == "C04") b = o->groups & G_ARITH;
    else if (p == "C05") b = o->groups & (G_PARSE | G_MATH);
    else if (p == "C08" || p == "C09") b = k == K_STRFROM || (o->groups & G_PARSE);
    else if (p == "C12") b = k == K_REGISTER || k == K_FOREIGN || k == K_STRFROM;
    if (b) v.push_back (op);
  }
  return v;
}

Pool make_pool (const std::string &p, Rng &r) {
  Pool pool;
  std::vector<int> c;
  for (int i = 0; i < op_count; i++) if (wanted (&op_table[i], p, r)) c.push_back (i);
  std::vector<int> bo = boosted (p, c), sf;
  for (int i : stateful_ops) if (wanted (&op_table[i], p, r)) sf.push_back (i);
  int nops = r.range (8, 14), per = r.range (6, 12);
  if (p == "C12") nops = 10;
  for (int i = 0; i < nops; i++) {
    int op = !sf.empty () && r.p (p == "C14" || p == "C03" || p == "C11" ? 40 : 15) ? sf[r.below (sf.size ())] : !bo.empty () && r.p (45) ? bo[r.below (bo.size ())] : family_pick (p, r, c);
    std::vector<Inst *> v;
    const OpDef *o = &op_table[op];
    for (int k = 0; k < per; k++) {
      Inst *in = gen_inst (op, r, p);
      if (k && r.p (p == "C14" || p == "C03" || p == "C11" ? 25 : 8)) relate (in, v[r.below (k)], r);
      // allocation faults need calls that allocate
      if ((p == "C08" || p == "C09") && (o->groups & G_MATH)) {
        int tries = 0;
        while (!get_ref (in, 0, 0)->nalloc && tries++ < 2) { delete in; in = gen_inst (op, r, p); }
      }
      v.push_back (in);
    }
    pool.fam.push_back (v);
  }
  if (p != "C06" && p != "C07" && p != "C12")
    for (size_t f = 0; f < pool.fam.size (); f++)
      for (size_t i = 0; i < pool.fam[f].size (); i++) {
        Inst *in = pool.fam[f][i]; int k = op_table[in->op].kind;
        if (k == K_SETROUND || k == K_REGISTER || k == K_FOREIGN) continue;
        get_ref (in, 0, 0);
        if (!leaves_state (in)) continue;
        pool.hot.push_back ({(int) f, (int) i});
        if (std::find (stateful_ops.begin (), stateful_ops.end (), in->op) == stateful_ops.end ()) stateful_ops.push_back (in->op);
      }
  return pool;
}
void free_pool (Pool &p) {
  for (auto &f : p.fam) for (auto *i : f) { for (auto &k : i->refs) free (k.second); delete i; }
  p.fam.clear ();
}

// ---------------------------------------------------------------- plans
struct Knobs {
  int tmin = 1, tmax = 1, smin = 1, smax = 3, psw = 0, maxsw = 2, pstall = 0, pnest = 0, palloc = 0, plocfail = 0,
      pmode = 30, pflags = 0, perrno = 0, ploc = 0, pgset = 0, pgloc = 0, rep = 1, pfill = 0, pdev = 0, psame = 60, pbin = 0;
};
static Knobs knobs (const std::string &p, Rng &r) {
  Knobs k;
  bool faults = r.p (50);                  // fault-free and fault-injecting runs are kept apart
  if (p == "C01") { k.tmin = 1; k.tmax = 3; k.smin = 2; k.smax = 6; k.psw = 45; k.pmode = 55; k.pstall = 2; }
  else if (p == "C02") { k.tmax = 2; k.smax = 4; k.psw = 20; k.pmode = 75; k.pbin = r.p (50) ? 50 : 0; if (faults) { k.palloc = 40; k.pdev = 60; k.pgloc = 40; k.plocfail = 15; } }
  else if (p == "C03") { k.tmin = 2; k.tmax = 3; k.smax = 3; k.psw = 80; k.maxsw = 3; k.pmode = 35; k.pstall = faults ? 12 : 0; k.psame = 70; }
  else if (p == "C04") { k.tmax = 2; k.smin = 1; k.smax = 4; k.psw = 25; k.pmode = 40; k.pflags = 70; }
  else if (p == "C05") { k.tmax = 2; k.smin = 1; k.smax = 4; k.psw = 25; k.perrno = 75; k.pnest = faults ? 20 : 0; k.pmode = 20; }
  else if (p == "C06") { k.smax = 3; k.pdev = faults ? 85 : 0; k.pmode = 30; k.tmax = faults ? 1 : 2; k.psw = 20; }
  else if (p == "C07") { k.smax = 2; k.tmax = r.p (20) ? 2 : 1; k.psw = 40; k.pmode = 20; }
  else if (p == "C08") { k.smin = 1; k.smax = 4; k.palloc = faults || r.p (60) ? 70 : 0; k.plocfail = 15; k.pgloc = 60; k.ploc = 20; k.pmode = 30; k.pflags = 40; k.pfill = 50; }
  else if (p == "C09") { k.smin = 1; k.smax = 2; k.rep = r.range (4, 6); k.palloc = faults ? 50 : 0; k.plocfail = faults ? 10 : 0; k.pgloc = 70; k.ploc = 30; k.tmax = r.p (20) ? 2 : 1; k.psw = 20; }
  else if (p == "C10") { k.tmax = 3; k.smin = 1; k.smax = 4; k.psw = 50; k.ploc = 65; k.pgloc = 50; k.pmode = 10; k.psame = 80; }
  else if (p == "C11") { k.smin = 1; k.smax = 2; k.pnest = 95; k.pmode = 40; k.tmax = r.p (15) ? 2 : 1; k.psw = 30; }
  else if (p == "C12") { k.tmax = r.p (30) ? 2 : 1; k.smin = 3; k.smax = 14; k.psw = 30; k.palloc = faults ? 40 : 0; k.pmode = 10; k.psame = 10; }
  else if (p == "C13") { k.tmax = r.p (25) ? 2 : 1; k.smin = 1; k.smax = 4; k.psw = 40; k.pfill = 50; k.pmode = 30; k.ploc = faults ? 40 : 0; }
  else if (p == "C14") { k.smin = 4; k.smax = 24; k.palloc = faults ? 25 : 0; k.pgloc = faults ? 30 : 0; k.pdev = 30; k.pflags = 30; k.perrno = 30; k.pfill = 70; k.pmode = 40; k.psame = 30; k.pnest = faults ? 10 : 0; }
  return k;
}

static uint64_t pick_cb (Rng &r, const Ref *ref) {
  if (!ref || !ref->ncb) return 0;
  if (ref->nhot && r.p (50)) {
    int n = ref->nhot < 32 ? ref->nhot : 32;
    uint64_t h = ref->hot[r.below (n)]; long d = r.range (-1, 2);
    return (long) h + d > 0 ? h + d : 1;
  }
  if (r.p (10)) return ref->ncb - (ref->ncb > 3 ? r.below (3) : 0);
  if (r.p (10)) return 1 + r.below (3);
  return 1 + r.below (ref->ncb);
}

Plan *gen_plan (const std::string &prop, Rng &r, Pool &pool) {
  Plan *p = new Plan;
  p->prop = prop;
  Knobs k = knobs (prop, r);
  if (r.p (k.pgloc)) p->gloc = r.range (1, NLOC - 1);
  if (r.p (k.pfill)) { static const int fb[] = {0xFF, 0x01, 0x7F, 0x30, 0xA5, 0x20, 0x31, 0x2D, 0x80}; p->fill = fb[r.below (9)]; }
  bool sweep = prop == "C09" && r.p (15);       // one call each with many operands
  if (sweep) { k.tmax = 1; k.smin = 6; k.smax = 12; k.psame = 100; k.rep = 1; }
  int nt = r.range (k.tmin, k.tmax);
  auto add = [&] (Inst *in) {
    for (size_t i = 0; i < p->insts.size (); i++) if (p->insts[i] == in) return (int) i;
    p->insts.push_back (in); return (int) p->insts.size () - 1;
  };
  auto copy = [&] (const Inst *src) { Inst *in = new Inst; in->op = src->op; in->args = src->args; p->own.push_back (in); return in; };
  size_t fam = r.below (pool.fam.size ());
  for (int t = 0; t < nt; t++) {
    p->thr.emplace_back ();
    int ns = r.range (k.smin, k.smax), mode = 0, loc = -1, gl = p->gloc;
    for (int i = 0; i < ns; i++) {
      Step s;
      if (!r.p (k.psame)) fam = r.below (pool.fam.size ());
      std::pair<int, int> ht = {-1, -1};
      if (!pool.hot.empty () && r.p (40)) { ht = pool.hot[r.below (pool.hot.size ())]; fam = ht.first; }
      auto &fv = pool.fam[fam];
      Inst *in = ht.second >= 0 && r.p (60) ? fv[ht.second] : sweep ? fv[i % fv.size ()] : fv[r.below (fv.size ())];
      // instances that touch writable globals or allocate are the interesting ones
      for (int z = 0; z < 3 && ht.first < 0 && (prop == "C03" || prop == "C14" || prop == "C11"); z++) {
        Ref *rf = get_ref (in, 0, 0);
        if (rf->dirty || rf->nhot > 2) break;
        in = fv[r.below (fv.size ())];
      }
      const OpDef *o = &op_table[in->op];
      if (r.p (k.pmode)) { s.setmode = (int) r.below (5); mode = s.setmode; }
      if (r.p (k.pbin)) s.setbin = (int) r.below (4);
      if (r.p (k.ploc)) { s.setloc = r.range (-1, NLOC - 1); loc = s.setloc; }
      if (nt == 1 && r.p (k.pgset)) { s.setgloc = r.range (0, NLOC - 1); gl = s.setgloc; }
      if (r.p (k.pflags)) { s.setflags = 0; static const int fl[] = {FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT}; for (int f : fl) if (r.p (40)) s.setflags |= f; }
      if (r.p (k.perrno)) { static const int es[] = {0, 1, EDOM, ERANGE, EINTR, ENOMEM, 4242, EINVAL}; s.seterrno = es[r.below (8)]; }
      int l = loc >= 0 ? loc : gl;
      bool ctl = o->kind == K_SETROUND || o->kind == K_REGISTER || o->kind == K_FOREIGN;
      if (o->kind == K_SETROUND && in->args.i >= 0 && in->args.i <= 4) mode = (int) in->args.i;
      if ((o->kind == K_STRTOD || o->kind == K_WCSTOD) && l && r.p (70)) {
        in = copy (in);
        std::string t = from_c_text (std::string (in->args.str, in->args.slen), l);
        if ((int) t.size () < STRMAX - 1) { memset (in->args.str, 0, STRMAX); memcpy (in->args.str, t.data (), t.size ()); in->args.slen = (int) t.size (); }
      }
      if (prop == "C13" || ((prop == "C05" || prop == "C14" || prop == "C09") && o->kind == K_STRFROM && r.p (40))) {
        int full = (int) get_ref (in, mode, 0)->res.tlen;
        in = copy (in);
        static const long long far[] = {INT_MAX - 1ll, INT_MAX, INT_MAX + 1ll, INT_MAX + 6ll, UINT_MAX, UINT_MAX + 1ll, UINT_MAX + 6ll, 1ll << 40};
        switch (r.below (8)) {
          case 7: in->args.i = r.p (50) ? far[r.below (8)] : full + 300; break;
          case 0: in->args.i = 0; break;
          case 1: in->args.i = 1; break;
          case 2: in->args.i = full; break;
          case 3: in->args.i = full + 1; break;
          case 4: in->args.i = full > 1 ? full - 1 : 2; break;
          case 5: in->args.i = full + r.range (2, 40); break;
          default: in->args.i = r.range (0, full + 4);
        }
      }
      if (k.pdev && (o->groups & G_STREAM) && r.p (k.pdev)) { in = copy (in); gen_device (in, r); }
      s.inst = add (in);
      const Ref *ref = ctl ? 0 : get_ref (in, mode, ref_variant (o, &in->args, l));
      if (o->kind == K_REGISTER && r.p (k.palloc)) { s.alloc_first = (int) r.below (6); s.alloc_count = r.p (50) ? 1 : 100; }
      else if (!ctl && r.p (k.palloc)) {
        int na = o->groups & G_CXX ? 12 : ref->nalloc;
        if ((o->groups & G_PARSE) && gl) na += 24;
        if (na) { s.alloc_first = (int) r.below (na); s.alloc_count = r.p (60) ? 1 : r.p (50) ? 2 : 1000; }
      }
      if (!ctl && (o->groups & G_PARSE) && gl && r.p (k.plocfail)) s.locfail = 1;
      s.rep = k.rep;
      if (k.rep > 1 && ref && ref->ncb < 30000 && r.p (12)) s.rep = r.range (24, 64);
      if (sweep) s.rep = 1;
      // a counter or a table filled by earlier calls needs many of them
      if (ht.first >= 0 && ref && r.p (25)) s.rep = ref->ncb < 20000 && r.p (40) ? r.range (20, 260) : r.range (2, 9);
      if (o->kind == K_REGISTER && r.p (10)) s.rep = r.range (5, 120);
      if (nt > 1) {
        if (r.p (15)) s.ev.push_back (Ev {0, EV_SWITCH, (int) r.below (4)});
        if (ref && r.p (k.psw)) {
          int n = r.range (1, k.maxsw);
          for (int z = 0; z < n; z++) s.ev.push_back (Ev {pick_cb (r, ref), EV_SWITCH, (int) r.below (4)});
        }
        if (ref && r.p (k.pstall)) s.ev.push_back (Ev {pick_cb (r, ref), EV_STALL, (int) r.below (4)});
      }
      if (ref && r.p (k.pnest)) {
        int n = r.range (1, 2);
        for (int z = 0; z < n; z++) {
          auto &nv = r.p (50) ? fv : pool.fam[r.below (pool.fam.size ())];
          Inst *ni = nv[r.below (nv.size ())];
          int nk = op_table[ni->op].kind;
          if (nk == K_SETROUND || nk == K_REGISTER || nk == K_FOREIGN) continue;
          if (get_ref (ni, 0, 0)->ncb > 400000) continue;
          int nm = r.p (60) ? (int) r.below (5) : -1;
          s.ev.push_back (Ev {pick_cb (r, ref), EV_NEST, add (ni) | (nm + 1) << 16});
        }
      }
      // events in order of time
      for (size_t x = 1; x < s.ev.size (); x++)
        for (size_t y = x; y > 0 && s.ev[y].cb < s.ev[y - 1].cb; y--) std::swap (s.ev[y], s.ev[y - 1]);
      p->thr.back ().push_back (s);
    }
  }
  return p;
}
