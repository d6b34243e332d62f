// C++ stream operators of <decimal/decimal> on a simulated stream buffer, and
// the small model their outcome is compared with.
#include <float.h>
#include <decimal/decimal>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <streambuf>
#include <cstring>
#include <cstdio>
#include "ops.h"

using namespace std::decimal;
struct device_error {};
// Text beyond this is counted, not kept.
enum { TEXTCAP = TEXTMAX - 128 };

// Input device: hands out at most `chunk` bytes per refill; at `failat` it
// reports EOF (err 0) or throws (err 1).
struct inbuf : std::streambuf {
  const Args *a; int pos = 0; int fired = 0; char hold[STRMAX];
  int end;
  explicit inbuf (const Args *a_) : a (a_) {
    end = a->failat >= 0 && a->failat < a->slen ? a->failat : a->slen;
  }
  int_type underflow () override {
    if (gptr () && gptr () < egptr ()) return traits_type::to_int_type (*gptr ());
    if (pos >= end) {
      if (a->failat >= 0) fired++;
      if (a->failat >= 0 && a->err) throw device_error ();
      return traits_type::eof ();
    }
    int n = end - pos;
    if (a->chunk > 0 && n > a->chunk) n = a->chunk;
    memcpy (hold, a->str + pos, n);
    pos += n;
    setg (hold, hold, hold + n);
    return traits_type::to_int_type (hold[0]);
  }
  int consumed () { return pos - (int) (egptr () - gptr ()); }
};

// Output device: accepts `failat` bytes, then refuses or throws.
struct outbuf : std::streambuf {
  const Args *a; Res *r; int left, total = 0;
  outbuf (const Args *a_, Res *r_) : a (a_), r (r_), left (a_->failcnt) {}
  bool refuse () {
    if (a->failat >= 0 && left != 0 && total >= a->failat) {
      if (left > 0) left--;
      r->refused++; r->fired++;
      return true;
    }
    return false;
  }
  void keep (char c) { if (r->tlen < TEXTCAP) r->text[r->tlen++] = c; total++; }
  int_type overflow (int_type c) override {
    if (traits_type::eq_int_type (c, traits_type::eof ())) return traits_type::not_eof (c);
    if (refuse ()) { if (a->err) throw device_error (); return traits_type::eof (); }
    keep ((char) c);
    return c;
  }
  std::streamsize xsputn (const char *s, std::streamsize n) override {
    std::streamsize k = 0;
    while (k < n) {
      if (refuse ()) { if (a->err) throw device_error (); break; }
      keep (s[k++]);
    }
    return k;
  }
};


struct InRec { int st, thrown, pos, valid; unsigned char val[16]; };
struct OutRec { int st, thrown, mark, flags_ok; };

template<class D> static void run_in (const Args *a, Res *r, int sz) {
  inbuf ib (a);
  std::istream is (&ib);
  is.exceptions ((std::ios_base::iostate) (a->mask & 7));
  InRec rec[8]; int n = 0;
  for (int k = 0; k < a->nops && k < 8; k++) {
    D d; memset ((void *) &d, 0x11, sizeof d);
    int thrown = 0;
    sim_enter ();
    try { is >> d; }
    catch (std::ios_base::failure &) { thrown = 1; }
    catch (device_error &) { thrown = 2; }
    catch (std::bad_alloc &) { thrown = 3; }
    sim_leave ();
    memset (&rec[n], 0, sizeof rec[n]);
    rec[n].st = (int) is.rdstate (); rec[n].thrown = thrown; rec[n].pos = ib.consumed ();
    rec[n].valid = !thrown && !is.fail ();
    if (rec[n].valid) memcpy (rec[n].val, &d, sz);
    n++;
    if (a->i & 1) {                       // recover and go on
      is.exceptions (std::ios_base::goodbit); is.clear ();
      is.exceptions ((std::ios_base::iostate) (a->mask & 7));
    } else if (thrown) break;
  }
  r->fired = ib.fired;
  r->tlen = n * sizeof (InRec);
  memcpy (r->text, rec, r->tlen);
}

// Model of extraction.  A token is a maximal run of non-space characters.
static bool sp (char c) { return c == ' ' || (c >= 9 && c <= 13); }
#include <dlfcn.h>
template<class D, class S> static bool conv (const char *sym, const std::string &t, unsigned char *v, int sz) {
  auto f = (S (*) (const char *, char **)) dlsym (lib_handle, sym);
  char *e = 0;
  sim_enter ();
  S x = f (t.c_str (), &e);
  sim_leave ();
  memcpy (v, &x, sz);
  return e != t.c_str () && *e == 0;
}
template<class D, class S> static void model_in (const char *sym, const Args *a, Res *r, int sz) {
  const int EOFB = std::ios_base::eofbit, FAILB = std::ios_base::failbit, BADB = std::ios_base::badbit;
  int end = a->failat >= 0 && a->failat < a->slen ? a->failat : a->slen;
  bool devthrow = a->failat >= 0 && a->err;
  int p = 0, st = 0, n = 0, mask = a->mask & 7;
  InRec rec[8];
  for (int k = 0; k < a->nops && k < 8; k++) {
    InRec &q = rec[n]; memset (&q, 0, sizeof q);
    int add = 0; bool devexc = false;
    if (st != 0) add = FAILB;
    else {
      while (p < end && sp (a->str[p])) p++;
      if (p >= end) { if (devthrow) { add = BADB | FAILB; devexc = true; } else add = EOFB | FAILB; }
      else {
        std::string t;
        while (p < end && !sp (a->str[p])) t += a->str[p++];
        if (p >= end) { if (devthrow) { add = BADB; devexc = true; } else add = EOFB; }
        if (!(add & BADB)) {
          bool ok = conv<D, S> (sym, t, q.val, sz);
          if (!ok) add |= FAILB; else q.valid = 1;
        }
      }
    }
    st |= add;
    if (add && (mask & st)) q.thrown = devexc && (mask & BADB) ? 2 : 1;
    q.st = st; q.pos = p;
    n++;
    if (a->i & 1) st = 0;
    else if (q.thrown) break;
  }
  r->tlen = n * sizeof (InRec);
  memcpy (r->text, rec, r->tlen);
}

template<class D> static void setv (D &d, const unsigned char *p, int sz) { memcpy ((void *) &d, p, sz); }

static std::ios_base::fmtflags oflags (const Args *a) {
  std::ios_base::fmtflags f = std::ios_base::skipws | std::ios_base::dec;
  if (a->pflags & 1) f |= std::ios_base::fixed;
  if (a->pflags & 2) f |= std::ios_base::scientific;
  if (a->pflags & 4) f |= std::ios_base::uppercase;
  if (a->pflags & 8) f |= std::ios_base::left;
  if (a->pflags & 16) f |= std::ios_base::unitbuf;
  return f;
}

template<class D> static void run_out (const Args *a, Res *r, int sz) {
  outbuf ob (a, r);
  std::ostream os (&ob);
  os.exceptions ((std::ios_base::iostate) (a->mask & 7));
  OutRec rec[4]; int n = 0;
  for (int k = 0; k < a->nops && k < 3; k++) {
    D d; setv (d, a->a[k], sz);
    int thrown = 0;
    os.flags (oflags (a)); os.precision (a->prec); if (!k || !(a->pflags & 32)) os.width (a->width); os.fill ('*');
    sim_enter ();
    try { os << d; }
    catch (std::ios_base::failure &) { thrown = 1; }
    catch (device_error &) { thrown = 2; }
    catch (std::bad_alloc &) { thrown = 3; }
    sim_leave ();
    OutRec &q = rec[n++];
    q.st = os.rdstate (); q.thrown = thrown; q.mark = ob.total;
    q.flags_ok = os.flags () == oflags (a) && os.precision () == a->prec;
    if (a->i & 1) {
      os.exceptions (std::ios_base::goodbit); os.clear ();
      os.exceptions ((std::ios_base::iostate) (a->mask & 7));
    } else if (thrown) break;
  }
  // Records follow the text, counted by ri2.
  r->ri2 = n;
  memcpy (r->text + TEXTMAX - 4 * sizeof (OutRec), rec, n * sizeof (OutRec));
}

template<class D, class S> static void model_out (const Args *a, Res *r, int sz, int maxd) {
  int n = 0, total = 0; OutRec rec[4];
  for (int k = 0; k < a->nops && k < 3; k++) {
    S v; memcpy (&v, a->a[k], sz);
    unsigned prec = a->prec; if (prec > (unsigned) maxd) prec = maxd;
    char conv, fmt[32]; static char big[TEXTMAX];
    bool up = a->pflags & 4;
    if ((a->pflags & 3) == 3) conv = up ? 'A' : 'a';
    else if (a->pflags & 1) conv = up ? 'F' : 'f';
    else if (a->pflags & 2) conv = up ? 'E' : 'e';
    else conv = up ? 'G' : 'g';
    int len;
    sim_enter ();
    if ((a->pflags & 3) == 3) { snprintf (fmt, sizeof fmt, "%%%s%c", mod_string (sz * 8), conv); len = snprintf (big, sizeof big, fmt, v); }
    else { snprintf (fmt, sizeof fmt, "%%.*%s%c", mod_string (sz * 8), conv); len = snprintf (big, sizeof big, fmt, (int) prec, v); }
    sim_leave ();
    std::string s (big, len);
    // a width holds for one insertion
    if ((!k || !(a->pflags & 32)) && (int) s.size () < a->width) {
      if (a->pflags & 8) s.append (a->width - s.size (), '*'); else s.insert (0, a->width - s.size (), '*');
    }
    int m = s.size ();
    total += m;
    if (m > TEXTCAP - r->tlen) m = TEXTCAP - r->tlen;
    memcpy (r->text + r->tlen, s.data (), m); r->tlen += m;
    rec[n].mark = total; rec[n].st = 0; rec[n].thrown = 0; rec[n].flags_ok = 1; n++;
  }
  r->ri2 = n;
  memcpy (r->text + TEXTMAX - 4 * sizeof (OutRec), rec, n * sizeof (OutRec));
}

typedef float d32m __attribute__ ((mode (SD)));
typedef float d64m __attribute__ ((mode (DD)));
typedef float d128m __attribute__ ((mode (TD)));

extern "C" void cxx_call (const OpDef *o, const Args *a, Res *r, int as_ref) {
  if (o->kind == K_CXX_IN) {
    if (as_ref) {
      if (o->w == 32) model_in<decimal32, d32m> ("strtod32", a, r, 4);
      else if (o->w == 64) model_in<decimal64, d64m> ("strtod64", a, r, 8);
      else model_in<decimal128, d128m> ("strtod128", a, r, 16);
    } else {
      if (o->w == 32) run_in<decimal32> (a, r, 4);
      else if (o->w == 64) run_in<decimal64> (a, r, 8);
      else run_in<decimal128> (a, r, 16);
    }
  } else {
    if (as_ref) {
      if (o->w == 32) model_out<decimal32, d32m> (a, r, 4, __DEC32_MANT_DIG__);
      else if (o->w == 64) model_out<decimal64, d64m> (a, r, 8, __DEC64_MANT_DIG__);
      else model_out<decimal128, d128m> (a, r, 16, __DEC128_MANT_DIG__);
    } else {
      if (o->w == 32) run_out<decimal32> (a, r, 4);
      else if (o->w == 64) run_out<decimal64> (a, r, 8);
      else run_out<decimal128> (a, r, 16);
    }
  }
}

// Judge an actual outcome against the model's.  0 means fine, else a reason.
extern "C" const char *cxx_check (const OpDef *o, const Args *a, const Res *act, const Res *ref) {
  const int EOFB = std::ios_base::eofbit, FAILB = std::ios_base::failbit, BADB = std::ios_base::badbit;
  if (o->kind == K_CXX_IN) {
    int na = act->tlen / sizeof (InRec), nr = ref->tlen / sizeof (InRec);
    const InRec *x = (const InRec *) act->text, *y = (const InRec *) ref->text;
    for (int k = 0; k < na && k < nr; k++) {
      if (y[k].st & BADB) {
        // lenient about failbit next to badbit and about the position
        if (!(x[k].st & BADB)) return "device error not reported as badbit";
        if (y[k].thrown == 2 && x[k].thrown != 2) return "device exception not passed on";
        if (!y[k].thrown && x[k].thrown) return "unexpected exception";
        if (!(a->i & 1)) return 0;
        continue;
      }
      if ((!!x[k].thrown) != (!!y[k].thrown)) return "exception mask not honoured";
      if (y[k].thrown && (y[k].st & EOFB) && (a->mask & EOFB)) {
        if (!(x[k].st & EOFB)) return "eofbit missing";
      } else {
        if ((x[k].st & FAILB) != (y[k].st & FAILB)) return y[k].st & FAILB ? "failbit missing" : "unexpected failbit";
        if (x[k].st & BADB) return "unexpected badbit";
        if ((x[k].st & EOFB) != (y[k].st & EOFB)) return "eofbit wrong";
      }
      if (x[k].pos != y[k].pos) return "wrong amount of input consumed";
      if (x[k].valid && y[k].valid && memcmp (x[k].val, y[k].val, 16)) return "wrong value extracted";
    }
    if (na != nr) return "number of extractions differs";
    return 0;
  }
  const OutRec *x = (const OutRec *) (act->text + TEXTMAX - 4 * sizeof (OutRec));
  const OutRec *y = (const OutRec *) (ref->text + TEXTMAX - 4 * sizeof (OutRec));
  bool recover = a->i & 1;
  if (!recover || !act->refused) {
    if (act->tlen > ref->tlen || memcmp (act->text, ref->text, act->tlen)) return "inserted text differs";
  }
  for (int k = 0; k < act->ri2; k++) if (!x[k].flags_ok) return "stream format state changed";
  if (!act->refused) {
    if (act->tlen != ref->tlen) return "inserted text truncated";
    for (int k = 0; k < act->ri2; k++) if (x[k].st || x[k].thrown) return "error reported on a healthy device";
    for (int k = 0; k < act->ri2; k++) if (x[k].mark != y[k].mark) return "inserted length differs";
  } else {
    bool seen = false;
    for (int k = 0; k < act->ri2; k++) {
      if (x[k].st & BADB) {
        seen = true;
        if ((a->mask & BADB) && !x[k].thrown) return "exception mask not honoured on output";
        if ((a->mask & BADB) && a->err && x[k].thrown != 2 && k == 0) return "device exception not passed on";
      } else if (x[k].thrown) return "unexpected exception";
    }
    if (!seen) return "device refusal not reported as badbit";
  }
  return 0;
}

// The same where an allocation failed during the calls: whatever is no failure
// that the caller can see has to be the model's.
extern "C" const char *cxx_check_fault (const OpDef *o, const Args *a, const Res *act, const Res *ref) {
  const int FAILB = std::ios_base::failbit, BADB = std::ios_base::badbit;
  if (!cxx_check (o, a, act, ref)) return 0;
  if (o->kind == K_CXX_IN) {
    int na = act->tlen / sizeof (InRec), nr = ref->tlen / sizeof (InRec);
    const InRec *x = (const InRec *) act->text, *y = (const InRec *) ref->text;
    for (int k = 0; k < na && k < nr; k++) {
      if (x[k].thrown == 3 || x[k].st & BADB || (x[k].st & FAILB && !(y[k].st & FAILB))) return 0;
      if (x[k].st != y[k].st) return "stream state differs without a failure";
      if (x[k].pos != y[k].pos) return "wrong amount of input consumed";
      if (x[k].valid != y[k].valid || (x[k].valid && memcmp (x[k].val, y[k].val, 16))) return "wrong value extracted";
    }
    return 0;
  }
  const OutRec *x = (const OutRec *) (act->text + TEXTMAX - 4 * sizeof (OutRec));
  const OutRec *y = (const OutRec *) (ref->text + TEXTMAX - 4 * sizeof (OutRec));
  for (int k = 0; k < act->ri2; k++) {
    int m = x[k].mark < y[k].mark ? x[k].mark : y[k].mark;
    if (m > act->tlen) m = act->tlen;
    if (m > ref->tlen) m = ref->tlen;
    if (memcmp (act->text, ref->text, m)) return "inserted text differs";
    if (x[k].mark > y[k].mark) return "inserted text is too long";
    if (x[k].thrown || x[k].st & (BADB | FAILB)) return 0;
    if (x[k].mark != y[k].mark) return "inserted text truncated without a failure";
  }
  return 0;
}
