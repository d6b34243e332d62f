#ifndef ORACLE_H
#define ORACLE_H
#include <string>
#include "ops.h"
typedef unsigned __int128 u128;
struct Dec { int cls; int sign; u128 c; int e; };   // cls 0 finite 1 inf 2 qnan 3 snan
struct Fmt { int w, p, emin, emax; };
const Fmt &fmt_of (int w);
Dec dec_decode (int w, const unsigned char *b);
void dec_encode (int w, const Dec &d, unsigned char *out);
u128 pow10u (int k);
int ndig (u128 c);
// Exact expectation of a correctly rounded operation.  Returns false when the
// oracle has nothing to say.  OUT receives the expected bytes of Res.r (binary
// results), or the text; *kind tells which: 0 bits, 1 integer in ri, 2 text,
// 3 NaN of any payload; *flags the IEEE flags (FE_*), or -1.
bool same_value (const std::string &a, const std::string &b);
bool oracle_expect (const OpDef *o, const Args *a, int mode, std::string &out, int *kind, int *flags);
// Null, or what is wrong with errno being ERR after a call that began with 0.
const char *errno_rule (const OpDef *o, const Args *a, const Res *r, int err);
const char *flag_rule (const OpDef *o, const Args *a, const Res *r, int flags);
const char *text_exact (const OpDef *o, const Args *a, int mode, const Res *r, int fl, int err, int *what);
int exact_flags (const OpDef *o, const Args *a, int mode, int *fre);
#endif
