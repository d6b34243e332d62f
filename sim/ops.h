/* Operation table: every exported libdfp entry point as a uniform call.  */
#ifndef OPS_H
#define OPS_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

#define TEXTMAX 13312
#define STRMAX 6800

enum kind {
  K_D_D, K_D_DD, K_D_DT, K_D_DDD, K_D_DI, K_D_DL, K_D_DpI, K_D_DpD, K_D_S,
  K_I_D, K_L_D, K_I_DD, K_DEC, K_CVT,
  K_D2SI, K_D2DI, K_D2TI, K_SI2D, K_DI2D, K_TI2D,
  K_D2SF, K_D2DF, K_D2XF, K_D2TF, K_SF2D, K_DF2D, K_XF2D, K_TF2D,
  K_STRTOD, K_WCSTOD, K_STRFROM, K_SNPRINTF, K_SWPRINTF, K_PRINTF_DFP, K_FPRINTF,
  K_SETROUND,             /* fe_dec_setround(i): judged by the model */
  K_REGISTER,             /* register_printf_dfp() */
  K_FOREIGN,              /* another library registers a modifier/type/specifier */
  K_CXX_IN, K_CXX_OUT,
  K_MAX
};

/* classes used to select operations for a workload */
enum {
  G_ARITH = 1,            /* + - * / */
  G_ROUND = 2,            /* result depends on the current mode, exact oracle */
  G_MATH = 4, G_CMP = 8, G_CONV = 16, G_PARSE = 32, G_PRINT = 64,
  G_HEAP = 128,           /* may allocate */
  G_REG = 256, G_CXX = 512, G_STREAM = 1024, G_CTL = 2048, G_WIDE = 4096, G_MIX = 8192
};

typedef struct {
  char sym[40];
  int kind, w, w2, groups;
  void *fn;
} OpDef;

typedef struct {
  unsigned char a[3][16];
  long long i;
  int prec, width, pflags;      /* printf_info: prec, width, bit flags */
  int spec;
  int slen;
  char str[STRMAX];
  /* device plan */
  int bufmode;                  /* 0 unbuffered, 1 line, >=2 full with that size */
  int failat;                   /* byte offset of the first refusal, -1 never */
  int failcnt;                  /* refusals before recovery, -1 for good */
  int chunk;                    /* most bytes accepted / supplied at once, 0 any */
  int err;                      /* errno of the refusal; for C++: 0 error, 1 exception */
  int mask;                     /* C++ exception mask */
  int nops;                     /* C++: extractions */
} Args;

typedef struct {
  unsigned char r[16], r2[16];
  long long ri, ri2;
  int tlen;
  int refused;                  /* writes refused by the device during the call */
  int guard;                    /* bytes touched outside the caller's buffer */
  int fired;                    /* device faults that fired in all */
  char text[TEXTMAX];
} Res;

extern OpDef *op_table;
extern int op_count;
void op_init (void *handle);
int op_find (const char *sym);
void op_call (const OpDef *o, const Args *a, Res *r, int as_reference);
void cxx_call (const OpDef *o, const Args *a, Res *r, int as_reference);
const char *cxx_check (const OpDef *o, const Args *a, const Res *act, const Res *ref);
const char *cxx_check_fault (const OpDef *o, const Args *a, const Res *act, const Res *ref);
const char *mod_string (int w);

/* supplied by the simulator: bracket the one real call */
void sim_enter (void);
void sim_leave (void);
extern void *lib_handle;
#ifdef __cplusplus
}
#endif
#endif
