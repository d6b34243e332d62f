#ifndef SIM_H
#define SIM_H
#include "engine.h"
#include <locale.h>
struct LocDef { const char *name, *dec, *sep; };
enum { NLOC = 5 };
extern const LocDef locs[NLOC];
int cls_by_name (const char *);
void sim_setup ();
Ref *get_ref (Inst *, int mode, int variant);
int ref_variant (const OpDef *, const Args *, int loc);
Orc *get_orc (Inst *, int mode);
std::string to_c_spelling (const std::string &, int loc, std::vector<int> &map);
std::string from_c_text (const std::string &, int loc);
const RunOut *run_plan (Plan *);
size_t cov_count ();
bool op_is_print (const OpDef *);
extern uint64_t stat_refs;
#endif
