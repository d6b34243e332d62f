#ifndef GEN_H
#define GEN_H
#include "engine.h"
struct Profile { const char *prop; unsigned mask; };
const Profile *find_profile (const std::string &);
struct Pool { std::vector<std::vector<Inst *>> fam; std::vector<std::pair<int, int>> hot; };     // hot: calls seen to leave state behind
Pool make_pool (const std::string &prop, Rng &);
void free_pool (Pool &);
Plan *gen_plan (const std::string &prop, Rng &, Pool &);
Inst *gen_inst (int op, Rng &, const std::string &prop);
extern std::vector<int> stateful_ops;
#endif
