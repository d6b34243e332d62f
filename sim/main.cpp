// dfpsim run    --prop P --seed S --worker i --nworkers W --epochs N --wall T --out PREFIX
// dfpsim replay FILE
// dfpsim ctor                       (one registration-constructor run, see C12)
#include "sim.h"
#include "gen.h"
#include <sys/personality.h>
#include <unordered_set>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <ctime>
#include <csignal>
#include <fstream>
#include <sstream>
#include <iostream>
#include <dlfcn.h>

static double now () { timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- plan files
static std::string hx (const void *p, size_t n) {
  static const char *d = "0123456789abcdef"; std::string s;
  for (size_t i = 0; i < n; i++) { s += d[((const unsigned char *) p)[i] >> 4]; s += d[((const unsigned char *) p)[i] & 15]; }
  return s.empty () ? "-" : s;
}
static void unhx (const std::string &s, void *p, size_t n) {
  memset (p, 0, n);
  if (s == "-") return;
  for (size_t i = 0; i + 1 < s.size () && i / 2 < n; i += 2)
    ((unsigned char *) p)[i / 2] = (unsigned char) strtol (s.substr (i, 2).c_str (), 0, 16);
}
static std::string plan_text (const Plan *p) {
  std::ostringstream o;
  o << "gloc " << p->gloc << "\nfill " << p->fill << "\n";
  for (auto *in : p->insts) {
    const Args &a = in->args;
    o << "inst " << op_table[in->op].sym << " " << a.i << " " << a.prec << " " << a.width << " " << a.pflags << " " << a.spec << " "
      << a.bufmode << " " << a.failat << " " << a.failcnt << " " << a.chunk << " " << a.err << " " << a.mask << " " << a.nops << " "
      << hx (a.a[0], 16) << " " << hx (a.a[1], 16) << " " << hx (a.a[2], 16) << " " << hx (a.str, a.slen) << "\n";
  }
  for (auto &t : p->thr) {
    o << "thread\n";
    for (auto &s : t) {
      o << "step " << s.inst << " " << s.setmode << " " << s.setflags << " " << s.seterrno << " " << s.setloc << " " << s.setgloc << " "
        << s.alloc_first << " " << s.alloc_count << " " << s.locfail << " " << s.rep << " " << s.setbin << " " << s.ev.size ();
      for (auto &e : s.ev) o << " " << e.cb << " " << e.kind << " " << e.arg;
      o << "\n";
    }
  }
  o << "end\n";
  return o.str ();
}
static Plan *read_plan (const char *f, std::string &cls, uint64_t &hash) {
  std::ifstream is (f); std::string line, w;
  Plan *p = new Plan; hash = 0;
  while (std::getline (is, line)) {
    std::istringstream l (line); l >> w;
    if (w == "prop") l >> p->prop;
    else if (w == "class") l >> cls;
    else if (w == "hash") { l >> std::hex >> hash; }
    else if (w == "gloc") l >> p->gloc;
    else if (w == "fill") l >> p->fill;
    else if (w == "inst") {
      Inst *in = new Inst; Args &a = in->args; memset (&a, 0, sizeof a);
      std::string sym, h[4];
      l >> sym >> a.i >> a.prec >> a.width >> a.pflags >> a.spec >> a.bufmode >> a.failat >> a.failcnt >> a.chunk >> a.err >> a.mask >> a.nops >> h[0] >> h[1] >> h[2] >> h[3];
      in->op = op_find (sym.c_str ());
      if (in->op < 0) { fprintf (stderr, "unknown operation %s\n", sym.c_str ()); exit (94); }
      for (int k = 0; k < 3; k++) unhx (h[k], a.a[k], 16);
      unhx (h[3], a.str, STRMAX - 1); a.slen = h[3] == "-" ? 0 : (int) h[3].size () / 2;
      p->insts.push_back (in);
    } else if (w == "thread") p->thr.emplace_back ();
    else if (w == "step") {
      Step s; size_t n;
      l >> s.inst >> s.setmode >> s.setflags >> s.seterrno >> s.setloc >> s.setgloc >> s.alloc_first >> s.alloc_count >> s.locfail >> s.rep >> s.setbin >> n;
      for (size_t i = 0; i < n; i++) { Ev e; l >> e.cb >> e.kind >> e.arg; s.ev.push_back (e); }
      p->thr.back ().push_back (s);
    } else if (w == "end") break;
  }
  return p;
}

// ---------------------------------------------------------------- minimising
static std::string sym_of (const Plan *p, const Viol &v) {
  return v.inst >= 0 && v.inst < (int) p->insts.size () ? op_table[p->insts[v.inst]->op].sym : "-";
}
static const Viol *hit (const RunOut *o, const Plan *p, unsigned mask, int cls, const std::string &sym) {
  for (int i = 0; i < o->nviol; i++) {
    const Viol &v = o->viol[i];
    if (!((mask >> v.cls) & 1)) continue;
    if (cls && v.cls != cls) continue;
    if (!sym.empty () && sym_of (p, v) != sym) continue;
    return &v;
  }
  return 0;
}
static void drop_unused (Plan *p) {
  std::vector<int> used (p->insts.size (), 0), map (p->insts.size (), 0);
  for (auto &t : p->thr) for (auto &s : t) {
    if (s.inst >= 0) used[s.inst] = 1;
    for (auto &e : s.ev) if (e.kind == EV_NEST && (e.arg & 0xffff) < (int) used.size ()) used[e.arg & 0xffff] = 1;
  }
  std::vector<Inst *> n;
  for (size_t i = 0; i < p->insts.size (); i++) if (used[i]) { map[i] = (int) n.size (); n.push_back (p->insts[i]); }
  p->insts = n;
  for (auto &t : p->thr) for (auto &s : t) {
    if (s.inst >= 0) s.inst = map[s.inst];
    for (auto &e : s.ev) if (e.kind == EV_NEST) e.arg = map[e.arg & 0xffff] | (e.arg & ~0xffff);
  }
}
static Plan minimise (const Plan *src, unsigned mask, int cls, const std::string &sym, double budget) {
  Plan best = *src; best.own.clear ();
  double t0 = now (); int tries = 0;
  auto attempt = [&] (Plan c) {
    if (tries++ > 500 || now () - t0 > budget) return false;
    for (size_t i = 1; i < c.thr.size (); ) if (c.thr[i].empty ()) c.thr.erase (c.thr.begin () + i); else i++;
    if (c.thr.empty ()) return false;
    if (!hit (run_plan (&c), &c, mask, cls, sym)) return false;
    best = c; return true;
  };
  bool more = true;
  while (more && now () - t0 < budget) {
    more = false;
    for (size_t t = best.thr.size (); t-- > 0; ) if (best.thr.size () > 1) { Plan c = best; c.thr.erase (c.thr.begin () + t); if (attempt (c)) more = true; }
    for (size_t t = 0; t < best.thr.size (); t++) for (size_t s = best.thr[t].size (); s-- > 0; ) {
      if (t >= best.thr.size () || s >= best.thr[t].size ()) continue;
      Plan c = best; c.thr[t].erase (c.thr[t].begin () + s); if (attempt (c)) { more = true; continue; }
      auto tryset = [&] (auto f) {
        if (t >= best.thr.size () || s >= best.thr[t].size ()) return;
        Plan d = best; Step &x = d.thr[t][s];
        if (f (x) && attempt (d)) more = true;
      };
      for (size_t e = best.thr[t][s].ev.size (); e-- > 0; ) tryset ([&] (Step &x) { if (e >= x.ev.size ()) return false; x.ev.erase (x.ev.begin () + e); return true; });
      tryset ([] (Step &x) { if (x.alloc_first < 0) return false; x.alloc_first = -1; x.alloc_count = 0; return true; });
      tryset ([] (Step &x) { if (x.alloc_count <= 1) return false; x.alloc_count = 1; return true; });
      tryset ([] (Step &x) { if (!x.locfail) return false; x.locfail = 0; return true; });
      tryset ([] (Step &x) { if (x.setmode < 0) return false; x.setmode = -1; return true; });
      tryset ([] (Step &x) { if (x.setbin < 0) return false; x.setbin = -1; return true; });
      tryset ([] (Step &x) { if (x.setflags < 0) return false; x.setflags = -1; return true; });
      tryset ([] (Step &x) { if (x.seterrno < 0) return false; x.seterrno = -1; return true; });
      tryset ([] (Step &x) { if (x.setloc < -1) return false; x.setloc = -2; return true; });
      tryset ([] (Step &x) { if (x.rep <= 1) return false; x.rep = 1; return true; });
    }
    if (best.fill) { Plan c = best; c.fill = 0; if (attempt (c)) more = true; }
    if (best.gloc) { Plan c = best; c.gloc = 0; if (attempt (c)) more = true; }
  }
  drop_unused (&best);
  return best;
}

// ---------------------------------------------------------------- modes
static uint64_t hash_str (const std::string &s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char) c) * 0x100000001b3ull; return h; }

static std::string esc (const char *s) {
  std::string o; for (; *s; s++) { if (*s == '"' || *s == '\\') o += '\\'; if ((unsigned char) *s < 32 || (unsigned char) *s > 126) o += '?'; else o += *s; } return o;
}

static volatile int stop_asked;
static void on_term (int) { stop_asked = 1; }
static int cmd_run (int argc, char **argv) {
  std::string prop, outp; uint64_t seed = 1; int worker = 0, nworkers = 1; long epochs = 1000000; double wall = 20; int runs_per_epoch = 250;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") prop = v; else if (k == "--seed") seed = strtoull (v.c_str (), 0, 0); else if (k == "--worker") worker = atoi (v.c_str ());
    else if (k == "--nworkers") nworkers = atoi (v.c_str ()); else if (k == "--epochs") epochs = atol (v.c_str ()); else if (k == "--wall") wall = atof (v.c_str ());
    else if (k == "--out") outp = v; else if (k == "--runs") runs_per_epoch = atoi (v.c_str ());
  }
  const Profile *pf = find_profile (prop);
  if (!pf) { fprintf (stderr, "unknown property %s\n", prop.c_str ()); return 94; }
  signal (SIGTERM, on_term);
  double t0 = now ();
  uint64_t st[16] = {0}; uint64_t runs = 0, rechecked = 0, mismatched = 0, nontrivial = 0; long ep = 0;
  std::unordered_set<uint64_t> inter, sigs;
  std::set<std::string> seen;
  std::set<std::string> ops_hit;
  FILE *log = fopen ((outp + ".log").c_str (), "w");
  FILE *vf = fopen ((outp + ".viol").c_str (), "w");
  std::string samples;
  int nfile = 0;
  uint64_t chain = 0;
  extern void screen_ops (uint64_t); extern std::vector<int> stateful_ops;
  screen_ops (seed);
  fprintf (log, "stateful");
  for (int i : stateful_ops) fprintf (log, " %s", op_table[i].sym);
  fprintf (log, "\n");
  for (long e = worker; e < epochs && !stop_asked && now () - t0 < wall; e += nworkers) {
    uint64_t es = mix (mix (seed, hash_str (prop)), (uint64_t) e);
    Rng er (es);
    Pool pool = make_pool (prop, er);
    for (auto &f : pool.fam) if (f.size ()) ops_hit.insert (op_table[f[0]->op].sym);
    uint64_t eh = 0;
    for (int k = 0; k < runs_per_epoch && !stop_asked && now () - t0 < wall; k++) {
      Rng rr (mix (es, k + 1));
      Plan *p = gen_plan (prop, rr, pool);
      const RunOut *o = run_plan (p);
      runs++;
      uint64_t v[] = {o->steps, o->callbacks, o->switches, o->stalls, o->nests, o->allocfails, o->locfails, o->devfaults, o->threads, o->modesets, o->locsets};
      for (int i = 0; i < 11; i++) st[i] += v[i];
      bool nt = o->switches || o->stalls || o->nests || o->allocfails || o->locfails || o->devfaults || o->modesets || o->locsets || p->fill || o->steps > 1;
      if (nt) nontrivial++;
      inter.insert (o->ileave);
      if (nt) sigs.insert (o->hash ^ (o->ileave * 3));
      eh = mix (eh, o->hash);
      if ((int) samples.size () < 1500 && runs % 97 == 1 && o->trlen) { samples += "run " + std::to_string (e) + "/" + std::to_string (k) + ": " + std::string (o->trace, o->trlen > 350 ? 350 : o->trlen) + "\n"; }
      uint64_t h = o->hash;
      const Viol *vv = hit (o, p, pf->mask, 0, "");
      std::string first_msg; int vcls = 0; std::string vsym;
      if (vv) { first_msg = vv->msg; vcls = vv->cls; vsym = sym_of (p, *vv); }
      if (vv || runs % 40 == 0) {
        const RunOut *o2 = run_plan (p); rechecked++;
        if (o2->hash != h) { mismatched++; fprintf (log, "NONDETERMINISM epoch %ld run %d\n%s", e, k, plan_text (p).c_str ()); }
      }
      if (vv && seen.insert (std::string (cls_name[vcls]) + " " + vsym).second && seen.size () <= 12) {
        Plan m = minimise (p, pf->mask, vcls, vsym, 8.0);
        const RunOut *o3 = run_plan (&m);
        const Viol *mv = hit (o3, &m, pf->mask, vcls, vsym);
        if (!mv) { m = *p; o3 = run_plan (&m); mv = hit (o3, &m, pf->mask, vcls, vsym); }
        std::string fn = outp + "." + std::to_string (nfile++) + ".replay";
        FILE *f = fopen (fn.c_str (), "w");
        fprintf (f, "dfpsim 1\nprop %s\nseed %lu epoch %ld run %d\nclass %s\nop %s\nhash %lx\n", prop.c_str (), seed, e, k, cls_name[vcls], vsym.c_str (), mv ? o3->hash : 0ul);
        fprintf (f, "%s\nviolation: %s\nas first seen: %s\ntrace:\n%.*s", plan_text (&m).c_str (), mv ? mv->msg : "?", first_msg.c_str (), o3->trlen, o3->trace);
        fclose (f);
        fprintf (vf, "{\"class\":\"%s\",\"op\":\"%s\",\"file\":\"%s\",\"gated\":%s,\"msg\":\"%s\"}\n", cls_name[vcls], vsym.c_str (), fn.c_str (), mv ? "true" : "false", esc (mv ? mv->msg : first_msg.c_str ()).c_str ());
        fflush (vf);
      }
      for (auto *i : p->own) { for (auto &q : i->refs) free (q.second); delete i; }
      delete p;
    }
    fprintf (log, "epoch %ld %016lx hot %zu\n", e, eh, pool.hot.size ());
    chain ^= mix (eh, e);
    free_pool (pool);
    ep++;
  }
  FILE *f = fopen ((outp + ".inter").c_str (), "wb");
  for (uint64_t x : inter) fwrite (&x, 8, 1, f);
  fclose (f);
  f = fopen ((outp + ".sigs").c_str (), "wb");
  for (uint64_t x : sigs) fwrite (&x, 8, 1, f);
  fclose (f);
  f = fopen ((outp + ".cov").c_str (), "wb");
  extern uint8_t *cov_map; extern uintptr_t lib_base, lib_text_end;
  for (size_t i = 0; i < lib_text_end - lib_base; i++) if (cov_map[i]) { uint32_t u = (uint32_t) i; fwrite (&u, 4, 1, f); }
  fclose (f);
  f = fopen ((outp + ".ops").c_str (), "w"); for (auto &s : ops_hit) fprintf (f, "%s\n", s.c_str ()); fclose (f);
  f = fopen ((outp + ".samples").c_str (), "w"); fputs (samples.c_str (), f); fclose (f);
  f = fopen ((outp + ".json").c_str (), "w");
  static const char *const names[] = {"calls", "callbacks", "switches", "stalls", "nests", "allocfails", "locfails", "devfaults", "threads", "modesets", "locsets"};
  fprintf (f, "{\"runs\":%lu,\"nontrivial\":%lu,\"epochs\":%ld,\"refs\":%lu,\"rechecked\":%lu,\"mismatched\":%lu,\"wall\":%.3f,\"chain\":\"%016lx\"", runs, nontrivial, ep, stat_refs, rechecked, mismatched, now () - t0, chain);
  for (int i = 0; i < 11; i++) fprintf (f, ",\"%s\":%lu", names[i], st[i]);
  fprintf (f, "}\n"); fclose (f);
  fclose (log); fclose (vf);
  return mismatched ? 93 : 0;
}

static int cmd_replay (const char *file) {
  std::string cls; uint64_t hash;
  Plan *p = read_plan (file, cls, hash);
  const Profile *pf = find_profile (p->prop);
  if (!pf || p->thr.empty ()) { fprintf (stderr, "bad replay file\n"); return 94; }
  const RunOut *o = run_plan (p);
  printf ("%.*s", o->trlen, o->trace);
  const Viol *v = hit (o, p, pf->mask, cls_by_name (cls.c_str ()), "");
  if (!v) { printf ("no violation of class %s\n", cls.c_str ()); return 0; }
  printf ("violation: %s\n", v->msg);
  printf ("hash %lx %s\n", o->hash, !hash || hash == o->hash ? "same" : "DIFFERENT");
  return hash && hash != o->hash ? 2 : 1;
}

int ctor_run ();
int main (int argc, char **argv) {
  if (argc < 2) return 94;
  if (!(personality (0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality (personality (0xffffffff) | ADDR_NO_RANDOMIZE) >= 0 && !getenv ("DFPSIM_NOASLR")) {
      setenv ("DFPSIM_NOASLR", "1", 1);
      execv ("/proc/self/exe", argv);
    }
  }
  char exe[4096]; ssize_t el = readlink ("/proc/self/exe", exe, sizeof exe - 32);
  if (el > 0) { exe[el] = 0; char *sl = strrchr (exe, '/'); strcpy (sl, "/locale"); setenv ("LOCPATH", exe, 1); }
  sim_setup ();
  std::string c = argv[1];
  if (c == "run") return cmd_run (argc, argv);
  if (c == "replay" && argc > 2) return cmd_replay (argv[2]);
  if (c == "ctor") return ctor_run ();
  if (c == "ops") { for (int i = 0; i < op_count; i++) puts (op_table[i].sym); return 0; }
  return 94;
}
