/* C17: inputs stay intact, everything is released exactly once: histories of operations on forests, coarse meshes and
 * schemes in every order, with references kept, dropped and handed over. */
#include "cx.hxx"
using namespace cx;
int cx::PKG[2];
static const sc_MPI_Comm COMM = sc_MPI_COMM_WORLD;

enum Kind {
  REFINE, COARSEN, PART, BALANCE, COPY, GHOST, CHAIN, /* derive a forest */
  REF, UNREF,                                         /* of a forest */
  ABANDON,                                            /* a forest that is never committed */
  NEWF,                                               /* a uniform forest on a coarse mesh */
  EXCHANGE, PDATA,
  CDERIVE, CREF, CUNREF, CABANDON, CGET, CNEW,
  SREF, SUNREF
};
static const char *KNAME[] = { "refine", "coarsen", "partition", "balance", "copy", "ghost", "chain", "ref", "unref", "abandon", "new", "exchange", "partition data", "derive cmesh", "ref cmesh", "unref cmesh", "abandon cmesh",
                               "get cmesh", "new cmesh", "ref scheme", "unref scheme" };
struct Action {
  int kind, h = -1, arg = 0;
  bool keep = false;
};
struct AF { /* abstract forest */
  Model M;
  Cuts O;
  bool ghost = false;
  int refs = 1;
  bool cpart = false;
};
struct AC {
  bool part = false;
  Ranges R;
  int refs = 1;
};
struct World {
  const Mesh *m;
  Spec s;
  int P;
  std::vector<AF> F;
  std::vector<AC> C;
  int srefs = 1; /* references of the user to the scheme */
};
static Model
coarsen_local (const Model &M, const Cuts &O)
{
  std::vector<Leaf> c;
  for (size_t i = 0; i < M.size ();) {
    Leaf par = M.L[i];
    if (!par.path.empty () && par.path.back () == 0) {
      par.path.pop_back ();
      auto r = M.range (par);
      bool flat = owner_of (O, r.first) == owner_of (O, r.second - 1);
      for (int q = r.first; q < r.second; q++)
        flat = flat && M.L[q].level () == M.L[i].level ();
      if (flat) {
        c.push_back (par);
        i = r.second;
        continue;
      }
    }
    c.push_back (M.L[i++]);
  }
  Model R = M;
  R.L = c;
  return R;
}
/* the boundaries of an adapted forest: every process keeps its part of the domain */
static Cuts
follow (const Model &from, const Cuts &O, const Model &to)
{
  Cuts R (O.size (), 0);
  for (size_t p = 0; p + 1 < O.size (); p++) {
    if (O[p] >= (int) from.size ()) {
      R[p] = (int) to.size ();
      continue;
    }
    const Leaf &l = from.L[O[p]];
    int i = 0;
    while (i < (int) to.size () && !(to.L[i].tree == l.tree && (is_prefix (to.L[i].path, l.path) || is_prefix (l.path, to.L[i].path))))
      i++;
    R[p] = i;
  }
  R.back () = (int) to.size ();
  return R;
}
static Cuts
pattern (int n, int P, int k)
{
  if (k == 0)
    return even_cuts (n, P);
  Cuts c (P + 1, k == 1 ? 0 : n);
  c[0] = 0;
  c[P] = n;
  return c;
}
static t8_scheme *
raw_scheme (const Mesh &m)
{
  return const_cast<t8_scheme *> (new_scheme (m));
}
static void
marker ()
{
}
static int
to_target (t8_forest_t forest, t8_forest_t from, t8_locidx_t tree, const t8_eclass_t tc, t8_locidx_t, const t8_scheme *s, const int family, const int, t8_element_t *el[])
{
  const Model *T = (const Model *) t8_forest_get_user_data (forest);
  MC_CHECK (t8_forest_get_user_function (forest) == (t8_generic_function_pointer) marker, "the callback does not see the user function of the forest");
  Leaf l = leaf_of (from, tree, tc, s, el[0]);
  if (family && !l.path.empty ()) {
    Leaf p = l;
    p.path.pop_back ();
    for (auto &x : T->L)
      if (x == p)
        return -1;
  }
  for (auto &x : T->L)
    if (x.tree == l.tree && x.path.size () > l.path.size () && is_prefix (l.path, x.path))
      return 1;
  return 0;
}
/* what a derivation makes of a forest */
static AF
derived (const World &w, const AF &a, const Action &x, Model *target)
{
  AF r = a;
  r.refs = 1;
  r.ghost = false;
  *target = a.M;
  switch (x.kind) {
  case REFINE:
    r.M = *target = refine_one (a.M, x.arg ? 0 : (int) a.M.size () - 1);
    r.O = follow (a.M, a.O, r.M);
    break;
  case COARSEN:
    r.M = *target = coarsen_local (a.M, a.O);
    r.O = follow (a.M, a.O, r.M);
    break;
  case PART:
    r.O = pattern ((int) a.M.size (), w.P, x.arg);
    break;
  case BALANCE:
    r.M = balance (a.M);
    r.O = follow (a.M, a.O, r.M);
    break;
  case GHOST:
    r.ghost = true;
    break;
  case CHAIN: {
    Model t = *target = refine_one (a.M, 0);
    Cuts e = even_cuts ((int) t.size (), w.P);
    r.M = x.arg ? balance (t) : t;
    r.O = x.arg ? follow (t, e, r.M) : e;
    r.ghost = true;
  }
  }
  return r;
}
static int
total_refs (const World &w)
{
  return (int) w.F.size () + (int) w.C.size ();
}
static bool
too_fine (const Model &M)
{
  for (auto &l : M.L)
    if (l.level () >= 3)
      return true;
  return false;
}
static std::vector<Action>
actions (const World &w, bool last)
{
  std::vector<Action> v;
  auto add = [&] (int kind, int h, int arg = 0) {
    for (int keep = 0; keep < 2; keep++)
      v.push_back ({ kind, h, arg, keep == 1 });
  };
  bool room = total_refs (w) < 5;
  for (int i = 0; i < (int) w.F.size (); i++) {
    const AF &f = w.F[i];
    if (room) {
      if (!too_fine (f.M) && w.m->dim () > 0) {
        add (REFINE, i);
        add (CHAIN, i, 0);
        add (CHAIN, i, 1);
      }
      add (COARSEN, i);
      add (PART, i, 0);
      if (w.P > 1) {
        add (PART, i, 1);
        add (PART, i, 2);
      }
      add (BALANCE, i);
      add (COPY, i);
      if (w.m->dim () > 0)
        add (GHOST, i);
      v.push_back ({ CGET, i });
    }
    if (f.refs < 3)
      v.push_back ({ REF, i });
    v.push_back ({ UNREF, i });
    for (int a = 0; a < 4; a++)
      add (ABANDON, i, a);
    if (f.ghost)
      v.push_back ({ EXCHANGE, i });
  }
  for (int i = 0; i < (int) w.C.size (); i++) {
    if (room) {
      add (NEWF, i, 0);
      add (NEWF, i, 1);
      for (int a = 0; a < 3; a++)
        add (CDERIVE, i, a);
    }
    v.push_back ({ CREF, i });
    v.push_back ({ CUNREF, i });
    add (CABANDON, i, 0);
    add (CABANDON, i, 1);
  }
  v.push_back ({ CABANDON, -1, 2 });
  if (w.C.empty () && room)
    v.push_back ({ CNEW });
  if (w.srefs > 0) {
    v.push_back ({ SUNREF });
    if (w.srefs < 3)
      v.push_back ({ SREF });
  }
  (void) last;
  return v;
}
struct Real { /* objects of one process */
  std::vector<t8_forest_t> F;
  std::vector<t8_cmesh_t> C;
  t8_scheme *scheme = nullptr;
};
static int g_prof;
/* drop one reference; the handle is cleared exactly when it was the last one */
static void
drop (t8_forest_t &f, bool last, const char *what)
{
  t8_forest_unref (&f);
  MC_CHECK ((f == nullptr) == last, "%s: the forest %s", what, last ? "is still referenced" : "was released too early");
}
static const t8_scheme *
use_scheme (const World &w, Real &r)
{
  if (w.srefs > 0) {
    r.scheme->ref ();
    return r.scheme;
  }
  return new_scheme (*w.m);
}
static void
real_cmesh (const World &w, Real &r)
{
  t8_cmesh_t cm;
  t8_cmesh_init (&cm);
  specify (cm, const_cast<Spec &> (w.s));
  t8_cmesh_commit (cm, COMM);
  r.C.push_back (cm);
}
/* execute one action on the abstract and (r set) on the real objects; the abstract state before is w */
static void
step (World &w, const Action &x, Real *r, int rank)
{
  switch (x.kind) {
  case REFINE:
  case COARSEN:
  case PART:
  case BALANCE:
  case COPY:
  case GHOST:
  case CHAIN: {
    Model target;
    AF n = derived (w, w.F[x.h], x, &target);
    if (r) {
      t8_forest_t g, f = r->F[x.h];
      if (x.keep)
        t8_forest_ref (f);
      t8_forest_init (&g);
      if (x.kind == REFINE || x.kind == COARSEN || x.kind == CHAIN) {
        t8_forest_set_user_data (g, &target);
        t8_forest_set_user_function (g, (t8_generic_function_pointer) marker);
        t8_forest_set_adapt (g, f, to_target, 0);
      }
      if (x.kind == CHAIN) {
        t8_forest_set_partition (g, nullptr, 0);
        if (x.arg)
          t8_forest_set_balance (g, nullptr, 1);
      }
      if (x.kind == PART) {
        t8_forest_set_partition (g, f, 0);
        t8_forest_set_partition_offset (g, n.O[rank]);
      }
      if (x.kind == BALANCE)
        t8_forest_set_balance (g, f, 1);
      if (x.kind == COPY || x.kind == GHOST)
        t8_forest_set_copy (g, f);
      if (n.ghost)
        t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
      else if (x.kind == REFINE || x.kind == PART) {
        /* asked for and given up again */
        t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
        t8_forest_set_ghost (g, 0, x.keep ? T8_GHOST_NONE : T8_GHOST_FACES);
      }
      if (g_prof || x.kind == COPY)
        t8_forest_set_profiling (g, 1);
      if (!g_prof && x.kind == COPY)
        t8_forest_set_profiling (g, 0); /* switched off again */
      t8_forest_commit (g);
      if (!n.ghost && (x.kind == REFINE || x.kind == PART)) {
        MC_CHECK (t8_forest_get_num_ghosts (g) == 0 && t8_forest_get_num_ghost_trees (g) == 0, "%d ghosts although none are asked for", (int) t8_forest_get_num_ghosts (g));
        mc::checked ("no ghosts");
      }
      if (g_prof) {
        t8_forest_compute_profile (g);
        t8_forest_print_profile (g);
      }
      t8_forest_set_user_data (g, nullptr);
      t8_forest_set_user_function (g, nullptr);
      r->F.push_back (g);
      if (!x.keep && w.F[x.h].refs == 1)
        r->F.erase (r->F.begin () + x.h);
    }
    w.F.push_back (n);
    if (!x.keep && --w.F[x.h].refs == 0)
      w.F.erase (w.F.begin () + x.h);
    break;
  }
  case REF:
    if (r)
      t8_forest_ref (r->F[x.h]);
    w.F[x.h].refs++;
    break;
  case UNREF:
    w.F[x.h].refs--;
    if (r) {
      drop (r->F[x.h], w.F[x.h].refs == 0, "unref");
      if (!w.F[x.h].refs)
        r->F.erase (r->F.begin () + x.h);
    }
    if (!w.F[x.h].refs)
      w.F.erase (w.F.begin () + x.h);
    break;
  case ABANDON:
    if (r) {
      t8_forest_t g, f = r->F[x.h];
      if (x.keep)
        t8_forest_ref (f);
      t8_forest_init (&g);
      switch (x.arg) {
      case 0:
        t8_forest_set_copy (g, f);
        break;
      case 1:
        t8_forest_set_user_function (g, (t8_generic_function_pointer) marker);
        t8_forest_set_adapt (g, f, to_target, 1);
        t8_forest_set_partition (g, nullptr, 0);
        t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
        break;
      case 2:
        t8_forest_set_partition (g, f, 1);
        break;
      default:
        t8_forest_set_balance (g, f, 0);
      }
      if (g_prof || x.arg == 0)
        t8_forest_set_profiling (g, 1);
      if (!g_prof && x.arg == 0)
        t8_forest_set_profiling (g, 0);
      t8_forest_unref (&g);
      MC_CHECK (g == nullptr, "an uncommitted forest is still referenced");
      if (!x.keep && w.F[x.h].refs == 1)
        r->F.erase (r->F.begin () + x.h);
    }
    if (!x.keep && --w.F[x.h].refs == 0)
      w.F.erase (w.F.begin () + x.h);
    break;
  case NEWF: {
    AF n;
    n.M = uniform (*w.m, x.arg);
    n.O = even_cuts ((int) n.M.size (), w.P);
    n.cpart = w.C[x.h].part;
    n.ghost = x.arg == 1;
    if (r) {
      t8_cmesh_t cm = r->C[x.h];
      if (x.keep)
        t8_cmesh_ref (cm);
      r->F.push_back (t8_forest_new_uniform (cm, use_scheme (w, *r), x.arg, x.arg == 1, COMM));
      if (!x.keep && w.C[x.h].refs == 1)
        r->C.erase (r->C.begin () + x.h);
    }
    w.F.push_back (n);
    if (!x.keep && --w.C[x.h].refs == 0)
      w.C.erase (w.C.begin () + x.h);
    break;
  }
  case EXCHANGE:
    if (r) {
      const AF &a = w.F[x.h];
      int nl = a.O[rank + 1] - a.O[rank];
      std::vector<int> G = w.P > 1 ? ghost_leaves (a.M, a.O, rank) : std::vector<int> ();
      sc_array_t *d = sc_array_new_count (sizeof (int), nl + G.size ());
      for (int i = 0; i < nl; i++)
        ((int *) d->array)[i] = a.O[rank] + i;
      t8_forest_ghost_exchange_data (r->F[x.h], d);
      for (size_t i = 0; i < G.size (); i++)
        MC_CHECK (((int *) d->array)[nl + i] == G[i], "exchange: ghost %zu", i);
      sc_array_destroy (d);
    }
    break;
  case CDERIVE: {
    AC n = w.C[x.h];
    n.refs = 1;
    const int T = w.s.T ();
    if (x.arg) {
      n.part = true;
      auto &all = all_ranges (T, w.P);
      n.R = x.arg == 1 ? all[all.size () / 2] : all.back ();
    }
    if (r) {
      t8_cmesh_t c, cm = r->C[x.h];
      if (x.keep)
        t8_cmesh_ref (cm);
      t8_cmesh_init (&c);
      t8_cmesh_set_derive (c, cm);
      if (x.arg)
        t8_cmesh_set_partition_offsets (c, make_offsets (n.R, T));
      if (g_prof || !x.arg)
        t8_cmesh_set_profiling (c, 1);
      if (!g_prof && !x.arg)
        t8_cmesh_set_profiling (c, 0); /* switched off again */
      t8_cmesh_commit (c, COMM);
      if (g_prof)
        t8_cmesh_print_profile (c);
      r->C.push_back (c);
      if (!x.keep && w.C[x.h].refs == 1)
        r->C.erase (r->C.begin () + x.h);
    }
    w.C.push_back (n);
    if (!x.keep && --w.C[x.h].refs == 0)
      w.C.erase (w.C.begin () + x.h);
    break;
  }
  case CREF:
    if (r)
      t8_cmesh_ref (r->C[x.h]);
    w.C[x.h].refs++;
    break;
  case CUNREF:
    if (r) {
      t8_cmesh_unref (&r->C[x.h]);
      MC_CHECK (r->C[x.h] || w.C[x.h].refs == 1, "a coarse mesh was released too early");
      if (w.C[x.h].refs == 1)
        r->C.erase (r->C.begin () + x.h);
    }
    if (--w.C[x.h].refs == 0)
      w.C.erase (w.C.begin () + x.h);
    break;
  case CABANDON:
    if (r) {
      t8_cmesh_t c;
      t8_cmesh_init (&c);
      if (x.arg == 2) {
        specify (c, w.s);
        t8_cmesh_set_partition_range (c, 3, 0, 0);
      }
      else {
        t8_cmesh_t cm = r->C[x.h];
        if (x.keep)
          t8_cmesh_ref (cm);
        t8_cmesh_set_derive (c, cm);
        if (x.arg == 1)
          t8_cmesh_set_partition_uniform (c, 1, use_scheme (w, *r));
      }
      if (g_prof || x.arg == 0)
        t8_cmesh_set_profiling (c, 1);
      if (!g_prof && x.arg == 0)
        t8_cmesh_set_profiling (c, 0);
      t8_cmesh_unref (&c);
      MC_CHECK (c == nullptr, "an uncommitted coarse mesh is still referenced");
      if (x.arg < 2 && !x.keep && w.C[x.h].refs == 1)
        r->C.erase (r->C.begin () + x.h);
    }
    if (x.arg < 2 && !x.keep && --w.C[x.h].refs == 0)
      w.C.erase (w.C.begin () + x.h);
    break;
  case CGET: {
    /* keep the coarse mesh of a forest */
    AC n;
    n.part = w.F[x.h].cpart;
    if (r) {
      t8_cmesh_t cm = t8_forest_get_cmesh (r->F[x.h]);
      t8_cmesh_ref (cm);
      r->C.push_back (cm);
    }
    w.C.push_back (n);
    break;
  }
  case CNEW:
    if (r)
      real_cmesh (w, *r);
    w.C.push_back (AC ());
    break;
  case SREF:
    if (r)
      r->scheme->ref ();
    w.srefs++;
    break;
  case SUNREF:
    if (r)
      r->scheme->unref ();
    w.srefs--;
    break;
  }
}
static void
verify (const World &w, const Real &r, int rank, const char *after)
{
  char b[100];
  for (size_t i = 0; i < w.F.size (); i++) {
    snprintf (b, 100, "forest %zu after %s", i, after);
    check_forest (r.F[i], w.F[i].M, w.F[i].O, rank, b);
    if (w.F[i].ghost)
      check_ghosts (r.F[i], w.F[i].M, w.F[i].O, rank, b);
  }
  for (size_t i = 0; i < w.C.size (); i++) {
    snprintf (b, 100, "coarse mesh %zu after %s", i, after);
    if (!w.C[i].part || !w.C[i].R.empty ())
      check_cmesh (r.C[i], w.s, w.C[i].part ? w.C[i].R : Ranges (), rank, b);
    else
      MC_CHECK (t8_cmesh_get_num_trees (r.C[i]) == w.s.T (), "%s: number of trees", b);
  }
}
static void
body ()
{
  static const std::vector<std::string> names = { "quad2_flip", "line3", "tri_quad_tri", "hex_pyra_tet", "vertex" };
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
#if defined(__SANITIZE_ADDRESS__)
  bool small = true;
#else
  bool small = false;
#endif
  if (mc::choose (2, "part")) {
    overridden ();
    mc::sample (mc::describe ());
    return;
  }
  World w;
  int mesh = mc::choose (small ? mc::q (1, 3) : mc::q (dbg ? 3 : 5, 5), "mesh");
  w.s.m = mesh_by_name (names[mesh]);
  w.m = &w.s.m;
  w.s.at.assign (w.s.T (), {});
  for (int t = 0; t < w.s.T (); t++)
    w.s.at[t] = attr_set (t, (2 * t + 3) % NATTR);
  w.s.vertices = true;
  w.P = 1 + mc::choose (mc::q (2, 3), "ranks");
  g_prof = small && !mc::thorough () ? 1 : mc::choose (2, "profiling");
  bool deep = mesh == w.P - 1 && g_prof == mesh && !dbg;
  int depth = small ? mc::q (2, 3) : mc::q (deep ? 3 : 2, deep ? 4 : 3);
  std::vector<Action> H;
  World start = w;
  /* a coarse mesh, a forest on it, then anything */
  H.push_back ({ CNEW });
  H.push_back ({ NEWF, 0, w.m->dim () == 0 ? 0 : deep && w.P > 1 && !mc::thorough () ? 1 : mc::choose (2, "level"), mc::choose (2, "keep") == 1 });
  for (auto &x : H)
    step (w, x, nullptr, 0);
  for (int i = 0; i < depth; i++) {
    auto v = actions (w, i + 1 == depth);
    H.push_back (v[mc::choose ((int) v.size (), "action")]);
    step (w, H.back (), nullptr, 0);
  }
  int order = deep || (small && !mc::thorough ()) ? (int) w.F.size () % 2 : mc::choose (2, "release");
  long bal = mem_balance ();
  vmpi::Config cfg;
  cfg.rendezvous = order;
  vmpi::run (w.P, cfg, [&] (int rank) {
    World v = start;
    v.m = &v.s.m;
    Real r;
    r.scheme = raw_scheme (*v.m);
    for (auto &x : H) {
      step (v, x, &r, rank);
      MC_CHECK (r.F.size () == v.F.size () && r.C.size () == v.C.size (), "harness: handles");
      verify (v, r, rank, KNAME[x.kind]);
      if (rank == 0)
        mc::transition ();
    }
    /* release everything, oldest or newest first, verifying what is left */
    while (!v.F.empty () || !v.C.empty ()) {
      bool forest = order ? v.C.empty () : !v.F.empty ();
      if (forest) {
        int i = order ? 0 : (int) v.F.size () - 1;
        while (v.F[i].refs) {
          v.F[i].refs--;
          drop (r.F[i], v.F[i].refs == 0, "release");
        }
        v.F.erase (v.F.begin () + i);
        r.F.erase (r.F.begin () + i);
      }
      else {
        int i = order ? 0 : (int) v.C.size () - 1;
        for (; v.C[i].refs; v.C[i].refs--)
          t8_cmesh_unref (&r.C[i]);
        v.C.erase (v.C.begin () + i);
        r.C.erase (r.C.begin () + i);
      }
      if (v.F.size () + v.C.size () == 1)
        verify (v, r, rank, "releases");
    }
    for (; v.srefs; v.srefs--)
      r.scheme->unref ();
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  MC_CHECK (vmpi::live_wins () == 0, "%d windows not freed", vmpi::live_wins ());
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  cx::init_packages ();
  mc::Options o;
  o.property = "C17";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
