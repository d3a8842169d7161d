/* C08: repartitioning preserves the sequence of leaves and honours the requested shares. */
#include "fx.hxx"
using namespace fx;

static const std::vector<std::string> meshes = { "line", "line3", "quad", "quad2_flip", "tri", "tri_quad_tri", "hex", "tet", "prism", "pyramid", "hex_pyra_tet",
                                                 "sa_quad2", "disconnected", "pyra2_quad", "quad4_ring", "vertex" };

static std::map<Leaf, double> *g_w;
static double g_w0;
static double
weight (t8_forest_t from, t8_locidx_t lt, t8_locidx_t le)
{
  const t8_scheme *s = t8_forest_get_scheme (from);
  t8_eclass_t tc = t8_forest_get_tree_class (from, lt);
  Leaf l = leaf_of (from, lt, tc, s, t8_forest_get_leaf_element_in_tree (from, lt, le));
  auto it = g_w->find (l);
  return it == g_w->end () ? g_w0 : it->second;
}
/* forest with holes: remove the chosen leaves by adaptation */
static int
remove_cb (t8_forest_t forest, t8_forest_t from, t8_locidx_t ltree, const t8_eclass_t tc, t8_locidx_t, const t8_scheme_c *s, const int, const int, t8_element_t *el[])
{
  const std::set<Leaf> *R = (const std::set<Leaf> *) t8_forest_get_user_data (forest);
  return R->count (leaf_of (from, ltree, tc, s, el[0])) ? -2 : 0;
}

enum { DEFAULT, WEIGHTED, OFFSETS, GATHER, HOLES, NKIND };

static void
body ()
{
  int kind = mc::choose (NKIND, "kind");
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  Model M = choose_model (m, 0, d == 0 ? 1 : d == 1 ? 2 : 1, d < 3 && m.cls.size () < 2 && (d == 1 || kind != OFFSETS) ? mc::q (dbg ? 1 : 2, 3) : 1, 3);
  int n = (int) M.size ();
  bool big = kind == WEIGHTED || kind == OFFSETS; /* these multiply the initial distributions */
  int P = 1 + mc::choose (n <= (big ? 4 : 8) ? mc::q (dbg ? 3 : 4, 5) : mc::q (big && n > 10 ? 2 : 3, 4), "ranks");
  Cuts O = choose_cuts (n, P, n <= mc::q (big ? 5 : 9, 20));
  Cuts O2;
  std::map<Leaf, double> W;
  double w0 = 1;
  int gather_rank = 0;
  std::set<Leaf> holes;
  Model M2 = M;
  Cuts O1 = O;
  switch (kind) {
  case DEFAULT:
    O2 = even_cuts (n, P);
    break;
  case WEIGHTED: {
    static const double D[] = { 1, 0.1, 1. / 3, 1e-3 };
    static const double X[] = { 0.7, 100, 1, 3, 1e-9 };
    w0 = D[mc::choose (mc::q (2, 4), "weight")];
    int last = -1;
    for (int s = 0; s < mc::q (n <= 4 ? 2 : 1, 2); s++) {
      int c = mc::choose (n - last, "heavy_leaf");
      if (c == 0)
        break;
      last += c;
      W[M.L[last]] = X[mc::choose (mc::q (n <= 4 ? 4 : 2, 5), "heavy_weight")];
    }
    break;
  }
  case OFFSETS:
    if (P < 2)
      mc::prune ();
    O2 = choose_cuts (n, P, n <= mc::q (4, 12));
    break;
  case GATHER:
    gather_rank = mc::choose (P, "gather");
    O2.assign (P + 1, 0);
    for (int p = 0; p <= P; p++)
      O2[p] = p <= gather_rank ? 0 : n;
    break;
  case HOLES: {
    int last = -1;
    for (int s = 0; s < mc::q (n <= 6 ? 3 : 1, 2); s++) {
      int c = mc::choose (n - last, "hole");
      if (c == 0)
        break;
      last += c;
      holes.insert (M.L[last]);
    }
    if (holes.empty ())
      mc::prune ();
    M2.L.clear ();
    for (int p = 0; p < P; p++) {
      std::map<int, int> kept;
      for (int i = O[p]; i < O[p + 1]; i++) {
        kept[M.L[i].tree] += 0;
        if (!holes.count (M.L[i]))
          M2.L.push_back (M.L[i]), kept[M.L[i].tree]++;
      }
      for (auto &k : kept)
        if (!k.second)
          mc::prune (); /* emptying a local tree is documented as unsupported */
      O1[p + 1] = (int) M2.L.size ();
    }
    O2 = even_cuts ((int) M2.size (), P);
  }
  }
  /* alone, after an adaptation, before a balance that has nothing to do, between both: in one commit */
  int comb = 0;
  Model M0 = uniform (m, 0);
  if (d > 0 && kind <= OFFSETS && P > 1 && n <= mc::q (12, 30) && O == even_cuts (n, P))
    comb = mc::choose (is_balanced (M) ? 4 : 2, "combined");
  int cm_part = (n > 12 || (kind == WEIGHTED && n > 4)) && !mc::thorough () ? 0 : mc::choose (2, "cmesh_partitioned");
  vmpi::Config cfg = vmpi::choose_config (kind == DEFAULT ? mc::q (n <= 6 ? 4 : 2, 6) : mc::q (1, 2));
  long bal = mem_balance ();
  g_w = &W;
  g_w0 = w0;
  vmpi::run (P, cfg, [&] (int rank) {
    AdaptCtx ctx { &M };
    const Model &S = comb & 1 ? M0 : M2;
    const Cuts OS = comb & 1 ? even_cuts ((int) M0.size (), P) : O1;
    t8_forest_t f = comb & 1 ? build_forest (M0, OS, rank, cm_part) : build_forest (M, O, rank, cm_part);
    if (kind == HOLES) {
      t8_forest_t g;
      t8_forest_init (&g);
      t8_forest_set_user_data (g, &holes);
      t8_forest_set_adapt (g, f, remove_cb, 0);
      t8_forest_commit (g);
      f = g;
      check_forest (f, M2, O1, rank, "forest with holes");
    }
    t8_forest_t g;
    t8_forest_ref (f);
    if (kind == GATHER)
      g = t8_forest_new_gather (f, gather_rank);
    else {
      t8_forest_init (&g);
      if (comb & 1) {
        t8_forest_set_user_data (g, &ctx);
        t8_forest_set_adapt (g, f, adapt_to_model, 1);
      }
      t8_forest_set_partition (g, comb & 1 ? nullptr : f, 0);
      if (comb & 2)
        t8_forest_set_balance (g, nullptr, 1);
      if (kind == WEIGHTED)
        t8_forest_set_partition_weight_function (g, weight);
      if (kind == OFFSETS)
        t8_forest_set_partition_offset (g, O2[rank]);
      t8_forest_commit (g);
    }
    Cuts R = O2;
    if (kind == WEIGHTED) {
      /* every offset is at the first element whose accumulated weight exceeds the share of the lower processes;
       * where the sum and the share agree up to rounding, both neighbours are right */
      MC_CHECK (g->element_offsets != nullptr, "no element offsets");
      long double tot = 0;
      for (auto &l : M.L)
        tot += W.count (l) ? W[l] : w0;
      R.assign (P + 1, 0);
      for (int p = 0; p <= P; p++) {
        R[p] = (int) t8_shmem_array_get_gloidx (g->element_offsets, p);
        MC_CHECK (R[p] >= 0 && R[p] <= n && (p == 0 || R[p] >= R[p - 1]), "weighted partition: rank %d: offsets are not ascending: entry %d is %d", rank, p, R[p]);
      }
      MC_CHECK (R[0] == 0 && R[P] == n, "weighted partition: rank %d: offsets start at %d and end at %d", rank, R[0], R[P]);
      for (int p = 1; p < P; p++) {
        long double before = 0, share = tot * p / P, eps = 1e-12L * tot;
        for (int i = 0; i < R[p]; i++)
          before += W.count (M.L[i]) ? W[M.L[i]] : w0;
        long double own = R[p] < n ? (W.count (M.L[R[p]]) ? W[M.L[R[p]]] : w0) : 0;
        MC_CHECK (before <= share + eps && (R[p] == n || before + own >= share - eps) && R[p] < n,
                  "weighted partition: rank %d: offset of rank %d is %d: weight before it %Lg, of it %Lg, share of the lower ranks %Lg", rank, p, R[p], before, own, share);
      }
      mc::checked ("weighted offsets", P);
    }
    check_forest (g, M2, R, rank, "partitioned forest");
    MC_CHECK (g->incomplete_trees == (kind == HOLES), "rank %d: incomplete flag", rank);
    if (cm_part && R[rank] < R[rank + 1]) {
      t8_cmesh_t cm = t8_forest_get_cmesh (g);
      MC_CHECK (t8_cmesh_get_first_treeid (cm) == M2.L[R[rank]].tree && t8_cmesh_get_num_local_trees (cm) == t8_forest_get_num_local_trees (g),
                "rank %d: the coarse mesh was not partitioned along: first tree %lld, %d trees", rank, (long long) t8_cmesh_get_first_treeid (cm), t8_cmesh_get_num_local_trees (cm));
    }
    check_forest (f, S, OS, rank, "source of the partition");
    t8_forest_unref (&f);
    t8_forest_unref (&g);
    if (rank == 0)
      mc::state (mc::mix (mc::mix (M2.hash (), mc::hash_str (cstr (O1) + cstr (R))), kind));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C08";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
