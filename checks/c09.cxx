/* C09: partitioning for coarsening never splits a family. */
#include "fx.hxx"
using namespace fx;

static const std::vector<std::string> meshes = { "line", "line3", "quad", "quad2", "tri", "tri_quad_tri", "hex", "tet", "prism", "pyramid", "hex_pyra_tet", "sa_line2", "sa_quad2", "tet_pyra", "vertex" };

static const Model *g_M;
static int g_heavy;
static double
weight (t8_forest_t from, t8_locidx_t lt, t8_locidx_t le)
{
  const t8_scheme *s = t8_forest_get_scheme (from);
  Leaf l = leaf_of (from, lt, t8_forest_get_tree_class (from, lt), s, t8_forest_get_leaf_element_in_tree (from, lt, le));
  return g_M->find (l) == g_heavy ? 5 : 1;
}

static void
body ()
{
  int kind = mc::choose (3, "kind"); /* plain, weighted, explicit offsets */
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  Model M = choose_model_or_chain (m, 0, d == 0 ? 1 : d == 1 ? mc::q (3, 4) : mc::q (m.cls.size () == 1 && !dbg && !kind ? 2 : 1, 2), mc::q (d == 1 && !dbg ? 2 : 1, 3), 3, kind == 1 ? 0 : d == 1 ? 9 : d == 2 ? 5 : 3);
  int n = (int) M.size ();
  int P = 2 + mc::choose (n <= 9 ? mc::q (dbg || kind ? 2 : 3, 4) : n < 30 && !kind ? mc::q (2, 3) : mc::q (1, 2), "ranks");
  Cuts O = choose_cuts (n, P, n <= mc::q (kind ? 5 : 8, 12) || P == 2);
  Cuts plain;
  int heavy = -1;
  if (kind == 0)
    plain = even_cuts (n, P);
  if (kind == 1) {
    /* integer weights: the offset of rank p is the first element whose accumulated weight exceeds W*p/P */
    heavy = mc::choose (n, "heavy");
    plain.assign (P + 1, 0);
    plain[P] = n;
    long tot = n + 4;
    for (int p = 1; p < P; p++) {
      long acc = 0;
      int e = 0;
      for (; e < n; e++) {
        acc += e == heavy ? 5 : 1;
        if (acc * P > tot * p)
          break;
      }
      plain[p] = e;
    }
  }
  if (kind == 2)
    plain = choose_cuts (n, P, n <= mc::q (6, 12) || P == 2);
  /* expected: boundaries inside a complete family move to one of its ends */
  std::vector<std::pair<int, int>> fam (n + 1, { -1, -1 });
  for (int i = 0; i < n; i++) {
    const Leaf &l = M.L[i];
    if (l.path.empty () || l.path.back () != 0)
      continue;
    Leaf par = l;
    par.path.pop_back ();
    auto r = M.range (par);
    bool flat = true;
    for (int k = r.first; k < r.second; k++)
      flat = flat && M.L[k].level () == l.level ();
    if (flat)
      for (int k = r.first + 1; k < r.second; k++)
        fam[k] = r;
  }
  /* alone, after an adaptation, before a balance that has nothing to do, between both: in one commit */
  int comb = 0;
  Model M0 = uniform (m, 0);
  if (d > 0 && n <= mc::q (16, 30) && O == even_cuts (n, P))
    comb = mc::choose (is_balanced (M) ? 4 : 2, "combined");
  vmpi::Config cfg = vmpi::choose_config (mc::q (n <= 10 && !kind ? 4 : 2, 6));
  long bal = mem_balance ();
  g_M = &M;
  g_heavy = heavy;
  vmpi::run (P, cfg, [&] (int rank) {
    AdaptCtx ctx { &M };
    const Model &S = comb & 1 ? M0 : M;
    const Cuts OS = comb & 1 ? even_cuts ((int) M0.size (), P) : O;
    t8_forest_t f = build_forest (S, OS, rank);
    t8_forest_ref (f);
    t8_forest_t g;
    t8_forest_init (&g);
    if (comb & 1) {
      t8_forest_set_user_data (g, &ctx);
      t8_forest_set_adapt (g, f, adapt_to_model, 1);
    }
    t8_forest_set_partition (g, comb & 1 ? nullptr : f, 1);
    if (comb & 2)
      t8_forest_set_balance (g, nullptr, 1);
    if (kind == 1)
      t8_forest_set_partition_weight_function (g, weight);
    if (kind == 2)
      t8_forest_set_partition_offset (g, plain[rank]);
    t8_forest_commit (g);
    Cuts R (P + 1);
    for (int p = 0; p <= P; p++) {
      R[p] = (int) t8_shmem_array_get_gloidx (g->element_offsets, p);
      MC_CHECK (p == 0 ? R[p] == 0 : (R[p] >= R[p - 1] && R[p] <= n), "rank %d: offset %d is %d", rank, p, R[p]);
    }
    for (int p = 1; p < P; p++) {
      auto fr = fam[plain[p]];
      if (fr.first < 0)
        MC_CHECK (R[p] == plain[p], "rank %d: boundary %d moved from %d to %d although no family is split", rank, p, plain[p], R[p]);
      else
        MC_CHECK (R[p] == fr.first || R[p] == fr.second, "rank %d: boundary %d splits the family %d..%d and moved from %d to %d", rank, p, fr.first, fr.second - 1, plain[p], R[p]);
      MC_CHECK (fam[R[p]].first < 0, "rank %d: boundary %d at %d splits a family", rank, p, R[p]);
    }
    mc::checked ("boundaries", P);
    check_forest (g, M, R, rank, "forest partitioned for coarsening");
    check_forest (f, S, OS, rank, "source of the partition");
    t8_forest_unref (&f);
    t8_forest_unref (&g);
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (O) + cstr (R))));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C09";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
