/* C06: uniform forests. */
#include "fx.hxx"
using namespace fx;

static int
maxbound (const Mesh &m)
{
  int n = (int) m.cls.size ();
  if (m.dim () == 0)
    return 1;
  if (m.dim () == 1)
    return mc::q (4, 6);
  if (m.dim () == 2)
    return n > 2 ? mc::q (2, 3) : mc::q (3, 4);
  return T8_ENABLE_DEBUG && !mc::thorough () ? (n > 2 ? 1 : 2) : mc::q (2, n > 1 ? 2 : 3);
}

/* exact number of elements of a class on a level */
static long
count (int cls, int level)
{
  long pyr = 1, tet = 0;
  if (cls != Y)
    return 1L << (DIM[cls] * level);
  for (int l = 0; l < level; l++) {
    long p = 6 * pyr;
    tet = 4 * pyr + 8 * tet;
    pyr = p;
  }
  return pyr + tet;
}
/* the bounds for any number of elements, up to the largest: no element is created */
static void
bounds_only (const Mesh &m, int level, int P, int part, int alg)
{
  std::vector<long> off { 0 }; /* first element of each tree */
  for (int c : m.cls)
    off.push_back (off.back () + count (c, level));
  const long N = off.back ();
  auto cut = [&] (int p) { return (long) ((__int128) N * p / P); };
  auto tree = [&] (long e) { return (int) (std::upper_bound (off.begin (), off.end (), e) - off.begin ()) - 1; };
  vmpi::Config cfg;
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm = build_cmesh (m);
    const t8_scheme *s = new_scheme (m);
    for (int step = 0; step < std::min (part, 2); step++) {
      t8_cmesh_t c2;
      t8_cmesh_init (&c2);
      t8_cmesh_set_derive (c2, cm);
      s->ref ();
      t8_cmesh_set_partition_uniform (c2, part >= 2 && step == 0 ? (level + part - 1) % 3 : level, s);
      t8_cmesh_commit (c2, sc_MPI_COMM_WORLD);
      cm = c2;
    }
    t8_gloidx_t ft = -9, lt = -9, cb = -9, ce = -9;
    int8_t sh = -9;
    if (alg == 0)
      t8_cmesh_uniform_bounds_equal_element_count (cm, level, s, &ft, &cb, &lt, &ce, &sh);
    else
      t8_cmesh_uniform_bounds_for_irregular_refinement (cm, level, s, &ft, &cb, &lt, &ce, &sh, sc_MPI_COMM_WORLD);
    const long a = cut (rank), b = cut (rank + 1);
    if (a == b) {
      /* the first tree that is not shared with a process before */
      const int next = (int) (std::lower_bound (off.begin (), off.end (), a) - off.begin ());
      MC_CHECK (ft == next && lt == next - 1, "bounds %d of %ld elements: rank %d of %d should be empty but gets trees %lld..%lld, expected %d..%d", alg, N, rank, P, (long long) ft, (long long) lt, next, next - 1);
      MC_CHECK (sh == 0, "bounds %d of %ld elements: the empty rank %d of %d shares its first tree", alg, N, rank, P);
    }
    else {
      const int ta = tree (a), tb = tree (b - 1);
      MC_CHECK (ft == ta && lt == tb, "bounds %d of %ld elements: rank %d of %d: trees %lld..%lld, expected %d..%d", alg, N, rank, P, (long long) ft, (long long) lt, ta, tb);
      MC_CHECK (cb == a - off[ta] && ce == b - off[tb], "bounds %d of %ld elements: rank %d of %d: elements %lld..%lld, expected %ld..%ld", alg, N, rank, P, (long long) cb, (long long) ce, a - off[ta], b - off[tb]);
      MC_CHECK (sh == (a > off[ta]), "bounds %d of %ld elements: rank %d of %d: first tree shared is %d", alg, N, rank, P, sh);
      if (part) {
        MC_CHECK (t8_cmesh_get_first_treeid (cm) == ta && t8_cmesh_get_num_local_trees (cm) == tb - ta + 1, "mesh of %ld trees partitioned for %ld elements: rank %d of %d has trees %lld + %d, expected %d..%d", (long) m.cls.size (), N,
                  rank, P, (long long) t8_cmesh_get_first_treeid (cm), t8_cmesh_get_num_local_trees (cm), ta, tb);
      }
    }
    mc::checked ("uniform bounds", 4);
    if (part && N <= 600) {
      t8_forest_t f = t8_forest_new_uniform (cm, s, level, 0, sc_MPI_COMM_WORLD);
      MC_CHECK (t8_forest_get_local_num_leaf_elements (f) == b - a && t8_forest_get_first_local_leaf_element_id (f) == a && t8_forest_get_global_num_leaf_elements (f) == N,
                "uniform forest of %ld elements: rank %d of %d has %d from %lld", N, rank, P, t8_forest_get_local_num_leaf_elements (f), (long long) t8_forest_get_first_local_leaf_element_id (f));
      t8_forest_unref (&f);
      mc::checked ("uniform forests", 3);
    }
    else {
      t8_cmesh_unref (&cm);
      s->unref ();
    }
    if (rank == 0)
      mc::state (mc::mix (mc::mix (N, P), part * 10 + alg));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}
static void
deep ()
{
  static const std::vector<std::vector<int>> lists = { { L }, { L, L, L }, { Q, T, Q }, { Q, Q, Q, Q, Q, Q, Q }, { H }, { H, E, P }, { Y }, { Y, Y, Y }, { H, Y, E }, { E, E, E, E, E } };
  int i = mc::choose ((int) lists.size (), "trees");
  Mesh m = mk ("trees", lists[i], {});
  int maxlevel = m.dim () == 1 ? 28 : m.dim () == 2 ? 29 : 19;
  int level = mc::choose (maxlevel + 1, "level");
  int P = 1 + mc::choose (mc::q (17, 40), "ranks");
  bool mixed = m.has_pyramid () && m.cls.size () > 1 && i != 7;
  bounds_only (m, level, P, mc::choose (2, "partitioned"), mixed ? 1 : mc::choose (2, "function"));
}
/* every small mesh, from any uniform partition to any other, also with more processes than elements */
static void
repartitions ()
{
  const Mesh &m = mc::pick (catalogue (), "mesh");
  int level = mc::choose (m.dim () ? 3 : 1, "level");
  int P = 1 + mc::choose (T8_ENABLE_DEBUG && !mc::thorough () ? 13 : mc::q (25, 40), "ranks");
  bounds_only (m, level, P, m.dim () ? 1 + mc::choose (3, "from") : 1, 1);
}
static void
many_trees ()
{
  int cls = mc::pick<int> ({ L, Y }, "class");
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  int n = 1 + mc::choose (dbg ? (cls == L ? 46 : 11) : mc::q (cls == L ? 300 : 30, cls == L ? 600 : 80), "trees");
  Mesh m = mk ("trees", std::vector<int> (n, cls), {});
  int level = mc::choose (cls == L ? 2 : 4, "level");
  int P = 1 + mc::choose (dbg ? 7 : mc::q (13, 33), "ranks");
  bounds_only (m, level, P, 1 + mc::choose (3, "from"), 1);
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C06";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    int kind = mc::choose (4, "kind");
    if (kind) {
      kind == 1 ? deep () : kind == 2 ? many_trees () : repartitions ();
      mc::sample (mc::describe ());
      return;
    }
    int mi = mc::choose ((int) catalogue ().size () + 3, "mesh");
    static std::vector<Mesh> many;
    if (many.empty ()) {
      /* more trees than processes, with classes that refine differently */
      many.push_back (mk ("mixed7", { Y, H, Y, E, P, Y, H }, {}));
      many.push_back (mk ("lines9", { L, L, L, L, L, L, L, L, L }, {}));
      many.push_back (mk ("pyra5", { Y, Y, Y, Y, Y }, { { 0, 1, 4, 4, 1 }, { 2, 3, 0, 3, 1 } }));
    }
    const Mesh &m = mi < (int) catalogue ().size () ? catalogue ()[mi] : many[mi - catalogue ().size ()];
    int level = mc::choose (maxbound (m) + 1, "level");
    if (m.cls.size () >= 5 && m.dim () == 3 && level > 1 && !mc::thorough ())
      mc::prune ();
    int P = 1 + mc::choose (mc::q (9, 17), "ranks");
    /* coarse mesh: replicated; or partitioned by the level; or partitioned by the level from a skewed partition */
    int part = mc::choose (P == 1 ? 1 : 3, "cmesh");
    int skew = 0;
    if (part == 2)
      skew = mc::choose (std::min (3, (int) m.cls.size () + 1), "skew");
    vmpi::Config cfg = vmpi::choose_config (mc::q (4, 6));
    Model M = uniform (m, level);
    Cuts O = even_cuts ((int) M.size (), P);
    long bal = mem_balance ();
    vmpi::run (P, cfg, [&] (int rank) {
      t8_cmesh_t cm = build_cmesh (m);
      const t8_scheme *s = new_scheme (m);
      if (part == 2) {
        /* first give everything behind the first skew trees to the last rank */
        t8_cmesh_t c2;
        int K = (int) m.cls.size ();
        int first = rank == 0 ? 0 : skew, last = rank == 0 ? skew - 1 : (rank == P - 1 ? K - 1 : skew - 1);
        if (rank > 0 && rank < P - 1)
          first = skew, last = skew - 1;
        t8_cmesh_init (&c2);
        t8_cmesh_set_derive (c2, cm);
        t8_shmem_array_t off;
        t8_shmem_init (sc_MPI_COMM_WORLD);
        t8_shmem_array_init (&off, sizeof (t8_gloidx_t), P + 1, sc_MPI_COMM_WORLD);
        if (t8_shmem_array_start_writing (off)) {
          for (int p = 0; p <= P; p++)
            t8_shmem_array_set_gloidx (off, p, p == 0 ? 0 : p == P ? K : skew);
        }
        t8_shmem_array_end_writing (off);
        t8_cmesh_set_partition_offsets (c2, off);
        t8_cmesh_commit (c2, sc_MPI_COMM_WORLD);
        cm = c2;
      }
      if (part) {
        t8_cmesh_t c2;
        t8_cmesh_init (&c2);
        t8_cmesh_set_derive (c2, cm);
        s->ref ();
        t8_cmesh_set_partition_uniform (c2, level, s);
        t8_cmesh_commit (c2, sc_MPI_COMM_WORLD);
        cm = c2;
      }
      /* the predicted bounds */
      for (int alg = 0; alg < 2; alg++) {
        if (alg == 0 && m.has_pyramid () && (m.cls.size () > 1))
          continue; /* equal counts per tree are a precondition of the first function */
        t8_gloidx_t ft = -9, lt = -9, cb = -9, ce = -9;
        int8_t sh = -9;
        if (alg == 0)
          t8_cmesh_uniform_bounds_equal_element_count (cm, level, s, &ft, &cb, &lt, &ce, &sh);
        else
          t8_cmesh_uniform_bounds_for_irregular_refinement (cm, level, s, &ft, &cb, &lt, &ce, &sh, sc_MPI_COMM_WORLD);
        int a = O[rank], b = O[rank + 1];
        if (a == b) {
          MC_CHECK (ft > lt || cb >= ce, "bounds %d: rank %d should be empty but gets trees %lld..%lld", alg, rank, (long long) ft, (long long) lt);
          continue;
        }
        int ta = M.L[a].tree, tb = M.L[b - 1].tree;
        auto first_of = [&] (int t) {
          int i = 0;
          while (M.L[i].tree < t)
            i++;
          return i;
        };
        MC_CHECK (ft == ta && lt == tb, "bounds %d: rank %d of %d: trees %lld..%lld, expected %d..%d", alg, rank, P, (long long) ft, (long long) lt, ta, tb);
        MC_CHECK (cb == a - first_of (ta) && ce == b - first_of (tb), "bounds %d: rank %d of %d: elements %lld..%lld, expected %d..%d", alg, rank, P,
                  (long long) cb, (long long) ce, a - first_of (ta), b - first_of (tb));
        MC_CHECK (sh == (a > first_of (ta)), "bounds %d: rank %d of %d: first tree shared is %d", alg, rank, P, sh);
        mc::checked ("uniform bounds", 5);
      }
      t8_forest_t f = t8_forest_new_uniform (cm, s, level, 0, sc_MPI_COMM_WORLD);
      check_forest (f, M, O, rank, "uniform forest");
      if (rank == 0)
        mc::state (mc::mix (mc::mix (M.hash (), P), part * 10 + skew));
      t8_forest_unref (&f);
    });
    MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
    MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
    mc::sample (mc::describe ());
  });
}
