/* C16: results do not depend on message timing, buffering and node layout, and nothing deadlocks. */
#include "cx.hxx"
using namespace cx;
int cx::PKG[2];
static const sc_MPI_Comm COMM = sc_MPI_COMM_WORLD;

/* every combination of legal MPI behaviours */
static vmpi::Config
choose_behaviour (int P, int n)
{
  static const vmpi::Config first[] = { { false, false, false, false, 0, true }, { true, true, true, true, 1, true }, { false, true, true, true, 2, true }, { true, false, false, false, 2, true } };
  vmpi::Config c;
  if (n) {
    c = first[mc::choose (n, "mpi")];
    return c;
  }
  int k = mc::choose (16, "mpi");
  c.rendezvous = k & 1;
  c.lazy_recv = k & 2;
  c.nonsync = k & 4;
  c.descending = k & 8;
  c.ppn = mc::choose (P == 4 || P == 6 ? 3 : P == 1 ? 1 : 2, "ppn");
  c.explore = true;
  return c;
}
/* a few typical distributions: even, all in the back, all in the front, empty processes, skewed */
static const int NPAT = 6;
static Cuts
pattern (int n, int P, int k)
{
  Cuts c (P + 1, 0);
  c[P] = n;
  for (int p = 1; p < P; p++)
    switch (k) {
    case 0:
      c[p] = even_cuts (n, P)[p];
      break;
    case 1:
      c[p] = std::min (n, p);
      break;
    case 2:
      c[p] = std::max (0, n - (P - p));
      break;
    case 3: /* only every second process has leaves */
      c[p] = even_cuts (n, (P + 1) / 2)[(p + 1) / 2];
      break;
    case 4:
      c[p] = 0;
      break;
    default:
      c[p] = n;
    }
  return c;
}
static unsigned char
value (int leaf, int b, int round)
{
  return (unsigned char) (leaf * 37 + b * 11 + round * 101 + 5);
}
static void
exchange (t8_forest_t g, const Model &M, const Cuts &O, int rank, const std::vector<int> &G, int round)
{
  int nl = O[rank + 1] - O[rank], size = 3 + 5 * (round % 2);
  sc_array_t *a = sc_array_new_count (size, nl + G.size ());
  for (int i = 0; i < nl; i++)
    for (int b = 0; b < size; b++)
      a->array[i * size + b] = (char) value (O[rank] + i, b, round);
  t8_forest_ghost_exchange_data (g, a);
  for (size_t i = 0; i < G.size (); i++)
    for (int b = 0; b < size; b++)
      MC_CHECK ((unsigned char) a->array[(nl + i) * size + b] == value (G[i], b, round), "rank %d: exchange %d: ghost %zu did not get its data", rank, round, i);
  mc::checked ("exchanged values", G.size ());
  sc_array_destroy (a);
}
static t8_forest_t
with_ghosts (t8_forest_t f, int alg)
{
  t8_forest_t g;
  t8_forest_init (&g);
  t8_forest_set_copy (g, f);
  t8_forest_set_ghost_ext (g, 1, T8_GHOST_FACES, alg);
  t8_forest_commit (g);
  return g;
}
static const std::vector<std::string> meshes = { "quad", "line3", "tri_quad_tri", "quad2_flip", "line_ring2", "hex_pyra_tet", "quad_periodic", "tri3_fan", "disconnected", "prism2_quad", "vertex" };
enum { GHOSTS, PARTITION, BALANCE, ALL, COARSEN, UNIFORM, NFOREST };

static void
forests (bool delayed)
{
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  int what = mc::choose (NFOREST, "pipeline");
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  /* one or two fixed refinement patterns per level */
  Model M = uniform (m, mc::choose (d == 3 || m.cls.size () > 2 || delayed ? 1 : 2, "level") + (d == 1 ? 1 : m.cls.size () == 1 ? 1 : 0));
  int ref = d == 0 || what == UNIFORM ? 0 : mc::choose (mc::q (delayed || dbg ? 1 : 2, 3), "refine");
  for (int r = 0, n0 = (int) M.size (); r <= ref && d > 0; r++)
    M = refine_one (M, r == 0 ? n0 - 1 : r == 1 ? 0 : (int) M.size () / 2);
  Model B = what == BALANCE || what == ALL ? balance (M) : M;
  int n = (int) M.size ();
  int P = 2 + mc::choose (delayed ? 2 : mc::q (3, 4), "ranks");
  int k = what == UNIFORM ? 0 : mc::choose (delayed ? 2 : mc::q (n > 12 ? 4 : NPAT, NPAT), "from");
  bool second = what == GHOSTS || what == PARTITION || what == COARSEN;
  Cuts O = pattern (n, P, k), O2 = pattern (n, P, delayed ? 3 : (k + 1 + (second ? mc::choose (mc::q (dbg || n > 8 ? 1 : 2, NPAT - 1), "to") : 0)) % NPAT);
  int cp = what == UNIFORM || what == PARTITION ? mc::choose (2, "cmesh_partitioned") : 0;
  vmpi::Config cfg = choose_behaviour (P, delayed ? mc::q (dbg ? 1 : 2, 4) : mc::q (dbg ? (n > 8 ? 2 : 4) : n > 12 ? 3 : n > 8 ? 4 : 0, 0));
  cfg.delays = delayed;
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    if (what == UNIFORM) {
      /* two forests of different levels on meshes of their own, nothing in between */
      t8_forest_t a = uniform_forest (m, 0, 1, cp), b = uniform_forest (m, 1, 1, cp);
      Model A0 = uniform (m, 0), A1 = uniform (m, 1);
      check_forest (a, A0, even_cuts ((int) A0.size (), P), rank, "first forest");
      check_ghosts (a, A0, even_cuts ((int) A0.size (), P), rank, "first forest");
      check_forest (b, A1, even_cuts ((int) A1.size (), P), rank, "second forest");
      check_ghosts (b, A1, even_cuts ((int) A1.size (), P), rank, "second forest");
      t8_forest_unref (&a);
      t8_forest_unref (&b);
      return;
    }
    t8_forest_t f = build_forest (M, O, rank, cp);
    if (what == GHOSTS) {
      /* two layers in a row for two distributions, then exchanges in both without a pause */
      t8_forest_ref (f);
      t8_forest_t g = with_ghosts (f, 3);
      t8_forest_ref (f);
      t8_forest_t f2 = repartition (f, O2, rank);
      t8_forest_t h = with_ghosts (f2, 3);
      t8_forest_t h2 = with_ghosts (f, is_balanced (M) && d > 0 ? 1 : 2);
      std::vector<int> G = P > 1 ? ghost_leaves (M, O, rank) : std::vector<int> (), G2 = ghost_leaves (M, O2, rank);
      exchange (g, M, O, rank, G, 0);
      exchange (g, M, O, rank, G, 1);
      exchange (h, M, O2, rank, G2, 2);
      exchange (h2, M, O, rank, G, 3);
      exchange (h, M, O2, rank, G2, 4);
      check_ghosts (g, M, O, rank, "first layer");
      check_ghosts (h, M, O2, rank, "second layer");
      check_ghosts (h2, M, O, rank, "third layer");
      check_forest (h, M, O2, rank, "second distribution");
      t8_forest_unref (&g);
      t8_forest_unref (&h);
      t8_forest_unref (&h2);
    }
    else if (what == PARTITION) {
      /* there, back and there again, with data */
      t8_forest_ref (f);
      t8_forest_t g = repartition (f, O2, rank);
      t8_forest_ref (g);
      t8_forest_t h = repartition (g, O, rank);
      sc_array_t *in = sc_array_new_count (5, O[rank + 1] - O[rank]), *mid = sc_array_new_count (5, O2[rank + 1] - O2[rank]), *out = sc_array_new_count (5, O[rank + 1] - O[rank]);
      for (int i = O[rank]; i < O[rank + 1]; i++)
        for (int b = 0; b < 5; b++)
          in->array[(i - O[rank]) * 5 + b] = (char) value (i, b, 0);
      t8_forest_partition_data (f, g, in, mid);
      t8_forest_partition_data (g, h, mid, out);
      t8_forest_partition_data (h, g, out, mid);
      for (int i = O2[rank]; i < O2[rank + 1]; i++)
        for (int b = 0; b < 5; b++)
          MC_CHECK ((unsigned char) mid->array[(i - O2[rank]) * 5 + b] == value (i, b, 0), "rank %d: leaf %d did not get its data", rank, i);
      for (int i = O[rank]; i < O[rank + 1]; i++)
        for (int b = 0; b < 5; b++)
          MC_CHECK ((unsigned char) out->array[(i - O[rank]) * 5 + b] == value (i, b, 0), "rank %d: leaf %d did not get its data back", rank, i);
      check_forest (f, M, O, rank, "first distribution");
      check_forest (g, M, O2, rank, "second distribution");
      check_forest (h, M, O, rank, "third distribution");
      sc_array_destroy (in);
      sc_array_destroy (mid);
      sc_array_destroy (out);
      t8_forest_unref (&f);
      t8_forest_unref (&g);
      t8_forest_unref (&h);
    }
    else if (what == COARSEN) {
      t8_forest_t g, h;
      t8_forest_init (&g);
      t8_forest_set_partition (g, f, 1);
      t8_forest_commit (g);
      t8_forest_ref (g);
      h = repartition (g, O2, rank);
      t8_forest_t i;
      t8_forest_init (&i);
      t8_forest_set_partition (i, h, 1);
      t8_forest_commit (i);
      /* the same boundaries, wherever the leaves came from */
      Cuts R (P + 1);
      for (int p = 0; p <= P; p++) {
        R[p] = (int) t8_shmem_array_get_gloidx (g->element_offsets, p);
        MC_CHECK (t8_shmem_array_get_gloidx (i->element_offsets, p) == R[p], "rank %d: boundary %d depends on the distribution before", rank, p);
        MC_CHECK (p == 0 ? R[p] == 0 : R[p] >= R[p - 1] && R[p] <= n, "rank %d: boundary %d", rank, p);
      }
      check_forest (g, M, R, rank, "partitioned for coarsening");
      check_forest (i, M, R, rank, "partitioned for coarsening again");
      t8_forest_unref (&g);
      t8_forest_unref (&i);
    }
    else {
      t8_forest_t g;
      t8_forest_init (&g);
      AdaptCtx ctx { &M };
      if (what == ALL) {
        /* adapt (nothing left to do), partition, balance and ghosts in one commit */
        t8_forest_set_user_data (g, &ctx);
        t8_forest_set_adapt (g, f, adapt_to_model, 1);
        t8_forest_set_partition (g, nullptr, 0);
        t8_forest_set_balance (g, nullptr, 0);
      }
      else
        t8_forest_set_balance (g, f, 0);
      t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
      t8_forest_commit (g);
      Cuts E (P + 1); /* where balance puts the boundaries is the subject of C10 */
      for (int p = 0; p <= P; p++) {
        E[p] = (int) t8_shmem_array_get_gloidx (g->element_offsets, p);
        MC_CHECK (p == 0 ? E[p] == 0 : E[p] >= E[p - 1] && E[p] <= (int) B.size (), "rank %d: boundary %d", rank, p);
      }
      check_forest (g, B, E, rank, "balanced forest");
      std::vector<int> G = check_ghosts (g, B, E, rank, "balanced forest");
      exchange (g, B, E, rank, G, 0);
      exchange (g, B, E, rank, G, 1);
      t8_forest_unref (&g);
    }
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
}
static void
cmeshes (bool delayed)
{
  static const std::vector<std::string> names = { "quad4_ring", "tri_quad_tri", "line3", "hex_pyra_tet", "disconnected", "quad_periodic" };
  Spec s;
  s.m = choose_mesh (names);
  const int T = s.T ();
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  int P = 2 + mc::choose (delayed ? 2 : mc::q (dbg ? 2 : 3, 3), "ranks");
  s.at.assign (T, {});
  for (int t = 0; t < T; t++)
    s.at[t] = attr_set (t, (3 * t + 3) % NATTR);
  s.vertices = true;
  /* distributions: a spread selection of all of them */
  auto &all = all_ranges (T, P);
  int want = delayed ? 3 : mc::q (8, 12), stride = std::max (1, (int) all.size () / want);
  int nsel = ((int) all.size () + stride - 1) / stride;
  const Ranges &R1 = all[mc::choose (nsel, "first") * stride], &R2 = all[(mc::choose (nsel, "second") * stride + stride / 2) % all.size ()];
  int bc = mc::choose (delayed ? 1 : 2, "broadcast");
  vmpi::Config cfg = choose_behaviour (P, delayed ? (dbg ? 1 : 2) : mc::q (dbg ? 4 : 0, 0));
  cfg.delays = delayed;
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm, a, b, c;
    t8_cmesh_init (&cm);
    if (bc) {
      if (rank == P - 1)
        specify (cm, s);
      else
        t8_cmesh_destroy (&cm);
      cm = t8_cmesh_bcast (rank == P - 1 ? cm : nullptr, P - 1, COMM);
    }
    else
      specify (cm, s);
    t8_cmesh_commit (cm, COMM);
    auto derive = [&] (t8_cmesh_t from, const Ranges *R) {
      t8_cmesh_t n;
      t8_cmesh_init (&n);
      t8_cmesh_set_derive (n, from);
      if (R)
        t8_cmesh_set_partition_offsets (n, make_offsets (*R, T));
      else
        t8_cmesh_set_partition_uniform (n, 1, new_scheme (s.m));
      t8_cmesh_commit (n, COMM);
      return n;
    };
    a = derive (cm, &R1);
    t8_cmesh_ref (a);
    b = derive (a, &R2);
    t8_cmesh_ref (b);
    c = derive (b, &R1);
    t8_cmesh_t u = derive (c, nullptr);
    check_cmesh (a, s, R1, rank, "first partition");
    check_cmesh (b, s, R2, rank, "second partition");
    Ranges U (P);
    /* the trees of a uniform partition follow from the even distribution */
    {
      Model M = uniform (s.m, 1);
      Cuts e = even_cuts ((int) M.size (), P);
      int next = 0;
      for (int p = 0; p < P; p++) {
        U[p].first = next;
        if (e[p] == e[p + 1])
          continue;
        U[p].first = M.L[e[p]].tree;
        U[p].n = M.L[e[p + 1] - 1].tree - U[p].first + 1;
        U[p].shared = e[p] > 0 && M.L[e[p] - 1].tree == U[p].first;
        next = U[p].first + U[p].n;
      }
    }
    check_cmesh (u, s, U, rank, "uniform partition");
    t8_cmesh_unref (&a);
    t8_cmesh_unref (&b);
    t8_cmesh_unref (&u);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
}
static void
body ()
{
  int part = mc::choose (4, "part");
  if (part & 1)
    cmeshes (part & 2);
  else
    forests (part & 2);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  cx::init_packages ();
  mc::Options o;
  o.property = "C16";
  o.bounds = "";
  o.dev_bound_quick = 1;
  o.dev_bound_thorough = 2;
  return mc::main (argc, argv, o, body);
}
