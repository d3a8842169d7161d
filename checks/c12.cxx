/* C12: element data follows its element in ghost exchange and repartition. */
#include "fx.hxx"
using namespace fx;

static const std::vector<std::string> gmeshes
  = { "line", "line_ring2", "quad", "quad2_flip", "quad3_L", "quad_periodic", "tri", "tri2_flip", "tri_quad_tri", "quad4_ring", "hex", "hex2_rot", "tet", "tet2_rot", "prism",
      "prism2_quad", "pyramid", "pyra2_quad", "hex_pyra_tet", "pyra_prism", "sa_line2", "sa_quad2", "disconnected", "line3", "tri3_fan" };
static const std::vector<std::string> pmeshes = { "line", "line3", "quad", "quad2_flip", "tri", "tri_quad_tri", "hex", "tet", "prism", "pyramid", "hex_pyra_tet", "sa_quad2", "disconnected", "quad4_ring", "vertex" };

static const int SIZES[] = { 8, 1, 3, 40, 0 };
static unsigned char
value (int leaf, int byte, int round)
{
  return (unsigned char) (leaf * 37 + byte * 11 + round * 101 + 5 + (leaf >> 6) * 7);
}
static void
fill (sc_array_t *a, size_t at, int leaf, int round)
{
  unsigned char *p = (unsigned char *) a->array + at * a->elem_size;
  for (size_t b = 0; b < a->elem_size; b++)
    p[b] = value (leaf, (int) b, round);
}
static bool
holds (const sc_array_t *a, size_t at, int leaf, int round)
{
  const unsigned char *p = (const unsigned char *) a->array + at * a->elem_size;
  for (size_t b = 0; b < a->elem_size; b++)
    if (p[b] != value (leaf, (int) b, round))
      return false;
  return true;
}

static void
ghosts (bool dbg)
{
  const Mesh &m = choose_mesh (gmeshes);
  int d = m.dim ();
  bool multi = m.cls.size () > 1;
  Model M = choose_model_or_chain (m, 0, d == 1 ? 3 : multi && d == 3 ? 0 : 1, d == 1 ? mc::q (3, 4) : mc::q (multi || dbg ? 1 : 2, 3), 4, d == 1 ? 8 : d == 2 ? 5 : 4);
  int n = (int) M.size ();
  int P = 2 + mc::choose (n <= mc::q (6, 9) ? mc::q (dbg ? 2 : 3, 4) : n <= 16 ? mc::q (dbg ? 1 : 2, 3) : mc::q (1, 2), "ranks");
  Cuts O = choose_cuts (n, P, n <= mc::q (dbg ? 6 : 8, 16) || (P == 2 && n <= mc::q (16, 64)));
  int sz = mc::choose (n <= mc::q (6, 40) ? 4 : n <= 10 ? 2 : 1, "size");
  int size = SIZES[sz];
  int how = n <= mc::q (8, 40) && (!sz || mc::thorough ()) ? mc::choose (4, "ghost_algorithm") : 0; /* 3, 2, 1 or the layer of a repartitioned forest */
  if (how == 2 && !is_balanced (M))
    mc::prune ();
  vmpi::Config cfg = vmpi::choose_config (mc::q (n <= 5 && !how ? 6 : 1, 6));
  cfg.explore = mc::thorough ();
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = build_forest (M, how == 3 ? even_cuts (n, P) : O, rank), g;
    t8_forest_init (&g);
    if (how == 3) {
      t8_forest_set_partition (g, f, 0);
      t8_forest_set_partition_offset (g, O[rank]);
      t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
    }
    else {
      t8_forest_set_copy (g, f);
      t8_forest_set_ghost_ext (g, 1, T8_GHOST_FACES, 3 - how);
    }
    t8_forest_commit (g);
    std::vector<int> G = check_ghosts (g, M, O, rank, "forest with ghosts");
    int nl = O[rank + 1] - O[rank];
    sc_array_t *a[2];
    for (int r = 0; r < 2; r++) {
      a[r] = sc_array_new_count (size, nl + G.size ());
      if (a[r]->elem_count)
        memset (a[r]->array, 0xee, size * (nl + G.size ()));
      for (int i = 0; i < nl; i++)
        fill (a[r], i, O[rank] + i, r);
    }
    /* two exchanges in a row, without anything in between */
    t8_forest_ghost_exchange_data (g, a[0]);
    t8_forest_ghost_exchange_data (g, a[1]);
    for (int r = 0; r < 2; r++) {
      for (int i = 0; i < nl; i++)
        MC_CHECK (holds (a[r], i, O[rank] + i, r), "ghost exchange: rank %d: the data of local leaf %d changed", rank, i);
      for (size_t i = 0; i < G.size (); i++)
        MC_CHECK (holds (a[r], nl + i, G[i], r), "ghost exchange %d: rank %d: ghost %zu (%s) did not get the data of its owner", r, rank, i, lstr (M.L[G[i]]).c_str ());
      sc_array_destroy (a[r]);
    }
    mc::checked ("exchanged values", 2 * (nl + G.size ()));
    t8_forest_unref (&g);
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (O)) + size * 4 + how));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}
static void
partition (bool dbg)
{
  const Mesh &m = choose_mesh (pmeshes);
  int d = m.dim ();
  Model M = choose_model (m, 0, d == 0 ? 1 : d == 1 ? 3 : 1, d == 0 ? 1 : d == 1 ? mc::q (dbg || m.cls.size () > 1 ? 1 : 2, 3) : 1, 3);
  int n = (int) M.size ();
  int P = 1 + mc::choose (n <= 6 ? mc::q (dbg ? 3 : 4, 4) : mc::q (dbg ? 2 : 3, 4), "ranks");
  Cuts O = choose_cuts (n, P, n <= mc::q (dbg ? 3 : 4, 10) || P < 3);
  Cuts O2 = choose_cuts (n, P, n <= mc::q (dbg ? 3 : 4, 8) || (P < 3 && n <= mc::q (6, 12)));
  int size = SIZES[mc::choose (n <= mc::q (3, 12) ? 4 : n <= mc::q (6, 20) ? 2 : 1, "size")];
  int cp = n <= mc::q (4, 40) ? mc::choose (2, "cmesh_partitioned") : 0;
  vmpi::Config cfg = vmpi::choose_config (mc::q (n <= 3 ? 6 : n <= 5 ? 2 : 1, n < 8 ? 6 : 2));
  cfg.explore = mc::thorough ();
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = build_forest (M, O, rank, cp);
    t8_forest_ref (f);
    t8_forest_t g = repartition (f, O2, rank);
    int nf = O[rank + 1] - O[rank], ng = O2[rank + 1] - O2[rank];
    sc_array_t *in = sc_array_new_count (size, nf), *out = sc_array_new_count (size, ng), *back = sc_array_new_count (size, nf);
    if (ng)
      memset (out->array, 0xee, (size_t) size * ng);
    if (nf)
      memset (back->array, 0xee, (size_t) size * nf);
    for (int i = 0; i < nf; i++)
      fill (in, i, O[rank] + i, 0);
    t8_forest_partition_data (f, g, in, out);
    for (int i = 0; i < nf; i++)
      MC_CHECK (holds (in, i, O[rank] + i, 0), "partition data: rank %d: the input of leaf %d changed", rank, i);
    for (int i = 0; i < ng; i++)
      MC_CHECK (holds (out, i, O2[rank] + i, 0), "partition data: rank %d: leaf %d (%s) did not get its data", rank, i, lstr (M.L[O2[rank] + i]).c_str ());
    /* and back */
    t8_forest_partition_data (g, f, out, back);
    for (int i = 0; i < nf; i++)
      MC_CHECK (holds (back, i, O[rank] + i, 0), "partition data back: rank %d: leaf %d (%s) did not get its data", rank, i, lstr (M.L[O[rank] + i]).c_str ());
    mc::checked ("transferred values", 2 * nf + ng);
    check_forest (f, M, O, rank, "old forest");
    check_forest (g, M, O2, rank, "new forest");
    sc_array_destroy (in);
    sc_array_destroy (out);
    sc_array_destroy (back);
    t8_forest_unref (&f);
    t8_forest_unref (&g);
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (O) + cstr (O2)) + size * 4 + cp));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}
static void
body ()
{
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  if (mc::choose (2, "kind"))
    partition (dbg);
  else
    ghosts (dbg);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C12";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
