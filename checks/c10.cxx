/* C10: 2:1 balance yields the least balanced refinement. */
#include "fx.hxx"
#include <t8_forest/t8_forest_balance.h>
using namespace fx;

static const std::vector<std::string> meshes
  = { "line", "line3", "line_ring2", "line_self", "quad", "quad2_flip", "quad3_L", "quad_periodic", "quad_moebius", "tri", "tri2", "tri2_flip", "tri_quad_tri", "quad4_ring",
      "tri3_fan", "hex", "hex2_rot", "tet", "tet2", "tet2_rot", "prism", "prism2_tri", "prism2_quad", "pyramid", "pyra2_quad", "pyra2_tri", "hex_prism", "tet_prism",
      "hex_pyra_tet", "pyra_prism", "tet_pyra", "hex_periodic", "sa_line2", "sa_quad2", "sa_hex2", "disconnected", "vertex" };

static void
body ()
{
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  int how = mc::choose (5, "how"); /* no repartition, repartition, adapt+balance, adapt+partition+balance, partitioned coarse mesh */
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  int k = d == 0 ? 1 : d == 1 ? mc::q (dbg ? 3 : 4, 5) : d == 2 ? mc::q (3, 4) : mc::q (dbg || m.cls.size () > 2 || how > 1 ? 2 : 3, 3);
  if (how > 1)
    k = std::min (k, mc::q (d == 1 ? 3 : 2, 3));
  Model M = choose_model_or_chain (m, 0, d == 3 || m.cls.size () > 1 || d == 0 ? 0 : 1, k, d == 1 ? 5 : 4, how < 2 ? (d == 1 ? 12 : d == 2 ? 7 : 4) : 0);
  int n = (int) M.size ();
  bool bal_in = is_balanced (M);
  int P = 1 + mc::choose (how == 4 ? 2 : mc::q (bal_in || dbg || (d > 1 && n > 12) ? 2 : 3, 3), "ranks");
  if (how == 4)
    P++;
  Cuts O = choose_cuts (n, P, n <= mc::q (dbg ? 5 : 7, 12));
  int gh = how < 2 && n <= mc::q (12, 40) ? mc::choose (2, "source_ghosts") : 0;
  vmpi::Config cfg = vmpi::choose_config (mc::q (n <= 6 ? 2 : 1, 2));
  cfg.explore = mc::thorough (); /* message orders are the subject of C16 */
  Model B = balance (M);
  Model start = uniform (m, min_level (M));
  std::vector<int> verdict (P, -1);
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f, g;
    AdaptCtx c { &M };
    if (how == 2 || how == 3) {
      Cuts o = even_cuts ((int) start.size (), P);
      f = build_forest (start, o, rank);
    }
    else
      f = build_forest (M, O, rank, how == 4);
    if (gh) {
      t8_forest_t h;
      t8_forest_init (&h);
      t8_forest_set_copy (h, f);
      t8_forest_set_ghost (h, 1, T8_GHOST_FACES);
      t8_forest_commit (h);
      f = h;
      verdict[rank] = t8_forest_is_balanced (f);
    }
    t8_forest_ref (f);
    t8_forest_init (&g);
    if (how == 2 || how == 3) {
      t8_forest_set_user_data (g, &c);
      t8_forest_set_adapt (g, f, adapt_to_model, 1);
      if (how == 3)
        t8_forest_set_partition (g, nullptr, 0);
      t8_forest_set_balance (g, nullptr, how == 2);
    }
    else
      t8_forest_set_balance (g, f, how == 0);
    t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
    t8_forest_commit (g);
    MC_CHECK (t8_forest_get_global_num_leaf_elements (g) == (t8_gloidx_t) B.size (), "rank %d: balancing %s gives %lld leaves, expected %zu: %s", rank, M.str ().c_str (),
              (long long) t8_forest_get_global_num_leaf_elements (g), B.size (), B.str ().c_str ());
    Cuts R (P + 1);
    for (int p = 0; p <= P; p++) {
      R[p] = (int) t8_shmem_array_get_gloidx (g->element_offsets, p);
      MC_CHECK (p == 0 ? R[p] == 0 : R[p] >= R[p - 1], "rank %d: offset %d is %d", rank, p, R[p]);
    }
    check_forest (g, B, R, rank, "balanced forest");
    if (how == 0) {
      /* without repartition every process keeps its part of the domain */
      for (int p = 0; p < P; p++)
        for (int i = R[p]; i < R[p + 1]; i++) {
          int s = M.covering (B.L[i]);
          MC_CHECK (s >= O[p] && s < O[p + 1], "rank %d: leaf %s of the balanced forest changed its process", rank, lstr (B.L[i]).c_str ());
        }
    }
    MC_CHECK (t8_forest_is_balanced (g), "rank %d: the balanced forest reports that it is not balanced: %s", rank, B.str ().c_str ());
    if (how < 2 || how == 4)
      check_forest (f, M, O, rank, "source of the balance");
    t8_forest_unref (&f);
    t8_forest_unref (&g);
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (O) + cstr (R)) + how * 2 + gh));
  });
  if (gh) {
    bool all = true;
    for (int v : verdict)
      all = all && v;
    MC_CHECK (all == bal_in, "is_balanced says %d on %s, expected %d", (int) all, M.str ().c_str (), (int) bal_in);
    mc::checked ("is_balanced", P);
  }
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C10";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
