/* C11: the ghost layer is exactly the set of remote face neighbours. */
#include "fx.hxx"
using namespace fx;

static const std::vector<std::string> meshes
  = { "line", "line3", "line_ring2", "line_self", "quad", "quad2_flip", "quad3_L", "quad_periodic", "quad_moebius", "tri", "tri2", "tri2_flip", "tri_quad_tri", "quad4_ring",
      "tri3_fan", "hex", "hex2_rot", "tet", "tet2", "tet2_rot", "prism", "prism2_tri", "prism2_quad", "pyramid", "pyra2_quad", "pyra2_tri", "hex_prism", "tet_prism",
      "hex_pyra_tet", "pyra_prism", "tet_pyra", "hex_periodic", "sa_line2", "sa_quad2", "sa_hex2", "disconnected", "vertex" };

enum { COPY_V3, COPY_V2, COPY_V1, PARTITION, ADAPT, UNIFORM, CMESH_PART, NHOW };
static void
body ()
{
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  int how = mc::choose (NHOW, "how");
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  bool multi = m.cls.size () > 1;
  int k = d == 0 ? 1 : d == 1 ? mc::q (3, 5) : d == 2 ? mc::q (multi ? 2 : 3, 4) : mc::q (2, 3);
  if (how > COPY_V3 || dbg)
    k = std::min (k, mc::q (d == 3 ? 1 : 2, 3));
  if (how == UNIFORM)
    k = 0;
  Model M = choose_model_or_chain (m, 0, d == 0 ? 1 : d == 1 ? 3 : how == UNIFORM && d == 2 ? 2 : multi && d == 3 && how == COPY_V3 && !dbg ? 0 : 1, k, d == 1 ? 5 : 4, how == COPY_V3 ? (d == 1 ? 12 : d == 2 ? 6 : mc::q (4, 5)) : 0);
  int n = (int) M.size ();
  if (how == COPY_V1 && !is_balanced (M))
    mc::prune ();
  int P = 2 + mc::choose (n <= 8 ? mc::q (dbg ? 2 : 3, 4) : n <= 20 ? mc::q (how == COPY_V3 && !dbg ? 2 : how == UNIFORM ? 2 : 1, 3) : mc::q (how == UNIFORM ? 3 : 1, 2), "ranks");
  Cuts O = how == UNIFORM ? even_cuts (n, P) : choose_cuts (n, P, n <= mc::q (dbg ? 6 : 8, 16) || (P == 2 && n <= mc::q (20, 64)));
  int cp = how == UNIFORM ? mc::choose (2, "cmesh_partitioned") : how == CMESH_PART;
  vmpi::Config cfg = vmpi::choose_config (mc::q (n <= 6 ? 2 : 1, 2));
  cfg.explore = mc::thorough (); /* message orders are the subject of C16 */
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f, g;
    if (how == UNIFORM)
      g = uniform_forest (m, M.L[0].level (), 1, cp);
    else if (how == ADAPT) {
      /* the ghost layer of an adapted forest; the source has one, too, and a single refinement step is left to do */
      Model B = M;
      for (auto &l : B.L)
        if (!l.path.empty ())
          l.path.pop_back ();
      /* coarsen by one level where this keeps a covering: use the ancestors only if all of their descendants are leaves below them */
      std::vector<Leaf> c;
      for (size_t i = 0; i < M.size ();) {
        Leaf par = M.L[i];
        if (par.path.empty () || par.path.back () != 0) {
          c.push_back (M.L[i++]);
          continue;
        }
        par.path.pop_back ();
        auto r = M.range (par);
        bool flat = true;
        for (int q = r.first; q < r.second; q++)
          flat = flat && M.L[q].level () == M.L[i].level ();
        if (flat) {
          c.push_back (par);
          i = r.second;
        }
        else
          c.push_back (M.L[i++]);
      }
      B.L = c;
      /* the distribution of the coarse forest follows from the one of the fine forest where no family is split */
      Cuts OB (P + 1, 0);
      for (int p = 0; p <= P; p++) {
        int b = 0;
        while (b < (int) B.size () && M.range (B.L[b]).first < O[p])
          b++;
        OB[p] = b;
      }
      f = build_forest (B, OB, rank);
      t8_forest_init (&g);
      AdaptCtx ctx { &M };
      t8_forest_set_user_data (g, &ctx);
      t8_forest_set_adapt (g, f, adapt_to_model, 0);
      t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
      t8_forest_commit (g);
      Cuts OA (P + 1, 0);
      for (int p = 0; p <= P; p++)
        OA[p] = OB[p] < (int) B.size () ? M.range (B.L[OB[p]]).first : n;
      check_forest (g, M, OA, rank, "adapted forest");
      check_ghosts (g, M, OA, rank, "adapted forest");
      t8_forest_unref (&g);
      if (rank == 0)
        mc::state (mc::mix (M.hash (), mc::hash_str (cstr (OA)) + how));
      return;
    }
    else if (how == PARTITION) {
      f = build_forest (M, even_cuts (n, P), rank);
      t8_forest_init (&g);
      t8_forest_set_partition (g, f, 0);
      t8_forest_set_partition_offset (g, O[rank]);
      t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
      t8_forest_commit (g);
    }
    else {
      f = build_forest (M, O, rank, cp);
      t8_forest_init (&g);
      t8_forest_set_copy (g, f);
      t8_forest_set_ghost_ext (g, 1, T8_GHOST_FACES, how == COPY_V1 ? 1 : how == COPY_V2 ? 2 : 3);
      t8_forest_commit (g);
    }
    check_forest (g, M, O, rank, "forest with ghosts");
    check_ghosts (g, M, O, rank, "forest with ghosts");
    t8_forest_unref (&g);
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (O)) + how));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C11";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
