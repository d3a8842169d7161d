/* C13: leaf face neighbour queries are complete, symmetric and correctly indexed. */
#include "fx.hxx"
using namespace fx;

static const std::vector<std::string> meshes
  = { "line", "line3", "line_ring2", "line_self", "quad", "quad2_flip", "quad3_L", "quad_periodic", "quad_moebius", "tri", "tri2", "tri2_flip", "tri_quad_tri", "quad4_ring",
      "tri3_fan", "hex", "hex2_rot", "tet", "tet2", "tet2_rot", "prism", "prism2_tri", "prism2_quad", "pyramid", "pyra2_quad", "pyra2_tri", "hex_prism", "tet_prism",
      "hex_pyra_tet", "pyra_prism", "tet_pyra", "hex_periodic", "sa_line2", "sa_quad2", "sa_hex2", "disconnected", "vertex" };

static int
orientation_of (const Mesh &m, int tree, int face)
{
  for (auto &j : m.joins)
    if ((j.t0 == tree && j.f0 == face) || (j.t1 == tree && j.f1 == face))
      return j.orient;
  return 0;
}
enum { GHOST, NOGHOST, UNIFORM, CMESH_PART, ADAPTED, NHOW };
static void
body ()
{
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  int how = mc::choose (NHOW, "how");
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  bool multi = m.cls.size () > 1;
  int k = d == 0 ? 1 : d == 1 ? mc::q (dbg ? 2 : 3, 5) : d == 2 ? mc::q (dbg ? 2 : 3, 4) : mc::q (dbg ? 1 : 2, 3);
  if (how > GHOST)
    k = std::min (k, mc::q (d == 3 ? 1 : 2, 3));
  if (how == UNIFORM)
    k = 0;
  Model M = choose_model_or_chain (m, 0, d == 0 ? 1 : d == 1 ? 3 : how == UNIFORM && d == 2 ? 2 : 1, k, d == 1 ? 5 : 4, how == GHOST ? (d == 1 ? 14 : d == 2 ? 8 : mc::q (4, 5)) : 0);
  int n = (int) M.size ();
  int P = 1 + mc::choose (n <= 8 ? mc::q (how == GHOST && !dbg ? 4 : 3, 4) : n <= 16 ? mc::q (how == GHOST && !dbg ? 3 : 2, 3) : mc::q (how == UNIFORM ? 3 : 2, 3), "ranks");
  if (how == ADAPTED && P > 1)
    P = 3; /* one multi-process case */
  Cuts O = how == UNIFORM ? even_cuts (n, P) : how == ADAPTED ? Cuts () : choose_cuts (n, P, n <= mc::q (how == GHOST && !dbg ? 7 : 5, 12) || (P == 2 && how == GHOST && n <= mc::q (12, 64)));
  const Adjacency &A = adjacency (M);
  vmpi::Config cfg;
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f;
    Cuts R = O;
    if (how == UNIFORM)
      f = uniform_forest (m, M.L[0].level (), 1);
    else if (how == ADAPTED) {
      /* adapted without repartition */
      Model U = uniform (m, min_level (M));
      Cuts ou = even_cuts ((int) U.size (), P);
      t8_forest_t u = uniform_forest (m, min_level (M));
      AdaptCtx c { &M };
      t8_forest_init (&f);
      t8_forest_set_adapt (f, u, adapt_to_model, 1);
      t8_forest_set_user_data (f, &c);
      t8_forest_set_ghost (f, 1, T8_GHOST_FACES);
      t8_forest_commit (f);
      R.assign (P + 1, 0);
      for (int p = 0; p <= P; p++)
        R[p] = ou[p] < (int) U.size () ? M.range (U.L[ou[p]]).first : n;
    }
    else {
      t8_forest_t g = build_forest (M, O, rank, how == CMESH_PART);
      if (how == NOGHOST)
        f = g;
      else {
        t8_forest_init (&f);
        t8_forest_set_copy (f, g);
        t8_forest_set_ghost (f, 1, T8_GHOST_FACES);
        t8_forest_commit (f);
      }
    }
    check_forest (f, M, R, rank, "forest");
    std::vector<int> G = how == NOGHOST ? std::vector<int> () : check_ghosts (f, M, R, rank, "forest with ghosts");
    const t8_scheme *s = t8_forest_get_scheme (f);
    int a = R[rank], b = R[rank + 1], nl = b - a;
    auto index_of = [&] (int leaf) {
      if (leaf >= a && leaf < b)
        return leaf - a;
      auto it = std::lower_bound (G.begin (), G.end (), leaf);
      return it != G.end () && *it == leaf ? nl + (int) (it - G.begin ()) : -1;
    };
    int checks = 0;
    for (int q = 0; q < nl + (int) G.size (); q++) {
      int leaf = q < nl ? a + q : G[q - nl];
      const Leaf &l = M.L[leaf];
      const Node &nd = M.nd (leaf);
      t8_locidx_t lt;
      const t8_element_t *e;
      if (q < nl)
        e = t8_forest_get_leaf_element (f, q, &lt);
      else {
        t8_locidx_t gt = t8_forest_ghost_get_ghost_treeid (f, l.tree);
        e = t8_forest_ghost_get_leaf_element (f, gt, q - nl - t8_forest_ghost_get_tree_element_offset (f, gt));
        lt = t8_forest_get_num_local_trees (f) + gt;
      }
      t8_eclass_t tc = t8_forest_get_tree_class (f, lt);
      MC_CHECK (s->element_get_num_faces (tc, e) == NF[nd.c.shape], "number of faces of %s", lstr (l).c_str ());
      for (int fc = 0; fc < NF[nd.c.shape]; fc++) {
        std::vector<std::pair<int, int>> want, got;
        for (auto &x : A.a[leaf][fc])
          if (index_of (x.leaf) >= 0)
            want.push_back ({ index_of (x.leaf), x.face });
        std::sort (want.begin (), want.end ());
        const t8_element_t **nb = (const t8_element_t **) 0x1;
        int *dual = (int *) 0x1, num = -7, orient = -7;
        t8_locidx_t *idx = (t8_locidx_t *) 0x1;
        t8_eclass_t nc = T8_ECLASS_INVALID;
        t8_gloidx_t gt = -7;
        bool ext = (q + fc) % 2 == 0 || q >= nl;
        if (ext)
          t8_forest_leaf_face_neighbors_ext (f, lt, e, &nb, fc, &dual, &num, &idx, &nc, &gt, &orient);
        else
          t8_forest_leaf_face_neighbors (f, lt, e, &nb, fc, &dual, &num, &idx, &nc);
        for (int i = 0; i < num; i++)
          got.push_back ({ idx[i], dual[i] });
        std::vector<std::pair<int, int>> sg = got;
        std::sort (sg.begin (), sg.end ());
        auto list = [] (const std::vector<std::pair<int, int>> &v) {
          std::string r;
          for (auto &x : v)
            r += " " + std::to_string (x.first) + "(face " + std::to_string (x.second) + ")";
          return r;
        };
        MC_CHECK (sg == want, "rank %d: %s leaf %s face %d: neighbours%s, expected%s, in %s", rank, q < nl ? "local" : "ghost", lstr (l).c_str (), fc, list (sg).c_str (), list (want).c_str (), M.str ().c_str ());
        if (num == 0)
          MC_CHECK (!nb && !dual && !idx, "rank %d: leaf %s face %d: no neighbours, but arrays", rank, lstr (l).c_str (), fc);
        const Nb *tn = nd.rf[fc] >= 0 ? &m.nb[l.tree][nd.rf[fc]] : nullptr;
        int ntree = tn ? tn->t : l.tree;
        if (ext && num > 0) {
          MC_CHECK (gt == ntree, "rank %d: leaf %s face %d: neighbour tree %lld, expected %d", rank, lstr (l).c_str (), fc, (long long) gt, ntree);
          int wo = tn ? orientation_of (m, l.tree, nd.rf[fc]) : 0;
          MC_CHECK (orient == wo, "rank %d: leaf %s face %d: orientation %d, expected %d", rank, lstr (l).c_str (), fc, orient, wo);
        }
        if (ext && ntree < 0)
          MC_CHECK (gt == -1, "rank %d: leaf %s face %d on the domain boundary: neighbour tree %lld", rank, lstr (l).c_str (), fc, (long long) gt);
        if (q < nl) {
          t8_eclass_t ne = t8_forest_element_neighbor_eclass (f, lt, e, fc);
          MC_CHECK (ntree < 0 ? ne == T8_ECLASS_INVALID : (int) ne == m.cls[ntree], "rank %d: leaf %s face %d: class of the neighbour", rank, lstr (l).c_str (), fc);
          if (ntree >= 0) {
            /* the element of the same level and the half-size ones */
            Leaf sl;
            int sf, df = -7;
            same_level_neighbor (m, l, fc, &sl, &sf);
            t8_element_t *ne_el;
            s->element_new (ne, 1, &ne_el);
            t8_gloidx_t r = t8_forest_element_face_neighbor (f, lt, e, ne_el, ne, fc, &df);
            Path np = path_of (s, ne, ne_el);
            MC_CHECK (r == ntree && np == sl.path && df == sf, "rank %d: leaf %s face %d: same-level neighbour %s face %d in tree %lld, expected %s face %d", rank, lstr (l).c_str (), fc, pstr (np).c_str (),
                      df, (long long) r, lstr (sl).c_str (), sf);
            s->element_destroy (ne, 1, &ne_el);
            int nh = s->element_get_num_face_children (tc, e, fc);
            std::vector<t8_element_t *> h (nh);
            std::vector<int> hd (nh, -7);
            s->element_new (ne, nh, h.data ());
            r = t8_forest_element_half_face_neighbors (f, lt, e, h.data (), ne, fc, nh, hd.data ());
            MC_CHECK (r == ntree, "rank %d: leaf %s face %d: tree of the half-size neighbours", rank, lstr (l).c_str (), fc);
            std::set<Path> seen;
            for (int i = 0; i < nh; i++) {
              Path p = path_of (s, ne, h[i]);
              const Node &hn = node (m.which, m.cls[ntree], p);
              MC_CHECK (p.size () == l.path.size () + 1 && is_prefix (sl.path, p) && seen.insert (p).second && hd[i] >= 0 && hd[i] < NF[hn.c.shape] && hn.pf[hd[i]] == sf,
                        "rank %d: leaf %s face %d: half-size neighbour %d is %s face %d", rank, lstr (l).c_str (), fc, i, pstr (p).c_str (), hd[i]);
            }
            s->element_destroy (ne, nh, h.data ());
          }
        }
        for (int i = 0; i < num; i++) {
          int x = got[i].first < nl ? a + got[i].first : G[got[i].first - nl];
          Path p = path_of (s, nc, nb[i]);
          MC_CHECK ((int) nc == m.cls[M.L[x].tree] && p == M.L[x].path, "rank %d: leaf %s face %d: neighbour %d is %s, its index belongs to %s", rank, lstr (l).c_str (), fc, i, pstr (p).c_str (), lstr (M.L[x]).c_str ());
          if (q < nl && M.L[x].level () + 1 == l.level ()) {
            int sub = t8_forest_leaf_neighbor_subface (f, lt, e, fc, nc, nb[i], dual[i]);
            Leaf sl;
            int sf;
            same_level_neighbor (m, l, fc, &sl, &sf);
            int nch = s->element_get_num_face_children (nc, nb[i], dual[i]);
            std::vector<t8_element_t *> ch (nch);
            s->element_new (nc, nch, ch.data ());
            s->element_get_children_at_face (nc, nb[i], dual[i], ch.data (), nch, nullptr);
            MC_CHECK (sub >= 0 && sub < nch && path_of (s, nc, ch[sub]) == sl.path, "rank %d: leaf %s face %d: subface %d of the coarser neighbour", rank, lstr (l).c_str (), fc, sub);
            s->element_destroy (nc, nch, ch.data ());
          }
        }
        if (num > 0) {
          T8_FREE (nb);
          T8_FREE (dual);
          T8_FREE (idx);
        }
        if (how == UNIFORM) {
          int df = -7;
          t8_locidx_t r = t8_forest_same_level_leaf_face_neighbor_index (f, q, fc, l.tree, &df);
          MC_CHECK (want.empty () ? r < 0 : (r == want[0].first && df == want[0].second), "rank %d: leaf %s face %d: neighbour by index is %d face %d", rank, lstr (l).c_str (), fc, r, df);
        }
        checks += 2 + num;
      }
    }
    mc::checked ("face neighbour queries", checks);
    t8_forest_unref (&f);
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (R)) + how));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C13";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
