/* C28: what a forest answers about its trees and leaves agrees with the trees and leaves it has. */
#include "fx.hxx"
#include <t8_forest/t8_forest_partition.h>
using namespace fx;

static const std::vector<std::string> meshes = { "line", "line3", "line_ring2", "quad", "quad2_flip", "tri_quad_tri", "quad4_ring", "hex", "tet2", "prism2_quad",
                                                 "pyramid", "hex_pyra_tet", "tet_prism", "sa_line2", "sa_quad2", "disconnected", "vertex" };
/* all elements of a tree that contain, are, or lie one level inside leaves of the model */
static std::vector<Path>
probes (const Model &M, int tree)
{
  std::set<Path> s;
  for (size_t i = 0; i < M.size (); i++) {
    const Leaf &l = M.L[i];
    if (l.tree != tree)
      continue;
    for (size_t k = 0; k <= l.path.size (); k++)
      s.insert (l.path.substr (0, k));
    for (int c = 0; c < M.nd ((int) i).nch; c++)
      s.insert (l.path + std::string (1, (char) c));
  }
  return std::vector<Path> (s.begin (), s.end ());
}
static void
membership (t8_forest_t f, const Model &M, const Cuts &O, int rank, const std::vector<int> &G)
{
  const t8_scheme *s = t8_forest_get_scheme (f);
  t8_locidx_t nl = t8_forest_get_num_local_trees (f);
  for (int t = 0; t < (int) M.m->cls.size (); t++) {
    t8_eclass_t tc = (t8_eclass_t) M.m->cls[t];
    t8_locidx_t lt = t8_forest_get_local_id (f, t), gt = f->ghosts ? t8_forest_ghost_get_ghost_treeid (f, t) : -1;
    for (auto &p : probes (M, t)) {
      if ((int) p.size () > t8_forest_get_maxlevel (f))
        continue;
      t8_element_t *e = make_element (s, tc, p);
      bool leaf = false, ghost = false, desc = false;
      int first_loc = -1, first_gh = -1, nloc = 0, ngh = 0;
      for (int i = O[rank]; i < O[rank + 1]; i++)
        if (M.L[i].tree == t) {
          const Path &q = M.L[i].path;
          leaf |= q == p;
          desc |= q.size () > p.size () && is_prefix (p, q);
          if (first_loc < 0 && (is_prefix (p, q) || is_prefix (q, p)))
            first_loc = nloc;
          nloc++;
        }
      for (int i : G)
        if (M.L[i].tree == t) {
          const Path &q = M.L[i].path;
          ghost |= q == p;
          desc |= q.size () > p.size () && is_prefix (p, q);
          if (first_gh < 0 && (is_prefix (p, q) || is_prefix (q, p)))
            first_gh = ngh;
          ngh++;
        }
      Leaf x { t, p };
      if (lt >= 0) {
        MC_CHECK (!!t8_forest_element_is_leaf (f, e, lt) == leaf, "rank %d: %s is %sa local leaf of %s %s, reported otherwise", rank, lstr (x).c_str (), leaf ? "" : "not ", M.str ().c_str (), cstr (O).c_str ());
        MC_CHECK (!!t8_forest_element_is_leaf_or_ghost (f, e, lt, 0) == leaf, "rank %d: %s: leaf or ghost query", rank, lstr (x).c_str ());
        const t8_element_t *found = e;
        t8_locidx_t at = t8_forest_bin_search_first_descendant_ancestor (t8_forest_get_tree_leaf_element_array (f, lt), e, &found);
        MC_CHECK (at == first_loc, "rank %d: the first leaf related to %s is %d, expected %d, %s %s", rank, lstr (x).c_str (), at, first_loc, M.str ().c_str (), cstr (O).c_str ());
        MC_CHECK (found == (at < 0 ? nullptr : t8_forest_get_leaf_element_in_tree (f, lt, at)), "rank %d: leaf related to %s", rank, lstr (x).c_str ());
      }
      if (gt >= 0) {
        MC_CHECK (!!t8_forest_element_is_ghost (f, e, gt) == ghost, "rank %d: %s is %sa ghost, reported otherwise, %s %s", rank, lstr (x).c_str (), ghost ? "" : "not ", M.str ().c_str (), cstr (O).c_str ());
        MC_CHECK (!!t8_forest_element_is_leaf_or_ghost (f, e, gt, 1) == ghost, "rank %d: %s: leaf or ghost query of a ghost", rank, lstr (x).c_str ());
        const t8_element_t *found = e;
        t8_locidx_t at = t8_forest_bin_search_first_descendant_ancestor (t8_forest_ghost_get_tree_leaf_elements (f, gt), e, &found);
        MC_CHECK (at == first_gh, "rank %d: the first ghost related to %s is %d, expected %d", rank, lstr (x).c_str (), at, first_gh);
      }
      MC_CHECK (!!t8_forest_element_has_leaf_desc (f, t, e, tc) == desc, "rank %d: %s has %s finer leaf or ghost inside, reported otherwise, %s %s", rank, lstr (x).c_str (), desc ? "a" : "no", M.str ().c_str (), cstr (O).c_str ());
      s->element_destroy (tc, 1, &e);
      mc::checked ("membership", 6);
    }
  }
  for (int t = -1; t <= nl + 1; t++)
    MC_CHECK (!!t8_forest_tree_is_local (f, t) == (t >= 0 && t < nl), "rank %d: tree %d of %d is local or not", rank, t, nl);
}
static void
numbering (t8_forest_t f, const Model &M, const Cuts &O, int rank, bool ghosts, int P)
{
  t8_cmesh_t cm = t8_forest_get_cmesh (f);
  t8_locidx_t nl = t8_forest_get_num_local_trees (f), ng = ghosts ? t8_forest_get_num_ghost_trees (f) : 0;
  int n = O[rank + 1] - O[rank];
  MC_CHECK (t8_forest_get_dimension (f) == M.m->dim (), "rank %d: dimension %d", rank, t8_forest_get_dimension (f));
  MC_CHECK (t8_forest_get_mpicomm (f) == sc_MPI_COMM_WORLD || t8_forest_get_mpicomm (f) != sc_MPI_COMM_NULL, "communicator");
  MC_CHECK (t8_forest_is_committed (f) && !t8_forest_is_initialized (f), "rank %d: state of a committed forest", rank);
  MC_CHECK (t8_forest_no_overlap (f), "rank %d: overlap reported", rank);
  MC_CHECK (t8_forest_get_first_local_leaf_element_id (f) == O[rank], "rank %d: first leaf %lld, expected %d", rank, (long long) t8_forest_get_first_local_leaf_element_id (f), O[rank]);
  bool fs = n && O[rank] > 0 && M.L[O[rank] - 1].tree == M.L[O[rank]].tree, ls = n && O[rank + 1] < (int) M.size () && M.L[O[rank + 1]].tree == M.L[O[rank + 1] - 1].tree;
  MC_CHECK (!!t8_forest_first_tree_shared (f) == fs, "rank %d: the first tree is %sshared, %s %s", rank, fs ? "" : "not ", M.str ().c_str (), cstr (O).c_str ());
  MC_CHECK (!!t8_forest_last_tree_shared (f) == ls, "rank %d: the last tree is %sshared, %s %s", rank, ls ? "" : "not ", M.str ().c_str (), cstr (O).c_str ());
  for (t8_locidx_t t = 0; t < nl; t++) {
    int g = (int) t8_forest_global_tree_id (f, t);
    MC_CHECK (t8_forest_get_local_id (f, g) == t && t8_forest_get_local_or_ghost_id (f, g) == t, "rank %d: local id of tree %d", rank, g);
    t8_locidx_t ct = t8_forest_ltreeid_to_cmesh_ltreeid (f, t);
    MC_CHECK (t8_forest_cmesh_ltreeid_to_ltreeid (f, ct) == t, "rank %d: tree %d of the coarse mesh is tree %d of the forest, expected %d", rank, ct, t8_forest_cmesh_ltreeid_to_ltreeid (f, ct), t);
    t8_locidx_t *fn = nullptr;
    int8_t *ttf = nullptr;
    t8_ctree_t c = t8_forest_get_coarse_tree_ext (f, t, &fn, &ttf);
    MC_CHECK (c == t8_forest_get_coarse_tree (f, t) && (int) c->eclass == M.m->cls[g] && c->treeid == ct, "rank %d: coarse tree of tree %d", rank, g);
    int nf = t8_eclass_num_faces[c->eclass];
    for (int k = 0; k < nf; k++) {
      const Nb &b = M.m->nb[g][k];
      t8_locidx_t x = fn[k];
      t8_gloidx_t gx = x < t8_cmesh_get_num_local_trees (cm) ? t8_cmesh_get_global_id (cm, x) : t8_cmesh_get_global_id (cm, x);
      MC_CHECK (gx == (b.t < 0 ? g : b.t), "rank %d: neighbour of tree %d across face %d is %lld, expected %d", rank, g, k, (long long) gx, b.t);
      if (b.t >= 0)
        MC_CHECK (ttf[k] % t8_eclass_max_num_faces[M.m->dim ()] == b.f, "rank %d: face of the neighbour of tree %d across face %d", rank, g, k);
    }
    MC_CHECK (t8_forest_get_tree_vertices (f, t) == t8_cmesh_get_tree_vertices (cm, ct), "rank %d: vertices of tree %d", rank, g);
    t8_tree_t tr = t8_forest_get_tree (f, t);
    t8_locidx_t m = t8_forest_get_tree_num_leaf_elements (f, t);
    MC_CHECK (t8_forest_get_tree_leaf_element_count (tr) == m && (t8_locidx_t) t8_element_array_get_count (t8_forest_get_tree_leaf_element_array (f, t)) == m, "rank %d: number of leaves of tree %d", rank, g);
    for (t8_locidx_t i = 0; i < m; i++)
      MC_CHECK (t8_forest_get_tree_leaf_element (tr, i) == t8_forest_get_leaf_element_in_tree (f, t, i) && t8_forest_get_tree_leaf_element_mutable (tr, i) == t8_forest_get_leaf_element_in_tree (f, t, i),
                "rank %d: leaf %d of tree %d", rank, i, g);
  }
  for (t8_locidx_t t = nl; t < nl + ng; t++) {
    int g = (int) t8_forest_global_tree_id (f, t);
    t8_locidx_t ct = t8_forest_ltreeid_to_cmesh_ltreeid (f, t);
    MC_CHECK (t8_cmesh_get_global_id (cm, ct) == g, "rank %d: ghost tree %d is tree %lld of the coarse mesh, expected %d", rank, t, (long long) t8_cmesh_get_global_id (cm, ct), g);
    if (t8_forest_get_local_id (f, g) < 0)
      MC_CHECK (t8_forest_get_local_or_ghost_id (f, g) == t, "rank %d: id of ghost tree %d", rank, g);
  }
  for (t8_locidx_t c = 0; c < t8_cmesh_get_num_local_trees (cm); c++) {
    int g = (int) t8_cmesh_get_global_id (cm, c);
    bool loc = n && g >= M.L[O[rank]].tree && g <= M.L[O[rank + 1] - 1].tree;
    MC_CHECK (t8_forest_cmesh_ltreeid_to_ltreeid (f, c) == (loc ? g - M.L[O[rank]].tree : -1), "rank %d: coarse tree %d is tree %d of the forest", rank, g, t8_forest_cmesh_ltreeid_to_ltreeid (f, c));
  }
  for (int g = 0; g < (int) M.m->cls.size (); g++) {
    bool loc = n && g >= M.L[O[rank]].tree && g <= M.L[O[rank + 1] - 1].tree;
    t8_locidx_t id = t8_forest_get_local_id (f, g);
    MC_CHECK (loc ? id == g - M.L[O[rank]].tree : id < 0, "rank %d: local id of tree %d is %d", rank, g, id);
  }
  mc::checked ("numbering", 8 + 6 * nl + 2 * ng + P);
}
static int
keep_cb (t8_forest_t, t8_forest_t, t8_locidx_t, const t8_eclass_t, t8_locidx_t, const t8_scheme_c *, const int, const int, t8_element_t *[])
{
  return 0;
}
struct Want {
  const Model *target;
  const void *forest_user;
};
static int
to_cb (t8_forest_t forest, t8_forest_t from, t8_locidx_t lt, const t8_eclass_t tc, t8_locidx_t, const t8_scheme_c *s, const int, const int, t8_element_t *el[])
{
  Want *w = (Want *) t8_forest_get_user_data (forest);
  return w->target->covering (leaf_of (from, lt, tc, s, el[0])) < 0;
}
static void
fn_a ()
{
}
static void
fn_b ()
{
}
static void
queries ()
{
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  Model M = choose_model_or_chain (m, 0, d == 1 ? 2 : 1, mc::q (d < 3 && m.cls.size () < 3 && !dbg ? 2 : 1, 3), 3, d == 1 ? 8 : d == 2 ? 5 : 3);
  int n = (int) M.size ();
  int P = 1 + mc::choose (mc::q (n <= 8 && !dbg ? 4 : 3, 5), "ranks");
  Cuts O = choose_cuts (n, P, n <= mc::q (6, 12));
  int gh = P > 1 && d > 0 ? mc::choose (2, "ghosts") : 0;
  int cp = n <= mc::q (8, 30) ? mc::choose (2, "cmesh_partitioned") : 0;
  vmpi::Config cfg = vmpi::choose_config (1);
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = build_forest (M, O, rank, cp), g;
    int data = 7;
    t8_forest_init (&g);
    MC_CHECK (t8_forest_is_initialized (g) && !t8_forest_is_committed (g), "state of a new forest");
    t8_forest_set_copy (g, f);
    t8_forest_set_user_data (g, &data);
    t8_forest_set_user_function (g, fn_a);
    if (gh)
      t8_forest_set_ghost_ext (g, 1, T8_GHOST_FACES, 3);
    t8_forest_commit (g);
    MC_CHECK (t8_forest_get_user_data (g) == &data && t8_forest_get_user_function (g) == fn_a, "rank %d: user data and function of the forest", rank);
    t8_forest_set_user_function (g, fn_b);
    t8_forest_set_user_data (g, nullptr);
    MC_CHECK (t8_forest_get_user_data (g) == nullptr && t8_forest_get_user_function (g) == fn_b, "rank %d: changed user data and function of the forest", rank);
    check_forest (g, M, O, rank, "forest");
    std::vector<int> G;
    if (gh)
      G = check_ghosts (g, M, O, rank, "forest");
    else
      MC_CHECK (t8_forest_get_num_ghosts (g) == 0 && t8_forest_get_num_ghost_trees (g) == 0, "rank %d: ghosts without a ghost layer", rank);
    membership (g, M, O, rank, G);
    numbering (g, M, O, rank, gh, P);
    t8_forest_unref (&g);
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (O)) + 2 * gh + cp));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
}
/* two forests derived from one: equal on a process exactly if that process holds the same leaves */
static void
equality ()
{
  const Mesh &m = choose_mesh ({ "line", "line3", "quad2_flip", "tri_quad_tri", "hex_pyra_tet", "pyramid", "tet2", "prism2_quad", "sa_quad2", "disconnected" });
  int d = m.dim ();
  int deep = mc::q (d == 1 || (d == 2 && m.cls.size () < 3) ? 2 : 1, 2);
  Model A = choose_model (m, 0, 1, deep, 3), B = choose_model (m, 0, 1, deep, 3);
  int P = 1 + mc::choose (mc::q (2, 3), "ranks");
  int same_cuts = P > 1 ? mc::choose (2, "cuts") : 0;
  Cuts OA = choose_cuts ((int) A.size (), P, A.size () <= 4);
  Cuts OB = same_cuts ? OA : even_cuts ((int) B.size (), P);
  if (same_cuts && A.size () != B.size ())
    mc::prune ();
  int recursive_new = mc::choose (2, "constructor");
  vmpi::Config cfg = vmpi::choose_config (1);
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    Model Z = uniform (m, 0);
    Cuts OZ = even_cuts ((int) Z.size (), P);
    t8_forest_t z = build_forest (Z, OZ, rank);
    auto derive = [&] (const Model &T, const Cuts &O) {
      Want w { &T, nullptr };
      t8_forest_ref (z);
      t8_forest_t f;
      if (recursive_new) {
        f = t8_forest_new_adapt (z, to_cb, 1, 0, &w);
        MC_CHECK (t8_forest_get_user_data (f) == &w, "rank %d: user data of the adapted forest", rank);
      }
      else {
        t8_forest_init (&f);
        t8_forest_set_user_data (f, &w);
        t8_forest_set_adapt (f, z, to_cb, 1);
        t8_forest_commit (f);
      }
      return repartition (f, O, rank);
    };
    t8_forest_t a = derive (A, OA), b = derive (B, OB);
    check_forest (a, A, OA, rank, "first forest");
    check_forest (b, B, OB, rank, "second forest");
    /* the documented meaning: as many local trees, and pairwise the same elements of the same class */
    std::vector<std::vector<Path>> ta, tb;
    std::vector<int> ca, cb;
    auto split = [&] (const Model &M, const Cuts &O, std::vector<std::vector<Path>> &t, std::vector<int> &c) {
      int last = -1;
      for (int i = O[rank]; i < O[rank + 1]; i++) {
        if (M.L[i].tree != last)
          t.push_back ({}), c.push_back (m.cls[M.L[i].tree]), last = M.L[i].tree;
        t.back ().push_back (M.L[i].path);
      }
    };
    split (A, OA, ta, ca);
    split (B, OB, tb, cb);
    bool want = ta == tb && ca == cb;
    MC_CHECK (!!t8_forest_is_equal (a, b) == want && !!t8_forest_is_equal (b, a) == want, "rank %d: the local leaves of %s %s and %s %s are %s, reported otherwise", rank, A.str ().c_str (), cstr (OA).c_str (),
              B.str ().c_str (), cstr (OB).c_str (), want ? "equal" : "not equal");
    MC_CHECK (t8_forest_is_equal (a, a) && t8_forest_is_equal (b, b), "a forest differs from itself");
    t8_forest_ref (a);
    t8_forest_t c = t8_forest_new_adapt (a, keep_cb, 0, 1, nullptr);
    MC_CHECK (t8_forest_is_equal (a, c), "rank %d: a forest adapted by keeping everything is not equal", rank);
    check_ghosts (c, A, OA, rank, "adapted forest with ghosts");
    mc::checked ("equality", 5);
    t8_forest_unref (&a);
    t8_forest_unref (&b);
    t8_forest_unref (&c);
    t8_forest_unref (&z);
    if (rank == 0)
      mc::state (mc::mix (mc::mix (A.hash (), B.hash ()), mc::hash_str (cstr (OA) + cstr (OB)) + recursive_new));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}
/* the least level of a uniform forest without empty processes */
static void
nonempty ()
{
  const Mesh &m = choose_mesh ({ "line", "line3", "quad", "quad2_flip", "tri", "quad3_L", "quad4_ring", "hex", "tet2", "prism", "pyramid", "tri_quad_tri", "hex_prism", "sa_quad2", "sa_line2", "vertex", "disconnected" });
  int P = 1 + mc::choose (mc::q (17, 40), "ranks");
  int cp = mc::choose (2, "cmesh_partitioned");
  long bal = mem_balance ();
  vmpi::Config cfg = vmpi::choose_config (1);
  int want = 0;
  if (m.dim () == 0 && P > 1)
    want = -1;
  else
    for (;; want++) {
      long tot = 0;
      for (int c : m.cls) {
        long k = 1, pyr = 1, tet = 0;
        for (int l = 0; l < want; l++) {
          k *= NCH[c];
          long p2 = pyr * 6, t2 = pyr * 4 + tet * 8;
          pyr = p2;
          tet = t2;
        }
        tot += c == T8_ECLASS_PYRAMID ? pyr + tet : k;
      }
      if (tot >= P)
        break;
    }
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm = cp ? partition_cmesh_uniform (build_cmesh (m), m, 0) : build_cmesh (m);
    const t8_scheme *s = new_scheme (m);
    int l = t8_forest_min_nonempty_level (cm, s);
    MC_CHECK (l == want, "%s on %d processes: the least level without empty processes is %d, reported %d", m.name.c_str (), P, want, l);
    if (l >= 0) {
      t8_forest_t f = t8_forest_new_uniform (cm, s, l, 0, sc_MPI_COMM_WORLD);
      MC_CHECK (t8_forest_get_local_num_leaf_elements (f) > 0, "%s: rank %d of %d is empty on level %d", m.name.c_str (), rank, P, l);
      t8_forest_unref (&f);
    }
    else {
      t8_cmesh_unref (&cm);
      t8_scheme *x = (t8_scheme *) s;
      x->unref ();
    }
    mc::checked ("least level", 2);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
}
static void
body ()
{
  switch (mc::choose (3, "part")) {
  case 0: queries (); break;
  case 1: equality (); break;
  default: nonempty ();
  }
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C28";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
