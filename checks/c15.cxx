/* C15: owner queries name exactly the process that holds an element. */
#include "fx.hxx"
using namespace fx;

static const std::vector<std::string> meshes
  = { "line", "line3", "line_ring2", "quad", "quad2_flip", "quad3_L", "quad_periodic", "tri", "tri2_flip", "tri_quad_tri", "quad4_ring", "hex", "hex2_rot", "tet", "tet2_rot", "prism",
      "prism2_quad", "pyramid", "pyra2_quad", "pyra2_tri", "hex_pyra_tet", "tet_prism", "pyra_prism", "sa_line2", "sa_quad2", "sa_hex2", "disconnected", "vertex" };

/* leaves below (or covering) e that touch its face f */
static std::vector<int>
face_leaves (const Model &M, const Leaf &e, int f)
{
  int c = M.covering (e);
  if (c >= 0)
    return { c };
  auto r = M.range (e);
  std::vector<int> v;
  for (int i = r.first; i < r.second; i++) {
    bool hit = false;
    for (int g = 0; g < NF[M.nd (i).c.shape] && !hit; g++) {
      Path p = M.L[i].path;
      int h = g;
      while (h >= 0 && p.size () > e.path.size ()) {
        h = node (M.m->which, M.m->cls[e.tree], p).pf[h];
        p.pop_back ();
      }
      hit = h == f;
    }
    if (hit)
      v.push_back (i);
  }
  return v;
}
static std::vector<int>
owners_of (const Cuts &O, const std::vector<int> &v)
{
  std::set<int> s;
  for (int i : v)
    s.insert (owner_of (O, i));
  return std::vector<int> (s.begin (), s.end ());
}
static std::string
vstr (const std::vector<int> &v)
{
  std::string r;
  for (int x : v)
    r += " " + std::to_string (x);
  return r;
}
enum { PARTITIONED, UNIFORM, GHOST_COPY, NHOW };
static void
body ()
{
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  int how = mc::choose (NHOW, "how");
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  bool multi = m.cls.size () > 1;
  int k = how ? (d == 3 ? 1 : 2) : d == 0 ? 1 : d == 1 ? mc::q (dbg || multi ? 2 : 3, 4) : d == 2 ? mc::q (multi || dbg ? 1 : 2, 3) : mc::q (1, 2);
  if (how == UNIFORM)
    k = 0;
  if (how == GHOST_COPY)
    k = std::min (k, mc::q (1, 2));
  Model M = choose_model_or_chain (m, 0, d == 0 ? 1 : d == 1 ? 3 : how == UNIFORM && d == 2 ? 2 : 1, k, d == 1 ? 5 : 3, how != PARTITIONED || (multi && d > 1 && !mc::thorough ()) ? 0 : d == 1 ? 8 : d == 2 ? 5 : mc::q (3, 4));
  int n = (int) M.size ();
  int P = 1 + mc::choose (how == UNIFORM ? mc::q (5, 9) : n <= 5 ? mc::q (dbg || how ? 4 : 5, 6) : n <= 10 ? mc::q (dbg || how || n > 8 ? 3 : 4, 4) : mc::q (dbg || how ? 2 : 3, 3), "ranks");
  Cuts O = how == UNIFORM ? even_cuts (n, P) : choose_cuts (n, P, n <= mc::q (dbg ? 5 : 6, 10) || (P == 2 && n <= mc::q (20, 64)));
  vmpi::Config cfg;
  long bal = mem_balance ();
  /* queried elements: all ancestors of leaves, all leaves, all children of leaves */
  std::set<Leaf> qs;
  for (auto &l : M.L) {
    for (size_t i = 0; i <= l.path.size (); i++)
      qs.insert (Leaf { l.tree, l.path.substr (0, i) });
    std::vector<Leaf> ch;
    add_children (m, l, ch);
    qs.insert (ch.begin (), ch.end ());
  }
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f;
    if (how == UNIFORM)
      f = uniform_forest (m, M.L[0].level (), 1);
    else {
      f = build_forest (M, O, rank);
      if (how == GHOST_COPY) {
        t8_forest_t g;
        t8_forest_init (&g);
        t8_forest_set_copy (g, f);
        t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
        t8_forest_commit (g);
        f = g;
      }
    }
    if (!f->element_offsets)
      t8_forest_partition_create_offsets (f);
    if (!f->tree_offsets)
      t8_forest_partition_create_tree_offsets (f);
    if (!f->global_first_desc)
      t8_forest_partition_create_first_desc (f);
    check_forest (f, M, O, rank, "forest");
    const t8_scheme *s = t8_forest_get_scheme (f);
    int checks = 0;
    sc_array_t own;
    sc_array_init (&own, sizeof (int));
    auto list = [&] () {
      std::vector<int> v;
      for (size_t i = 0; i < own.elem_count; i++)
        v.push_back (*(int *) sc_array_index (&own, i));
      return v;
    };
    for (auto &q : qs) {
      t8_eclass_t tc = (t8_eclass_t) m.cls[q.tree];
      const Node &nd = M.nd (q);
      t8_element_t *e = make_element (s, tc, q.path);
      int c = M.covering (q);
      auto r = c >= 0 ? std::make_pair (c, c + 1) : M.range (q);
      int first = owner_of (O, r.first), last = owner_of (O, r.second - 1);
      std::string at = "rank " + std::to_string (rank) + ": element " + lstr (q) + " of " + M.str () + " distributed " + cstr (O);
      int w = t8_forest_element_find_owner (f, q.tree, e, tc);
      MC_CHECK (w == first, "%s: owner %d, expected %d", at.c_str (), w, first);
      for (int lo = 0; lo <= first; lo++)
        for (int hi = first; hi < P; hi++)
          for (int g = lo; g <= hi; g++) {
            w = t8_forest_element_find_owner_ext (f, q.tree, e, tc, lo, hi, g, 0);
            MC_CHECK (w == first, "%s: owner with bounds %d %d and guess %d: %d, expected %d", at.c_str (), lo, hi, g, w, first);
            checks++;
          }
      for (int p = 0; p < P; p++)
        MC_CHECK (!!t8_forest_element_check_owner (f, e, q.tree, tc, p, 0) == (p == first), "%s: check_owner of rank %d is wrong, owner %d", at.c_str (), p, first);
      int lo = 0, hi = P - 1;
      t8_forest_element_owners_bounds (f, q.tree, e, tc, &lo, &hi);
      MC_CHECK (lo == first && hi == last, "%s: owner bounds %d %d, expected %d %d", at.c_str (), lo, hi, first, last);
      /* from every range that contains the owners */
      auto from_ranges = [&] (int a, int b, const char *what, int fc, auto &&call) {
        for (int l = 0; l <= a; l++)
          for (int h = b; h < P; h++) {
            int l2 = l, h2 = h;
            call (&l2, &h2);
            MC_CHECK (l2 == a && h2 == b, "%s: %s %d from %d to %d: %d to %d, expected %d to %d", at.c_str (), what, fc, l, h, l2, h2, a, b);
            checks++;
          }
      };
      from_ranges (first, last, "owner bounds of the element", 0, [&] (int *a, int *b) { t8_forest_element_owners_bounds (f, q.tree, e, tc, a, b); });
      /* first and last descendant, declared to be such */
      for (int end = 0; end < 2; end++) {
        t8_element_t *de;
        s->element_new (tc, 1, &de);
        if (end)
          s->element_get_last_descendant (tc, e, de, f->maxlevel);
        else
          s->element_get_first_descendant (tc, e, de, f->maxlevel);
        int want = end ? last : first;
        for (int g = 0; g < P; g++) {
          w = t8_forest_element_find_owner_ext (f, q.tree, de, tc, 0, P - 1, g, 1);
          MC_CHECK (w == want, "%s: owner of the %s descendant with guess %d: %d, expected %d", at.c_str (), end ? "last" : "first", g, w, want);
          MC_CHECK (!!t8_forest_element_check_owner (f, de, q.tree, tc, g, 1) == (g == want), "%s: check_owner of rank %d for the %s descendant, owner %d", at.c_str (), g, end ? "last" : "first", want);
          checks += 2;
        }
        s->element_destroy (tc, 1, &de);
      }
      sc_array_resize (&own, 0);
      w = t8_forest_element_find_owner_old (f, q.tree, e, tc, &own);
      std::vector<int> tree_leaves;
      auto tr = M.range (Leaf { q.tree, "" });
      for (int i = tr.first; i < tr.second; i++)
        tree_leaves.push_back (i);
      int w2 = t8_forest_element_find_owner_old (f, q.tree, e, tc, nullptr), w3 = t8_forest_element_find_owner_old (f, q.tree, e, tc, &own);
      MC_CHECK (w2 == first && w3 == first, "%s: old owner search without a list of owners %d, with a filled list %d, expected %d", at.c_str (), w2, w3, first);
      MC_CHECK (w == first && list () == owners_of (O, tree_leaves), "%s: old owner search: %d, expected %d; owners of the tree%s", at.c_str (), w, first, vstr (list ()).c_str ());
      bool local_tree = t8_forest_get_local_id (f, q.tree) >= 0;
      for (int fc = 0; fc < NF[nd.c.shape]; fc++) {
        std::vector<int> want = owners_of (O, face_leaves (M, q, fc));
        sc_array_resize (&own, 0);
        t8_forest_element_owners_at_face (f, q.tree, e, tc, fc, &own);
        MC_CHECK (list () == want, "%s: owners at face %d:%s, expected%s", at.c_str (), fc, vstr (list ()).c_str (), vstr (want).c_str ());
        /* with known bounds */
        sc_array_resize (&own, 2);
        *(int *) sc_array_index (&own, 0) = want.front ();
        *(int *) sc_array_index (&own, 1) = want.back ();
        t8_forest_element_owners_at_face (f, q.tree, e, tc, fc, &own);
        MC_CHECK (list () == want, "%s: owners at face %d within bounds:%s, expected%s", at.c_str (), fc, vstr (list ()).c_str (), vstr (want).c_str ());
        lo = 0, hi = P - 1;
        t8_forest_element_owners_at_face_bounds (f, q.tree, e, tc, fc, &lo, &hi);
        MC_CHECK (lo == want.front () && hi == want.back (), "%s: owner bounds at face %d: %d %d, expected %d %d", at.c_str (), fc, lo, hi, want.front (), want.back ());
        checks += 3;
        from_ranges (want.front (), want.back (), "owner bounds at face", fc, [&] (int *a, int *b) { t8_forest_element_owners_at_face_bounds (f, q.tree, e, tc, fc, a, b); });
        if (local_tree) {
          Leaf nb;
          int nf;
          std::vector<int> nw;
          if (same_level_neighbor (m, q, fc, &nb, &nf))
            nw = owners_of (O, face_leaves (M, nb, nf));
          t8_locidx_t lt = t8_forest_get_local_id (f, q.tree);
          sc_array_resize (&own, 0);
          t8_forest_element_owners_at_neigh_face (f, lt, e, fc, &own);
          MC_CHECK (list () == nw, "%s: owners of the neighbour at face %d:%s, expected%s", at.c_str (), fc, vstr (list ()).c_str (), vstr (nw).c_str ());
          lo = 0, hi = P - 1;
          t8_forest_element_owners_at_neigh_face_bounds (f, lt, e, fc, &lo, &hi);
          MC_CHECK (nw.empty () ? lo > hi : (lo == nw.front () && hi == nw.back ()), "%s: owner bounds of the neighbour at face %d: %d %d, expected%s", at.c_str (), fc, lo, hi, vstr (nw).c_str ());
          checks += 2;
          if (!nw.empty ())
            from_ranges (nw.front (), nw.back (), "owner bounds of the neighbour at face", fc, [&] (int *a, int *b) { t8_forest_element_owners_at_neigh_face_bounds (f, lt, e, fc, a, b); });
        }
      }
      s->element_destroy (tc, 1, &e);
      checks += 4 + P;
    }
    sc_array_reset (&own);
    mc::checked ("owner queries", checks);
    t8_forest_unref (&f);
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (O)) + how));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C15";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
