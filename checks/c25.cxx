/* C25: the mesh handle shows exactly the leaves of its forest, whatever is done with it. */
#include "fx.hxx"
#include <mesh_handle/mesh.hxx>
#include <mesh_handle/constructor_wrappers.hxx>
#include <cmath>
using namespace fx;
namespace mh = t8_mesh_handle;

typedef std::array<double, 3> V3;
struct Data {
  double a;
  int b;
  char c[5];
};
static Data
data_of (const Leaf &l, int salt)
{
  Data d;
  memset (&d, 0, sizeof d);
  uint64_t h = mc::mix (mc::hash_str (lstr (l)), salt);
  d.a = (double) (h % 100003) / 7;
  d.b = (int) (h >> 20);
  for (int i = 0; i < 5; i++)
    d.c[i] = (char) (h >> (8 * i));
  return d;
}
static bool
equal (const Data &x, const Data &y)
{
  return x.a == y.a && x.b == y.b && !memcmp (x.c, y.c, 5);
}
typedef mh::mesh<> Plain;
typedef mh::mesh<mh::union_competence_packs_type<mh::all_cache_element_competences, mh::data_element_competences>, mh::union_competence_packs_type<mh::data_mesh_competences<Data>, mh::dg_mesh_competences>> Full;
typedef mh::mesh<mh::union_competence_packs_type<mh::cache_face_element_competences, mh::element_competence_pack<mh::cache_volume, mh::cache_face_areas>>, mh::dg_mesh_competences> Faces;

static bool
near (double a, double b)
{
  return fabs (a - b) < 1e-11;
}
template <class A, class B>
static bool
near3 (const A &a, const B &b)
{
  return near (a[0], b[0]) && near (a[1], b[1]) && near (a[2], b[2]);
}
static V3
at (const Pt &p, int tree)
{
  return { p.x[0] / (double) ONE + SHIFT * tree, p.x[1] / (double) ONE, p.x[2] / (double) ONE };
}
static V3
cross (const V3 &a, const V3 &b)
{
  return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
}
static V3
sub (const V3 &a, const V3 &b)
{
  return { a[0] - b[0], a[1] - b[1], a[2] - b[2] };
}
static double
dot (const V3 &a, const V3 &b)
{
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
/* what the geometry of a leaf must be */
struct Geo {
  std::vector<V3> v;
  V3 cen { 0, 0, 0 };
  double vol;
  struct F {
    std::vector<V3> v;
    V3 cen { 0, 0, 0 }, normal { 0, 0, 0 };
    double area;
    int shape;
  };
  std::vector<F> f;
};
static Geo
geo (const Model &M, const Leaf &l)
{
  const Cell &c = M.nd (l).c;
  int dim = DIM[c.shape];
  Geo g;
  for (int i = 0; i < c.nv; i++) {
    g.v.push_back (at (c.v[i], l.tree));
    for (int d = 0; d < 3; d++)
      g.cen[d] += g.v[i][d] / c.nv;
  }
  double w = (double) vol6 (c), s = (double) ONE;
  g.vol = dim == 0 ? 0 : dim == 1 ? w / s : dim == 2 ? w / s / s / 2 : w / s / s / s / 6;
  for (int f = 0; f < NF[c.shape]; f++) {
    Geo::F q;
    for (auto &p : face_points (c, f))
      q.v.push_back (at (p, l.tree));
    int n = (int) q.v.size ();
    for (auto &x : q.v)
      for (int d = 0; d < 3; d++)
        q.cen[d] += x[d] / n;
    q.shape = n == 1 ? 0 : n == 2 ? 1 : n == 3 ? 3 : 2;
    V3 out = sub (q.cen, g.cen), nn = out;
    q.area = 0;
    if (n == 2) {
      V3 t = sub (q.v[1], q.v[0]);
      q.area = sqrt (dot (t, t));
      double a = dot (out, t) / dot (t, t);
      for (int d = 0; d < 3; d++)
        nn[d] -= a * t[d];
    }
    if (n > 2) {
      nn = cross (sub (q.v[1], q.v[0]), sub (q.v[2], q.v[0]));
      q.area = sqrt (dot (nn, nn)) * (n == 4 ? 1 : 0.5); /* the faces are triangles and parallelograms */
      if (dot (nn, out) < 0)
        for (double &x : nn)
          x = -x;
    }
    double len = sqrt (dot (nn, nn));
    for (int d = 0; d < 3; d++)
      q.normal[d] = nn[d] / len;
    g.f.push_back (q);
  }
  return g;
}
static int
orientation_of (const Mesh &m, int tree, int face)
{
  for (auto &j : m.joins)
    if ((j.t0 == tree && j.f0 == face) || (j.t1 == tree && j.f1 == face))
      return j.orient;
  return 0;
}
/* which leaves a process sees, and under which numbers */
#if T8_ENABLE_DEBUG || defined(__SANITIZE_ADDRESS__)
static const bool SMALL = true;
#else
static const bool SMALL = false;
#endif
struct View {
  const Model *M;
  Cuts o;
  int rank;
  std::vector<int> G;
  int nl () const { return o[rank + 1] - o[rank]; }
  int n () const { return nl () + (int) G.size (); }
  int leaf (int q) const { return q < nl () ? o[rank] + q : G[q - nl ()]; }
  int
  index (int lf) const
  {
    if (lf >= o[rank] && lf < o[rank + 1])
      return lf - o[rank];
    auto it = std::lower_bound (G.begin (), G.end (), lf);
    return it != G.end () && *it == lf ? nl () + (int) (it - G.begin ()) : -1;
  }
};
template <class MESH>
static void
check_view (MESH &h, const View &w, const char *what, bool fresh)
{
  typedef typename MESH::element_class EL;
  const Model &M = *w.M;
  t8_forest_t f = h.get_forest ();
  const t8_scheme *s = t8_forest_get_scheme (f);
  MC_CHECK (h.get_num_local_elements () == w.nl () && h.get_num_ghosts () == (int) w.G.size (), "%s: rank %d: %d elements and %d ghosts, expected %d and %zu", what, w.rank, h.get_num_local_elements (), h.get_num_ghosts (), w.nl (),
            w.G.size ());
  MC_CHECK (h.get_dimension () == M.m->dim (), "%s: dimension %d", what, h.get_dimension ());
  const MESH &ch = h;
  MC_CHECK (h.end () - h.begin () == w.nl () && ch.end () - ch.begin () == w.nl () && h.cend () - h.cbegin () == w.nl (), "%s: rank %d: the iteration has %d elements, expected %d", what, w.rank, (int) (h.end () - h.begin ()), w.nl ());
  int k = 0;
  for (auto &e : h) {
    MC_CHECK (&e == &h[k] && &e == &ch[k] && e.get_element_handle_id () == k, "%s: rank %d: element %d of the iteration has number %d", what, w.rank, k, e.get_element_handle_id ());
    k++;
  }
  const Adjacency &A = adjacency (M);
  for (int pass = 0; pass < 2; pass++)
    for (int r = 0; r < w.n (); r++) {
      int q = pass ? w.n () - 1 - r : r, lf = w.leaf (q);
      const Leaf &l = M.L[lf];
      const Cell &c = M.nd (l).c;
      const EL &e = ch[q];
      char wh[200];
      snprintf (wh, sizeof wh, "%s: rank %d: element %d (%s%s), query %d", what, w.rank, q, lstr (l).c_str (), q < w.nl () ? "" : ", ghost", pass);
      Geo g = geo (M, l);
      t8_locidx_t lt = e.get_local_tree_id ();
      Leaf is { (int) t8_forest_global_tree_id (f, lt), path_of (s, t8_forest_get_tree_class (f, lt), e.get_forest_element ()) };
      MC_CHECK (is == l, "%s is leaf %s", wh, lstr (is).c_str ());
      MC_CHECK (e.is_ghost_element () == (q >= w.nl ()) && e.get_element_handle_id () == q && e.get_mesh () == &h, "%s: ghost %d, number %d", wh, e.is_ghost_element (), e.get_element_handle_id ());
      MC_CHECK ((int) e.get_level () == l.level () && (int) e.get_shape () == c.shape && e.get_num_faces () == NF[c.shape] && e.get_num_vertices () == c.nv, "%s: level %d, shape %d, %d faces, %d corners", wh, (int) e.get_level (),
                (int) e.get_shape (), e.get_num_faces (), e.get_num_vertices ());
      if constexpr (EL::has_volume_cache ())
        MC_CHECK (pass == 0 || e.volume_cache_filled (), "%s: the volume was not stored", wh);
      MC_CHECK (near (e.get_volume (), g.vol), "%s: volume %.12g, expected %.12g", wh, e.get_volume (), g.vol);
      /* single corners first on even elements, all corners first on odd ones */
      for (int y = 0; y < 2; y++)
        if ((y ^ (q & 1)) == 0)
          for (int i = 0; i < c.nv; i++)
            MC_CHECK (near3 (e.get_vertex_coordinates (i), g.v[i]), "%s: corner %d", wh, i);
        else {
          auto all = e.get_vertex_coordinates ();
          MC_CHECK ((int) all.size () == c.nv, "%s: %zu corner coordinates", wh, all.size ());
          for (int i = 0; i < c.nv; i++)
            MC_CHECK (near3 (all[i], g.v[i]), "%s: corner %d of all", wh, i);
        }
      MC_CHECK (near3 (e.get_centroid (), g.cen), "%s: centroid", wh);
      if (DIM[c.shape] > 0) {
        double D = 0;
        for (auto &a : g.v)
          for (auto &b : g.v)
            D = std::max (D, sqrt (dot (sub (a, b), sub (a, b))));
        double d = e.get_diameter ();
        MC_CHECK (DIM[c.shape] == 1 ? near (d, D) : d >= D / 4 && d <= 2 * D, "%s: diameter %g, corners are up to %g apart", wh, d, D);
        MC_CHECK (d == t8_forest_element_diam (f, lt, e.get_forest_element ()), "%s: diameter differs from the one of the forest", wh);
      }
      for (int fc = 0; fc < NF[c.shape]; fc++) {
        const Geo::F &x = g.f[fc];
        MC_CHECK ((int) e.get_face_shape (fc) == x.shape && e.get_num_vertices_of_face (fc) == (int) x.v.size (), "%s face %d: shape %d", wh, fc, (int) e.get_face_shape (fc));
        std::set<int> seen;
        for (size_t i = 0; i < x.v.size (); i++) {
          int v = e.face_vertex_to_element_vertex (fc, (int) i);
          MC_CHECK (v >= 0 && v < c.nv && seen.insert (v).second, "%s face %d: corner %zu is corner %d of the element", wh, fc, i, v);
          bool on = false;
          for (auto &y : x.v)
            on = on || near3 (y, g.v[v]);
          MC_CHECK (on, "%s face %d: corner %zu is corner %d of the element, which is not on the face", wh, fc, i, v);
        }
        MC_CHECK (near (e.get_face_area (fc), x.area), "%s face %d: area %.12g, expected %.12g", wh, fc, e.get_face_area (fc), x.area);
        MC_CHECK (near3 (e.get_face_centroid (fc), x.cen), "%s face %d: centroid", wh, fc);
        MC_CHECK (near3 (e.get_face_normal (fc), x.normal), "%s face %d: normal", wh, fc);
        if constexpr (EL::has_face_neighbor_cache ())
          MC_CHECK (pass == 0 || e.neighbor_cache_filled (fc), "%s face %d: the neighbours were not stored", wh, fc);
        std::vector<std::pair<int, int>> want, got;
        for (auto &y : A.a[lf][fc])
          if (w.index (y.leaf) >= 0)
            want.push_back ({ w.index (y.leaf), y.face });
        std::sort (want.begin (), want.end ());
        std::vector<int> dual { 77, 78 };
        auto nb = (pass + q) % 3 ? e.get_face_neighbors (fc, dual) : e.get_face_neighbors (fc);
        bool hasdual = (pass + q) % 3;
        MC_CHECK (!hasdual || dual.size () == nb.size (), "%s face %d: %zu neighbours, %zu face numbers", wh, fc, nb.size (), dual.size ());
        std::string list;
        for (size_t i = 0; i < nb.size (); i++) {
          int id = nb[i]->get_element_handle_id ();
          MC_CHECK (id >= 0 && id < w.n () && nb[i] == &ch[id], "%s face %d: neighbour %zu is not an element of the mesh", wh, fc, i);
          got.push_back ({ id, hasdual ? dual[i] : 0 });
          list += " " + std::to_string (id);
        }
        if (!hasdual)
          for (auto &y : want)
            y.second = 0;
        std::sort (want.begin (), want.end ());
        std::sort (got.begin (), got.end ());
        MC_CHECK (got == want, "%s face %d: neighbours%s, expected %zu others, in %s", wh, fc, list.c_str (), want.size (), M.str ().c_str ());
      }
      mc::checked ("element queries", 10 + 6 * NF[c.shape]);
    }
}
/* element data: set, exchange, read */
static void
check_data (Full &h, const View &w, int salt, int how, const char *what)
{
  if (how == 0) {
    std::vector<Data> v;
    for (int i = 0; i < w.nl (); i++)
      v.push_back (data_of (w.M->L[w.leaf (i)], salt));
    h.set_element_data (v);
    MC_CHECK ((int) h.get_element_data ().size () == w.nl (), "%s: rank %d: %zu data entries", what, w.rank, h.get_element_data ().size ());
  }
  else
    for (int r = 0; r < w.nl (); r++) {
      int i = how == 1 ? r : w.nl () - 1 - r;
      h[i].set_element_data (data_of (w.M->L[w.leaf (i)], salt));
    }
  for (int i = 0; i < w.nl (); i++)
    MC_CHECK (equal (h[i].get_element_data (), data_of (w.M->L[w.leaf (i)], salt)), "%s: rank %d: data of element %d", what, w.rank, i);
  h.exchange_ghost_data ();
  MC_CHECK ((int) h.get_element_data ().size () == w.n (), "%s: rank %d: %zu data entries after the exchange, expected %d", what, w.rank, h.get_element_data ().size (), w.n ());
  for (int i = 0; i < w.n (); i++)
    MC_CHECK (equal (h[i].get_element_data (), data_of (w.M->L[w.leaf (i)], salt)) && equal (h.get_element_data ()[i], data_of (w.M->L[w.leaf (i)], salt)), "%s: rank %d: data of %s %d (%s) after the exchange", what, w.rank,
              i < w.nl () ? "element" : "ghost", i, lstr (w.M->L[w.leaf (i)]).c_str ());
  mc::checked ("element data", 2 * w.n ());
}
/* the list of faces: every face that touches a local element, once */
template <class MESH>
static void
check_faces (MESH &h, const View &w, const char *what)
{
  const Model &M = *w.M;
  const Adjacency &A = adjacency (M);
  h.fill_unique_face_vector ();
  for (int q = 0; q < w.n (); q++) {
    int own = q < w.nl () ? -1 : owner_of (w.o, w.leaf (q));
    MC_CHECK (h.get_rank (q) == own, "%s: rank %d: element %d belongs to %d, expected %d", what, w.rank, q, h.get_rank (q), own);
  }
  if (w.nl () == 0)
    return; /* the lists of an empty process cannot be asked for (assertion) */
  if (M.m->dim () == 0)
    return;
  const std::vector<mh::face> &F = h.get_unique_face_vector ();
  const auto &EF = h.get_element_face_vector ();
  MC_CHECK ((int) EF.size () == w.n (), "%s: rank %d: faces of %zu elements, expected %d", what, w.rank, EF.size (), w.n ());
  /* expected: large (or first) side -> the face */
  std::map<std::pair<int, int>, std::set<int>> owner; /* local (element, face) -> entries that list it as a side */
  for (size_t i = 0; i < F.size (); i++) {
    const mh::face &x = F[i];
    char wh[160];
    snprintf (wh, sizeof wh, "%s: rank %d: face %zu", what, w.rank, i);
    MC_CHECK (!x.sides.empty (), "%s has no sides", wh);
    std::set<std::pair<int, int>> sides;
    for (auto &y : x.sides) {
      MC_CHECK (y.element_id >= 0 && y.element_id < w.n () && y.local_face_id >= 0 && y.local_face_id < NF[M.nd (w.leaf (y.element_id)).c.shape] && sides.insert ({ y.element_id, y.local_face_id }).second, "%s: bad or repeated side %d of element %d", wh,
                y.local_face_id, y.element_id);
      MC_CHECK (y.rank == (y.element_id < w.nl () ? -1 : owner_of (w.o, w.leaf (y.element_id))), "%s: rank %d of side of element %d", wh, y.rank, y.element_id);
      if (y.element_id < w.nl ())
        owner[{ y.element_id, y.local_face_id }].insert ((int) i);
      MC_CHECK (y.local_face_id < (int) EF[y.element_id].size () && EF[y.element_id][y.local_face_id] == (int) i, "%s is not the entry of face %d of element %d", wh, y.local_face_id, y.element_id);
    }
    int e0 = x.sides[0].element_id, f0 = x.sides[0].local_face_id, l0 = w.leaf (e0);
    const auto &N = A.a[l0][f0];
    mh::face_type type;
    std::set<std::pair<int, int>> need { { e0, f0 } }, may { { e0, f0 } };
    bool remote = e0 >= w.nl ();
    for (auto &y : N) {
      int id = w.index (y.leaf);
      if (id < 0)
        continue;
      may.insert ({ id, y.face });
      if (id < w.nl () || e0 < w.nl ())
        need.insert ({ id, y.face });
      remote = remote || id >= w.nl ();
    }
    if (N.empty ())
      type = mh::face_type::BOUNDARY;
    else if (N.size () == 1 && M.L[N[0].leaf].level () == M.L[l0].level ())
      type = remote ? mh::face_type::MPI_CONFORMAL : mh::face_type::CONFORMAL;
    else {
      MC_CHECK (M.L[N[0].leaf].level () > M.L[l0].level (), "%s: the first side %d/%d is not the large one", wh, e0, f0);
      type = remote ? mh::face_type::MPI_MORTAR : mh::face_type::MORTAR;
    }
    MC_CHECK (x.type == type, "%s (element %d face %d) has type %d, expected %d", wh, e0, f0, (int) x.type, (int) type);
    if (x.sides.size () == 2 && (type == mh::face_type::CONFORMAL || type == mh::face_type::MPI_CONFORMAL))
      MC_CHECK (e0 <= x.sides[1].element_id, "%s: the sides are in the wrong order", wh);
    MC_CHECK (std::includes (sides.begin (), sides.end (), need.begin (), need.end ()) && std::includes (may.begin (), may.end (), sides.begin (), sides.end ()), "%s (element %d face %d) has %zu sides, expected %zu, in %s", wh, e0, f0, sides.size (),
              need.size (), M.str ().c_str ());
    const Node &nd = M.nd (l0);
    int wo = nd.rf[f0] >= 0 && !N.empty () ? orientation_of (*M.m, M.L[l0].tree, nd.rf[f0]) : 0;
    MC_CHECK (x.orientation == wo, "%s (element %d face %d): orientation %d, expected %d", wh, e0, f0, x.orientation, wo);
    mc::checked ("faces of the face list");
  }
  for (int q = 0; q < w.nl (); q++) {
    int nf = NF[M.nd (w.leaf (q)).c.shape];
    MC_CHECK ((int) EF[q].size () == nf, "%s: rank %d: element %d has %zu face entries", what, w.rank, q, EF[q].size ());
    for (int f = 0; f < nf; f++) {
      const auto &own = owner[std::make_pair (q, f)];
      MC_CHECK (own.size () == 1, "%s: rank %d: face %d of element %d (%s) appears %zu times in the list, in %s", what, w.rank, f, q, lstr (M.L[w.leaf (q)]).c_str (), own.size (), M.str ().c_str ());
    }
  }
}
static std::vector<int> g_count;
static Cuts
gather_counts (t8_forest_t f, int P, int rank)
{
  sc_MPI_Barrier (sc_MPI_COMM_WORLD);
  g_count[rank] = t8_forest_get_local_num_leaf_elements (f);
  sc_MPI_Barrier (sc_MPI_COMM_WORLD);
  Cuts R (P + 1, 0);
  for (int p = 0; p < P; p++)
    R[p + 1] = R[p] + g_count[p];
  sc_MPI_Barrier (sc_MPI_COMM_WORLD);
  return R;
}
static t8_forest_t
with_ghosts (t8_forest_t g)
{
  t8_forest_t f;
  t8_forest_init (&f);
  t8_forest_set_copy (f, g);
  t8_forest_set_ghost (f, 1, T8_GHOST_FACES);
  t8_forest_commit (f);
  return f;
}
static const std::vector<std::string> meshes
  = { "line", "line3", "line_ring2", "line_self", "quad", "quad2_flip", "quad3_L", "quad_periodic", "quad_moebius", "tri", "tri2_flip", "tri_quad_tri", "quad4_ring", "tri3_fan", "hex", "hex2_rot", "tet", "tet2_rot", "prism", "prism2_tri",
      "prism2_quad", "pyramid", "pyra2_quad", "pyra2_tri", "hex_prism", "tet_prism", "hex_pyra_tet", "pyra_prism", "tet_pyra", "hex_periodic", "sa_quad2", "disconnected" };
static void
finish (long bal)
{
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
}
/* a handle of a given forest */
static void
part_view ()
{
  bool dbg = SMALL && !mc::thorough ();
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  SHIFT = 2;
  Model M = choose_model (m, 0, d == 3 ? 0 : 1, d == 3 ? mc::q (dbg ? 1 : 2, 2) : mc::q (dbg ? 1 : 2, 3), 4);
  int n = (int) M.size ();
  int few = mc::q (n <= 12 ? 3 : 2, 3), many = n >= 4 && n <= 12;
  int P = 1 + mc::choose (few + many, "ranks");
  if (P > few) /* many processes, so that one has ghosts of several */
    P = std::min (n, 5);
  Cuts O = P > few ? even_cuts (n, P) : choose_cuts (n, P, n <= mc::q (5, 8));
  int gh = P > few ? 1 : P > 1 ? 1 - mc::choose (2, "without ghosts") : 1;
  int pack = mc::choose (3, "competences");
  int cmp = P > 1 && n <= 8 ? mc::choose (2, "partitioned coarse mesh") : 0;
  bool bal_in = is_balanced (M);
  g_count.assign (P, 0);
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = build_forest (M, O, rank, cmp);
    if (gh)
      f = with_ghosts (f);
    View w { &M, O, rank, gh && P > 1 ? ghost_leaves (M, O, rank) : std::vector<int> () };
    t8_forest_ref (f); /* the test keeps one reference */
    auto use = [&] (auto &h) {
      check_view (h, w, "mesh of a forest", true);
      if (gh)
        MC_CHECK (h.is_balanced () == t8_forest_is_balanced (f), "is_balanced");
      if (gh && P == 1)
        MC_CHECK (h.is_balanced () == bal_in, "is_balanced says %d", h.is_balanced ());
    };
    if (pack == 0) {
      Plain h (f);
      use (h);
    }
    else if (pack == 1) {
      Full h (f);
      if (gh && bal_in)
        check_faces (h, w, "mesh of a forest");
      else
        use (h);
      check_view (h, w, "after the queries", !(gh && bal_in));
      check_data (h, w, 3, (n + P) % 3, "mesh of a forest");
      check_data (h, w, 4, (n + P + 1) % 3, "data set again");
    }
    else {
      Faces h (f);
      use (h);
      if (gh && bal_in) {
        check_faces (h, w, "mesh of a forest");
        check_faces (h, w, "faces computed again");
      }
    }
    check_forest (f, M, O, rank, "forest of a destroyed handle");
    t8_forest_unref (&f);
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (O)) + gh * 8 + cmp * 4 + pack));
  });
  finish (bal);
  mc::sample (mc::describe () + " " + M.str ());
}
/* sequences of changes of a handle */
struct Step {
  int adapt = 0; /* 0 no, else a way */
  std::vector<int> verdict;
  int partition = 0, balance = 0, ghost = 0;
};
template <class MESH>
static void
run_history (const Model &start, const Cuts &O, int P, int rank, bool ghost0, const std::vector<Step> &steps, bool cmp)
{
  t8_forest_t f = build_forest (start, O, rank, cmp);
  if (ghost0)
    f = with_ghosts (f);
  MESH h (f);
  Model M = start;
  Cuts R = O;
  int no = 0;
  for (auto &st : steps) {
    char what[40];
    snprintf (what, sizeof what, "after step %d", ++no);
    /* the model of the adaptation: families that lie on one process */
    std::vector<std::pair<int, int>> calls, seen; /* of this process: first element, number */
    Model B;
    B.m = M.m;
    Cuts Q (P + 1, 0);
    auto at = [&] (int i) { return st.verdict[i % st.verdict.size ()]; };
    for (int p = 0; p < P; p++) {
      for (int i = R[p]; i < R[p + 1];) {
        const Leaf &l = M.L[i];
        int fam = 1;
        if (!l.path.empty () && l.path.back () == 0) {
          Leaf par = l;
          par.path.pop_back ();
          auto r = M.range (par);
          int nc = M.nd (par).nch;
          bool flat = r.second - r.first == nc && r.first == i && r.second <= R[p + 1];
          for (int k = r.first; flat && k < r.second; k++)
            flat = M.L[k].level () == l.level ();
          if (flat)
            fam = nc;
        }
        int v = st.adapt ? at (i) : 0;
        if (v < 0 && fam == 1)
          v = 0;
        if (st.adapt && p == rank)
          calls.push_back ({ i - R[p], fam });
        if (v < 0) {
          Leaf par = l;
          par.path.pop_back ();
          B.L.push_back (par);
          i += fam;
        }
        else {
          if (v > 0)
            add_children (*M.m, l, B.L);
          else
            B.L.push_back (l);
          i++;
        }
      }
      Q[p + 1] = (int) B.size ();
    }
    const MESH *self = &h;
    if (st.adapt) {
      typedef std::span<const typename MESH::element_class> SP;
      auto cb = [&, self] (const MESH &mm, SP el) -> int {
        MC_CHECK (&mm == self && el.size () >= 1 && !el[0].is_ghost_element (), "%s: rank %d: the callback gets another mesh", what, rank);
        int id = el[0].get_element_handle_id ();
        for (size_t k = 0; k < el.size (); k++)
          MC_CHECK (&el[k] == &mm[id + (int) k], "%s: rank %d: element %zu of the callback", what, rank, k);
        seen.push_back ({ id, (int) el.size () });
        int v = at (R[rank] + id);
        return v < 0 && el.size () == 1 ? 0 : v;
      };
      if (st.adapt == 1)
        h.set_adapt (cb);
      else {
        struct U {
          int magic;
        };
        std::function<int (const MESH &, SP, U)> cu = [&, cb] (const MESH &mm, SP el, U u) {
          MC_CHECK (u.magic == 4711, "%s: rank %d: the callback gets other user data", what, rank);
          return cb (mm, el);
        };
        h.set_adapt (MESH::template mesh_adapt_callback_wrapper<U> (cu, U { 4711 }));
      }
    }
    if (st.partition)
      h.set_partition (st.partition == 2);
    if (st.balance)
      h.set_balance (st.balance == 1);
    if (st.ghost)
      h.set_ghost (st.ghost == 1);
    t8_forest_t old = h.get_forest ();
    t8_forest_ref (old);
    h.commit ();
    MC_CHECK (seen == calls, "%s: rank %d: the callback was called %zu times, expected %zu, in %s", what, rank, seen.size (), calls.size (), M.str ().c_str ());
    check_forest (old, M, R, rank, "forest before the step");
    t8_forest_unref (&old);
    M = st.balance ? balance (B) : B;
    f = h.get_forest ();
    R = gather_counts (f, P, rank);
    if (!st.partition && !st.balance)
      MC_CHECK (R == Q, "%s: distribution %s, expected %s", what, cstr (R).c_str (), cstr (Q).c_str ());
    if (st.partition == 1 && !st.balance)
      MC_CHECK (R == even_cuts ((int) M.size (), P), "%s: distribution %s of %zu elements", what, cstr (R).c_str (), M.size ());
    MC_CHECK (R[P] == (int) M.size (), "%s: %d elements, expected %zu: %s", what, R[P], M.size (), M.str ().c_str ());
    check_forest (f, M, R, rank, what);
    View w { &M, R, rank, {} };
    if (st.ghost == 1)
      w.G = check_ghosts (f, M, R, rank, what);
    else if (h.get_num_ghosts () > 0)
      w.G = check_ghosts (f, M, R, rank, what); /* left over from the balance */
    check_view (h, w, what, true);
    if constexpr (std::is_same_v<MESH, Full>) {
      check_data (h, w, no, no % 3, what);
      if ((st.ghost == 1 || P == 1) && is_balanced (M))
        check_faces (h, w, what);
    }
    if (rank == 0)
      mc::state (mc::mix (M.hash (), mc::hash_str (cstr (R)) + no));
  }
}
static std::vector<Step>
choose_steps (int count, int n)
{
  std::vector<Step> v;
  for (int i = 0; i < count; i++) {
    Step s;
    /* what is combined in one commit */
    int c = mc::choose (mc::q (9, 12), "combination");
    static const int T[12][4] = { { 1, 0, 0, 1 }, { 0, 1, 0, 1 }, { 0, 0, 2, 1 }, { 0, 0, 0, 1 }, { 2, 1, 0, 0 }, { 1, 1, 2, 1 }, { 1, 0, 1, 0 }, { 0, 2, 0, 1 }, { 0, 0, 0, 0 }, { 1, 2, 0, 1 }, { 2, 0, 2, 1 }, { 0, 1, 1, 2 } };
    s.adapt = T[c][0], s.partition = T[c][1], s.balance = T[c][2], s.ghost = T[c][3];
    static const std::vector<std::vector<int>> P = { { 1 }, { -1 }, { 1, 0, 0, 0, 0 }, { 0, 0, 1 }, { -1, 0, 0, -1, 1 }, { 0, 1, -1 } };
    s.verdict = s.adapt ? P[mc::choose (mc::q (n > 12 ? 4 : 6, 6), "verdicts")] : std::vector<int> { 0 };
    v.push_back (s);
  }
  return v;
}
static void
part_history ()
{
  bool dbg = SMALL && !mc::thorough ();
  static const std::vector<std::string> few = { "line3", "quad_periodic", "tri_quad_tri", "pyramid", "quad3_L", "hex_pyra_tet", "tet2_rot", "prism2_quad", "line_self", "hex" };
  const Mesh &m = choose_mesh (few);
  int d = m.dim ();
  SHIFT = 2;
  Model M = choose_model (m, 0, 1, d == 3 ? 0 : 1, 2);
  int n = (int) M.size ();
  int P = 1 + mc::choose (2, "ranks");
  if (P == 2 && mc::choose (2, "third process"))
    P = 3;
  Cuts O = P == 1 ? Cuts { 0, n } : n <= 4 ? choose_cuts (n, P, false) : even_cuts (n, P);
  int cmp = P > 1 ? mc::choose (2, "partitioned coarse mesh") : 0;
  int thor = n <= 4 && !SMALL && d < 3 ? 3 : d < 3 || n <= 10 ? 2 : 1;
  std::vector<Step> st = choose_steps (mc::q (n <= (dbg ? 2 : 3) && P < 3 ? 2 : 1, thor), n);
  g_count.assign (P, 0);
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) { run_history<Full> (M, O, P, rank, n % 2, st, cmp); });
  finish (bal);
  mc::sample (mc::describe () + " " + M.str ());
}
/* a handle that is given up with changes that were never committed, then further ones */
static void
part_giveup ()
{
  const Mesh &m = choose_mesh ({ "quad2_flip", "line3", "tet", "pyramid" });
  int mask = mc::choose (16, "requested changes"), P = 1 + mc::choose (2, "ranks"), rounds = 1 + mc::choose (2, "rounds");
  int order = mc::choose (2, "ghost first");
  Model M = uniform (m, 1);
  int n = (int) M.size ();
  Cuts O = even_cuts (n, P);
  g_count.assign (P, 0);
  SHIFT = 2;
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) {
    for (int r = 0; r < rounds; r++) {
      t8_forest_t f = build_forest (M, O, rank);
      Plain h (f);
      if (order && (mask & 8))
        h.set_ghost (true);
      if (mask & 1)
        h.set_adapt ([] (const Plain &, std::span<const Plain::element_class>) { return 1; });
      if (mask & 2)
        h.set_partition ();
      if (mask & 4)
        h.set_balance ();
      if (!order && (mask & 8))
        h.set_ghost (true);
    }
    sc_MPI_Barrier (sc_MPI_COMM_WORLD);
    std::vector<Step> st (1);
    st[0].adapt = 1;
    st[0].verdict = { -1 };
    st[0].ghost = 1;
    run_history<Plain> (M, O, P, rank, false, st, false);
  });
  finish (bal);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
/* ready-made meshes */
static void
part_wrappers ()
{
  int cls = mc::choose (8, "class or hybrid"); /* 7: pyramid, 0: hybrid */
  int level = mc::choose (cls == 0 ? 1 + mc::thorough () : DIM[cls] < 3 ? 3 : 2, "level"), P = 1 + mc::choose (2, "ranks");
  int part = cls ? mc::choose (2, "partitioned coarse mesh") : 0, gh = mc::choose (2, "ghosts"), per = cls != 7 ? mc::choose (2, "periodic") : 0;
  int dim = cls ? DIM[cls] : 3;
  std::vector<double> vol (P, 0), bnd (P, 0);
  std::vector<long> cnt (P, 0);
  std::vector<std::vector<std::pair<std::vector<double>, int>>> cen (P); /* centroids of elements, 1 for ghosts */
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) {
    std::unique_ptr<Faces> h;
    if (cls)
      h = mh::handle_hypercube_uniform_default<Faces> ((t8_eclass_t) cls, level, sc_MPI_COMM_WORLD, part, gh, per);
    else
      h = mh::handle_hypercube_hybrid_uniform_default<Faces> (level, sc_MPI_COMM_WORLD, gh, per);
    MC_CHECK (h->get_dimension () == dim, "dimension %d", h->get_dimension ());
    MC_CHECK (gh || h->get_num_ghosts () == 0, "ghosts that were not asked for");
    for (int q = 0; q < h->get_num_local_elements () + h->get_num_ghosts (); q++) {
      auto &e = (*h)[q];
      for (auto &x : e.get_vertex_coordinates ())
        for (int d = 0; d < 3; d++)
          MC_CHECK (x[d] > -1e-12 && x[d] < (d < dim ? 1 : 0) + 1e-12, "a corner outside the unit cube");
      MC_CHECK ((int) e.get_level () == level, "level %d", (int) e.get_level ());
      auto c = e.get_centroid ();
      cen[rank].push_back ({ { c[0], c[1], c[2] }, e.is_ghost_element () });
      if (e.is_ghost_element ())
        continue;
      vol[rank] += e.get_volume ();
      cnt[rank]++;
      if (gh || P == 1)
        for (int f = 0; f < e.get_num_faces (); f++)
          if (e.get_face_neighbors (f).empty ())
            bnd[rank] += dim == 1 ? 1 : e.get_face_area (f);
    }
    if ((gh || P == 1) && h->get_num_local_elements () > 0) {
      h->fill_unique_face_vector ();
      double b = 0;
      for (auto &x : h->get_unique_face_vector ())
        if (x.type == mh::face_type::BOUNDARY)
          b += dim == 1 ? 1 : (*h)[x.sides[0].element_id].get_face_area (x.sides[0].local_face_id);
      MC_CHECK (fabs (b - bnd[rank]) < 1e-9, "boundary faces of the face list");
    }
  });
  double V = 0, B = 0;
  long N = 0;
  std::vector<std::vector<double>> own;
  for (int p = 0; p < P; p++) {
    V += vol[p], B += bnd[p], N += cnt[p];
    for (auto &x : cen[p])
      if (!x.second)
        own.push_back (x.first);
  }
  for (auto &v : cen)
    for (auto &x : v) {
      int k = 0;
      for (auto &y : own)
        k += near3 (x.first, y);
      MC_CHECK (k == 1, "%d elements at the place of one", k);
    }
  for (int p = 0; p < P; p++)
    MC_CHECK (!gh || cnt[p] == 0 || cnt[p] == N || (long) cen[p].size () > cnt[p], "rank %d has no ghosts", p);
  MC_CHECK (fabs (V - 1) < 1e-9, "total volume %g", V);
  if (gh || P == 1)
    MC_CHECK (fabs (B - (per ? 0 : 2 * dim)) < 1e-9, "boundary of size %g, expected %d", B, per ? 0 : 2 * dim);
  if (cls) {
    static const int T[8] = { 1, 1, 1, 2, 1, 6, 2, 3 };
    MC_CHECK ((unsigned __int128) N == T[cls] * leaves (cls, cls, level), "%ld elements", N);
  }
  finish (bal);
  mc::state (mc::hash_str (mc::describe ()));
  mc::checked ("ready-made meshes");
  mc::sample (mc::describe ());
}
static void
body ()
{
  switch (mc::choose (4, "part")) {
  case 0:
    return part_view ();
  case 1:
    return part_history ();
  case 2:
    return part_giveup ();
  case 3:
    return part_wrappers ();
  }
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C25";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
