/* Reference model of a forest and the enumeration of meshes, refinements, distributions.
 *
 * A leaf is (global tree, path of child ids); the curve order is the lexicographic order. A model forest is the sorted
 * list of its leaves; a distribution is a list of cut positions. Face adjacency of leaves is computed from exact corner
 * coordinates and from the gluing of the trees, never from the neighbour functions of the library. */
#ifndef FX_HXX
#define FX_HXX
#include "glue.hxx"
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_forest/t8_forest_general.h>
#include <t8_forest/t8_forest_types.h>
#include <t8_forest/t8_forest_private.h>
#include <t8_forest/t8_forest_partition.h>
#include <t8_forest/t8_forest_ghost.h>
#include <t8_data/t8_shmem.h>
#include <functional>
#include <unordered_map>

namespace fx
{
/* ------------------------------------------------------------------------------------------------ meshes */
struct Join {
  int t0, t1, f0, f1, orient;
};
struct Nb {
  int t = -1, f = -1;
  std::vector<int> map; /* corner map of the face onto the neighbour face */
};
struct Mesh {
  std::string name;
  int which = 0; /* scheme: 0 default, 1 standalone */
  std::vector<int> cls;
  std::vector<Join> joins;
  std::vector<std::array<Nb, 6>> nb;
  int dim () const { return DIM[cls[0]]; }
  bool has_pyramid () const { return std::count (cls.begin (), cls.end (), (int) T8_ECLASS_PYRAMID) > 0; }
  void
  finish ()
  {
    nb.assign (cls.size (), {});
    for (auto &j : joins) {
      Nb a, b;
      glue_maps (cls[j.t0], j.f0, cls[j.t1], j.f1, j.orient, a.map, b.map);
      a.t = j.t1, a.f = j.f1, b.t = j.t0, b.f = j.f0;
      nb[j.t0][j.f0] = a;
      nb[j.t1][j.f1] = b;
    }
  }
};
enum { V = 0, L = 1, Q = 2, T = 3, H = 4, E = 5, P = 6, Y = 7 };
static inline Mesh
mk (const char *name, std::vector<int> cls, std::vector<Join> joins, int which = 0)
{
  Mesh m;
  m.name = name;
  m.which = which;
  m.cls = cls;
  m.joins = joins;
  m.finish ();
  return m;
}
/* All 1- to 4-tree meshes used by the forest checks; every class, every kind of interface, flips, self-gluing. */
static inline const std::vector<Mesh> &
catalogue ()
{
  static std::vector<Mesh> c;
  if (!c.empty ())
    return c;
  /* single trees */
  c.push_back (mk ("line", { L }, {}));                                                          /* 0 */
  c.push_back (mk ("quad", { Q }, {}));                                                          /* 1 */
  c.push_back (mk ("tri", { T }, {}));                                                           /* 2 */
  c.push_back (mk ("hex", { H }, {}));                                                           /* 3 */
  c.push_back (mk ("tet", { E }, {}));                                                           /* 4 */
  c.push_back (mk ("prism", { P }, {}));                                                         /* 5 */
  c.push_back (mk ("pyramid", { Y }, {}));                                                       /* 6 */
  /* several trees */
  c.push_back (mk ("line3", { L, L, L }, { { 0, 1, 1, 0, 0 }, { 1, 2, 1, 1, 0 } }));             /* 7 */
  c.push_back (mk ("line_ring2", { L, L }, { { 0, 1, 1, 0, 0 }, { 1, 0, 1, 0, 0 } }));           /* 8 */
  c.push_back (mk ("quad2", { Q, Q }, { { 0, 1, 1, 0, 0 } }));                                   /* 9 */
  c.push_back (mk ("quad2_flip", { Q, Q }, { { 0, 1, 1, 3, 1 } }));                              /* 10 */
  c.push_back (mk ("quad3_L", { Q, Q, Q }, { { 0, 1, 1, 0, 0 }, { 0, 2, 3, 1, 1 } }));           /* 11 */
  c.push_back (mk ("quad_periodic", { Q }, { { 0, 0, 0, 1, 0 }, { 0, 0, 2, 3, 0 } }));           /* 12 */
  c.push_back (mk ("quad_moebius", { Q }, { { 0, 0, 0, 1, 1 } }));                               /* 13 */
  c.push_back (mk ("tri2", { T, T }, { { 0, 1, 1, 1, 0 } }));                                    /* 14 */
  c.push_back (mk ("tri2_flip", { T, T }, { { 0, 1, 0, 2, 1 } }));                               /* 15 */
  c.push_back (mk ("tri_quad_tri", { T, Q, T }, { { 0, 1, 0, 0, 0 }, { 1, 2, 1, 1, 1 } }));      /* 16 */
  c.push_back (mk ("hex2", { H, H }, { { 0, 1, 1, 0, 0 } }));                                    /* 17 */
  c.push_back (mk ("hex2_rot", { H, H }, { { 0, 1, 3, 4, 2 } }));                                /* 18 */
  c.push_back (mk ("tet2", { E, E }, { { 0, 1, 0, 0, 0 } }));                                    /* 19 */
  c.push_back (mk ("tet2_rot", { E, E }, { { 0, 1, 1, 3, 2 } }));                                /* 20 */
  c.push_back (mk ("prism2_tri", { P, P }, { { 0, 1, 4, 3, 0 } }));                              /* 21 */
  c.push_back (mk ("prism2_quad", { P, P }, { { 0, 1, 1, 2, 1 } }));                             /* 22 */
  c.push_back (mk ("pyra2_quad", { Y, Y }, { { 0, 1, 4, 4, 1 } }));                              /* 23 */
  c.push_back (mk ("pyra2_tri", { Y, Y }, { { 0, 1, 0, 3, 1 } }));                               /* 24 */
  c.push_back (mk ("hex_prism", { H, P }, { { 0, 1, 1, 0, 3 } }));                               /* 25 */
  c.push_back (mk ("tet_prism", { E, P }, { { 0, 1, 2, 4, 1 } }));                               /* 26 */
  c.push_back (mk ("hex_pyra_tet", { H, Y, E }, { { 0, 1, 5, 4, 0 }, { 1, 2, 1, 2, 2 } }));      /* 27 */
  c.push_back (mk ("pyra_prism", { Y, P }, { { 0, 1, 2, 3, 1 } }));                              /* 28 */
  c.push_back (mk ("tet_pyra", { E, Y }, { { 0, 1, 3, 3, 0 } }));                                /* 29 */
  /* standalone scheme */
  c.push_back (mk ("sa_line2", { L, L }, { { 0, 1, 1, 0, 0 } }, 1));                             /* 30 */
  c.push_back (mk ("sa_quad2", { Q, Q }, { { 0, 1, 1, 2, 1 } }, 1));                             /* 31 */
  c.push_back (mk ("sa_hex2", { H, H }, { { 0, 1, 5, 1, 3 } }, 1));                              /* 32 */
  /* larger ones */
  c.push_back (mk ("quad4_ring", { Q, Q, Q, Q }, { { 0, 1, 1, 0, 0 }, { 1, 3, 3, 2, 0 }, { 3, 2, 0, 1, 0 }, { 2, 0, 2, 3, 0 } })); /* 33 */
  c.push_back (mk ("tri3_fan", { T, T, T }, { { 0, 1, 1, 2, 1 }, { 1, 2, 1, 2, 1 } }));          /* 34 */
  c.push_back (mk ("vertex", { V }, {}));                                                        /* 35 */
  c.push_back (mk ("disconnected", { Q, T, Q }, {}));                                            /* 36 */
  c.push_back (mk ("line_self", { L }, { { 0, 0, 0, 1, 0 } }));                                  /* 37 */
  c.push_back (mk ("hex_periodic", { H }, { { 0, 0, 0, 1, 0 } }));                               /* 38 */
  return c;
}
static inline const Mesh &
mesh_by_name (const std::string &n)
{
  for (auto &m : catalogue ())
    if (m.name == n)
      return m;
  mc::fail ("harness: no mesh %s", n.c_str ());
}
static inline const Mesh &
choose_mesh (const std::vector<std::string> &names)
{
  return mesh_by_name (names[mc::choose ((int) names.size (), "mesh")]);
}

/* ------------------------------------------------------------------------------------------------ elements by path */
typedef std::string Path; /* bytes: child ids */
static inline std::string
pstr (const Path &p)
{
  std::string r = "/";
  for (char c : p)
    r += "0123456789abcdef"[(int) c];
  return r;
}
struct Node {
  Cell c;
  int nch;
  int pf[6];            /* the face of the parent that contains face f, or -1 */
  int rf[6];            /* the face of the root that contains face f, or -1 */
  std::string key[6];   /* canonical corner set of face f */
  std::vector<Pt> fp[6];
};
static inline std::string
face_key (std::vector<Pt> v)
{
  std::sort (v.begin (), v.end ());
  return std::string ((const char *) v.data (), v.size () * sizeof (Pt));
}
static inline const Node &
node (int which, int cls, const Path &p)
{
  static std::unordered_map<std::string, Node> memo;
  std::string k;
  k.push_back ((char) (which * 8 + cls));
  k += p;
  auto it = memo.find (k);
  if (it != memo.end ())
    return it->second;
  const t8_scheme *s = which ? t8_scheme_new_standalone () : t8_scheme_new_default ();
  t8_eclass_t tc = (t8_eclass_t) cls;
  t8_element_t *a, *b;
  s->element_new (tc, 1, &a);
  s->element_new (tc, 1, &b);
  s->set_to_root (tc, a);
  for (char ch : p) {
    s->element_get_child (tc, a, ch, b);
    std::swap (a, b);
  }
  Node n;
  n.c = cell_of (s, tc, a);
  s->element_destroy (tc, 1, &a);
  s->element_destroy (tc, 1, &b);
  s->unref ();
  n.nch = (cls == T8_ECLASS_PYRAMID && n.c.shape == T8_ECLASS_TET) ? 8 : NCH[cls];
  Cell root = root_cell (cls);
  const Node *par = p.empty () ? nullptr : &node (which, cls, p.substr (0, p.size () - 1));
  for (int f = 0; f < NF[n.c.shape]; f++) {
    n.fp[f] = face_points (n.c, f);
    n.key[f] = face_key (n.fp[f]);
    n.pf[f] = n.rf[f] = -1;
    for (int r = 0; r < NF[cls]; r++)
      if (face_subset (root, r, n.fp[f]))
        n.rf[f] = r;
    if (par)
      for (int g = 0; g < NF[par->c.shape]; g++)
        if (face_subset (par->c, g, n.fp[f]))
          n.pf[f] = g;
  }
  return memo.emplace (k, n).first->second;
}
static inline Path
path_of (const t8_scheme *s, t8_eclass_t tc, const t8_element_t *e)
{
  int l = s->element_get_level (tc, e);
  MC_CHECK (l >= 0 && l <= s->get_maxlevel (tc), "element with level %d", l);
  Path p (l, 0);
  for (int i = 1; i <= l; i++)
    p[i - 1] = (char) s->element_get_ancestor_id (tc, e, i);
  return p;
}

/* ------------------------------------------------------------------------------------------------ model forest */
struct Leaf {
  int tree;
  Path path;
  int level () const { return (int) path.size (); }
  bool operator== (const Leaf &o) const { return tree == o.tree && path == o.path; }
  bool operator!= (const Leaf &o) const { return !(*this == o); }
  bool operator< (const Leaf &o) const { return tree != o.tree ? tree < o.tree : path < o.path; }
};
static inline std::string
lstr (const Leaf &l)
{
  return std::to_string (l.tree) + pstr (l.path);
}
static inline bool
is_prefix (const Path &a, const Path &b)
{
  return a.size () <= b.size () && b.compare (0, a.size (), a) == 0;
}
struct Model {
  const Mesh *m = nullptr;
  std::vector<Leaf> L;
  size_t size () const { return L.size (); }
  const Node &nd (size_t i) const { return node (m->which, m->cls[L[i].tree], L[i].path); }
  const Node &nd (const Leaf &l) const { return node (m->which, m->cls[l.tree], l.path); }
  uint64_t
  hash () const
  {
    uint64_t h = mc::hash_str (m->name);
    for (auto &l : L)
      h = mc::mix (mc::mix (h, l.tree + 1), mc::hash_str (l.path));
    return h;
  }
  std::string
  str () const
  {
    std::string r = m->name + " {";
    for (size_t i = 0; i < L.size () && i < 60; i++)
      r += (i ? " " : "") + lstr (L[i]);
    return r + (L.size () > 60 ? " ...}" : "}");
  }
  int
  find (const Leaf &l) const
  {
    auto it = std::lower_bound (L.begin (), L.end (), l);
    return it != L.end () && *it == l ? (int) (it - L.begin ()) : -1;
  }
  /* index of the leaf that contains the element, or -1 (the element is coarser than the leaves there, or removed) */
  int
  covering (const Leaf &e) const
  {
    auto it = std::upper_bound (L.begin (), L.end (), e);
    if (it == L.begin ())
      return -1;
    --it;
    return it->tree == e.tree && is_prefix (it->path, e.path) ? (int) (it - L.begin ()) : -1;
  }
  /* range of leaves that are descendants of (or equal to) e */
  std::pair<int, int>
  range (const Leaf &e) const
  {
    auto a = std::lower_bound (L.begin (), L.end (), e);
    auto b = a;
    while (b != L.end () && b->tree == e.tree && is_prefix (e.path, b->path))
      ++b;
    return { (int) (a - L.begin ()), (int) (b - L.begin ()) };
  }
};
static inline void
add_children (const Mesh &m, const Leaf &l, std::vector<Leaf> &out)
{
  int n = node (m.which, m.cls[l.tree], l.path).nch;
  for (int i = 0; i < n; i++) {
    Leaf c = l;
    c.path.push_back ((char) i);
    out.push_back (c);
  }
}
static inline Model
uniform (const Mesh &m, int level)
{
  Model r;
  r.m = &m;
  for (size_t t = 0; t < m.cls.size (); t++)
    r.L.push_back (Leaf { (int) t, "" });
  for (int l = 0; l < level; l++) {
    std::vector<Leaf> n;
    for (auto &x : r.L)
      add_children (m, x, n);
    r.L.swap (n);
  }
  return r;
}
static inline Model
refine (const Model &a, const std::vector<char> &flag)
{
  Model r;
  r.m = a.m;
  for (size_t i = 0; i < a.L.size (); i++)
    if (flag[i])
      add_children (*a.m, a.L[i], r.L);
    else
      r.L.push_back (a.L[i]);
  return r;
}
static inline Model
refine_one (const Model &a, int i)
{
  std::vector<char> f (a.size (), 0);
  f[i] = 1;
  return refine (a, f);
}
/* uniform refinement of the given level, then every set of at most k further refined elements (each set once),
 * down to at most maxl */
static inline Model
choose_model (const Mesh &m, int minbase, int maxbase, int k, int maxl)
{
  int base = minbase + mc::choose (maxbase - minbase + 1, "base_level");
  Model a = uniform (m, base);
  Leaf last { -1, "" };
  for (int s = 0; s < k; s++) {
    std::vector<int> cand;
    for (size_t i = 0; i < a.size (); i++)
      if (last < a.L[i] && a.L[i].level () < maxl)
        cand.push_back ((int) i);
    int c = mc::choose ((int) cand.size () + 1, "refine");
    if (c == 0)
      break;
    last = a.L[cand[c - 1]];
    a = refine_one (a, cand[c - 1]);
  }
  return a;
}
/* the same, or a single chain: one element of a tree (first or last) is refined again and again, 'chain' times; the
 * first step into a child a, all others into a child b, for several a and b */
static inline Model
choose_model_or_chain (const Mesh &m, int minbase, int maxbase, int k, int maxl, int chain)
{
  if (chain <= 0 || m.dim () == 0 || !mc::choose (2, "chain"))
    return choose_model (m, minbase, maxbase, k, maxl);
  int t = m.cls.size () > 1 ? mc::choose (2, "tree") * ((int) m.cls.size () - 1) : 0;
  int a = mc::choose (3, "first"), b = mc::choose (3, "then");
  Model M = uniform (m, 0);
  int at = t;
  for (int l = 0; l < chain; l++) {
    int n = node (m.which, m.cls[t], M.L[at].path).nch;
    M = refine_one (M, at);
    int c = l == 0 ? a : b;
    at += c == 0 ? 0 : c == 1 ? n - 1 : n / 2;
  }
  return M;
}
/* cuts O[0]=0 <= O[1] <= ... <= O[P]=n. full: all of them; else each inner cut is at the previous one, one or two after
 * it, at a third, at the middle, one before the end, or at the end */
typedef std::vector<int> Cuts;
static inline Cuts
choose_cuts (int n, int P, bool full)
{
  Cuts o (P + 1, 0);
  o[P] = n;
  for (int p = 1; p < P; p++) {
    int lo = o[p - 1];
    std::set<int> c;
    if (full)
      for (int i = lo; i <= n; i++)
        c.insert (i);
    else
      for (int i : { lo, lo + 1, lo + (n - lo + 2) / 3, (lo + n) / 2, n - 1, n })
        if (i >= lo && i <= n)
          c.insert (i);
    std::vector<int> v (c.begin (), c.end ());
    o[p] = v[mc::choose ((int) v.size (), "cut")];
  }
  return o;
}
static inline int
owner_of (const Cuts &o, int i)
{
  for (size_t p = 0; p + 1 < o.size (); p++)
    if (i >= o[p] && i < o[p + 1])
      return (int) p;
  return -1;
}
static inline Cuts
even_cuts (int n, int P)
{
  Cuts o (P + 1);
  for (int p = 0; p <= P; p++)
    o[p] = (int) ((int64_t) n * p / P);
  return o;
}

/* ------------------------------------------------------------------------------------------------ adjacency */
struct Adj {
  int leaf, face;
  bool operator== (const Adj &o) const { return leaf == o.leaf && face == o.face; }
  bool operator< (const Adj &o) const { return leaf != o.leaf ? leaf < o.leaf : face < o.face; }
};
struct Adjacency {
  std::vector<std::array<std::vector<Adj>, 6>> a;
};
/* the face (tree,path,f) seen from the other side of a tree interface; false if it is not on one */
static inline bool
across (const Mesh &m, int tree, const Node &n, int f, int *ntree, std::string *key)
{
  if (n.rf[f] < 0)
    return false;
  const Nb &b = m.nb[tree][n.rf[f]];
  if (b.t < 0)
    return false;
  std::vector<Pt> v;
  for (auto &p : n.fp[f])
    v.push_back (map_point (m.cls[tree], n.rf[f], m.cls[b.t], b.f, b.map, p));
  *ntree = b.t;
  *key = face_key (v);
  return true;
}
static inline Adjacency
adjacency_compute (const Model &M)
{
  const Mesh &m = *M.m;
  Adjacency A;
  A.a.resize (M.size ());
  std::unordered_map<std::string, std::vector<Adj>> H;
  auto K = [] (int tree, const std::string &k) {
    std::string r ((const char *) &tree, 4);
    return r + k;
  };
  for (size_t i = 0; i < M.size (); i++) {
    const Node &n = M.nd (i);
    for (int f = 0; f < NF[n.c.shape]; f++)
      H[K (M.L[i].tree, n.key[f])].push_back (Adj { (int) i, f });
  }
  for (size_t i = 0; i < M.size (); i++) {
    const Leaf &lf = M.L[i];
    const Node &n = M.nd (i);
    for (int f = 0; f < NF[n.c.shape]; f++) {
      Path p = lf.path;
      int g = f;
      for (;;) {
        const Node &q = node (m.which, m.cls[lf.tree], p);
        auto visit = [&] (const std::string &key, bool inner) {
          auto it = H.find (key);
          if (it == H.end ())
            return;
          for (auto &x : it->second) {
            if (inner && x.leaf == (int) i)
              continue;
            A.a[i][f].push_back (x);
            if (p.size () < lf.path.size ())
              A.a[x.leaf][x.face].push_back (Adj { (int) i, f });
          }
        };
        if (q.rf[g] < 0)
          visit (K (lf.tree, q.key[g]), true);
        int nt;
        std::string nk;
        if (across (m, lf.tree, q, g, &nt, &nk))
          visit (K (nt, nk), false);
        if (p.empty () || q.pf[g] < 0)
          break;
        g = q.pf[g];
        p.pop_back ();
      }
    }
  }
  for (auto &x : A.a)
    for (auto &y : x)
      std::sort (y.begin (), y.end ()), y.erase (std::unique (y.begin (), y.end ()), y.end ());
  return A;
}
static inline const Adjacency &
adjacency (const Model &M)
{
  static std::unordered_map<uint64_t, Adjacency> memo;
  uint64_t h = M.hash ();
  auto it = memo.find (h);
  if (it != memo.end ())
    return it->second;
  if (memo.size () > 200)
    memo.clear ();
  return memo.emplace (h, adjacency_compute (M)).first->second;
}
/* the coarsest refinement of M in which leaves sharing part of a face differ by at most one level */
static inline bool
is_balanced (const Model &M)
{
  const Adjacency &A = adjacency (M);
  for (size_t i = 0; i < M.size (); i++)
    for (auto &v : A.a[i])
      for (auto &x : v)
        if (std::abs (M.L[i].level () - M.L[x.leaf].level ()) > 1)
          return false;
  return true;
}
static inline Model
balance (Model M)
{
  for (;;) {
    Adjacency A = adjacency_compute (M);
    std::vector<char> f (M.size (), 0);
    bool any = false;
    for (size_t i = 0; i < M.size (); i++)
      for (auto &v : A.a[i])
        for (auto &x : v)
          if (M.L[x.leaf].level () > M.L[i].level () + 1)
            f[i] = 1, any = true;
    if (!any)
      return M;
    M = refine (M, f);
  }
}

/* ------------------------------------------------------------------------------------------------ real objects */
/* distance of consecutive trees; by default all trees lie at the same place */
static double SHIFT = 0;
static inline t8_cmesh_t
build_cmesh (const Mesh &m, sc_MPI_Comm comm = sc_MPI_COMM_WORLD)
{
  t8_cmesh_t cm;
  t8_cmesh_init (&cm);
  t8_cmesh_register_geometry<t8_geometry_linear> (cm);
  for (size_t t = 0; t < m.cls.size (); t++) {
    double v[24];
    for (int i = 0; i < NV[m.cls[t]]; i++)
      for (int d = 0; d < 3; d++)
        v[3 * i + d] = CORNER[m.cls[t]][i][d] + (d == 0 ? SHIFT * t : 0);
    t8_cmesh_set_tree_class (cm, t, (t8_eclass_t) m.cls[t]);
    t8_cmesh_set_tree_vertices (cm, t, v, NV[m.cls[t]]);
  }
  for (auto &j : m.joins)
    t8_cmesh_set_join (cm, j.t0, j.t1, j.f0, j.f1, j.orient);
  if (m.dim () == 0)
    t8_cmesh_set_dimension (cm, 0);
  t8_cmesh_commit (cm, comm);
  return cm;
}
static inline const t8_scheme *
new_scheme (const Mesh &m)
{
  return m.which ? t8_scheme_new_standalone () : t8_scheme_new_default ();
}
struct AdaptCtx {
  const Model *target;
};
static inline Leaf
leaf_of (t8_forest_t forest_from, t8_locidx_t ltree, t8_eclass_t tc, const t8_scheme *s, const t8_element_t *e)
{
  return Leaf { (int) t8_forest_global_tree_id (forest_from, ltree), path_of (s, tc, e) };
}
static inline int
adapt_to_model (t8_forest_t forest, t8_forest_t from, t8_locidx_t ltree, const t8_eclass_t tc, t8_locidx_t, const t8_scheme_c *s,
                const int, const int, t8_element_t *el[])
{
  AdaptCtx *c = (AdaptCtx *) t8_forest_get_user_data (forest);
  Leaf l = leaf_of (from, ltree, tc, s, el[0]);
  /* refine everything that is not yet inside a leaf of the target */
  return c->target->covering (l) < 0 ? 1 : 0;
}
/* the leaves this rank holds, in order */
static inline std::vector<Leaf>
local_leaves (t8_forest_t f)
{
  std::vector<Leaf> v;
  const t8_scheme *s = t8_forest_get_scheme (f);
  t8_locidx_t nt = t8_forest_get_num_local_trees (f);
  for (t8_locidx_t t = 0; t < nt; t++) {
    t8_eclass_t tc = t8_forest_get_tree_class (f, t);
    t8_locidx_t n = t8_forest_get_tree_num_leaf_elements (f, t);
    int g = (int) t8_forest_global_tree_id (f, t);
    for (t8_locidx_t i = 0; i < n; i++)
      v.push_back (Leaf { g, path_of (s, tc, t8_forest_get_leaf_element_in_tree (f, t, i)) });
  }
  return v;
}
/* derived forest with the given distribution; consumes f unless keep */
static inline t8_forest_t
repartition (t8_forest_t f, const Cuts &o, int rank)
{
  t8_forest_t g;
  t8_forest_init (&g);
  t8_forest_set_partition (g, f, 0);
  t8_forest_set_partition_offset (g, o[rank]);
  t8_forest_commit (g);
  return g;
}
static inline t8_cmesh_t
partition_cmesh_uniform (t8_cmesh_t cm, const Mesh &m, int level)
{
  t8_cmesh_t c2;
  t8_cmesh_init (&c2);
  t8_cmesh_set_derive (c2, cm);
  t8_cmesh_set_partition_uniform (c2, level, new_scheme (m));
  t8_cmesh_commit (c2, sc_MPI_COMM_WORLD);
  return c2;
}
/* cm_part: the coarse mesh is partitioned instead of replicated */
static inline t8_forest_t
uniform_forest (const Mesh &m, int level, int ghost = 0, int cm_part = 0)
{
  t8_cmesh_t cm = build_cmesh (m);
  if (cm_part)
    cm = partition_cmesh_uniform (cm, m, level);
  return t8_forest_new_uniform (cm, new_scheme (m), level, ghost, sc_MPI_COMM_WORLD);
}
static inline int
min_level (const Model &M)
{
  int l = 99;
  for (auto &x : M.L)
    l = std::min (l, x.level ());
  return l;
}
/* a forest with exactly the leaves of M (which must be complete), distributed by o */
static inline t8_forest_t
build_forest (const Model &M, const Cuts &o, int rank, int cm_part = 0)
{
  t8_forest_t f = uniform_forest (*M.m, min_level (M), 0, cm_part);
  AdaptCtx c { &M };
  t8_forest_t g;
  t8_forest_init (&g);
  t8_forest_set_adapt (g, f, adapt_to_model, 1);
  t8_forest_set_user_data (g, &c);
  t8_forest_commit (g);
  t8_forest_set_user_data (g, nullptr);
  return repartition (g, o, rank);
}
/* compare everything a forest says about its leaves and their distribution with the model */
static inline void
check_forest (t8_forest_t f, const Model &M, const Cuts &o, int rank, const char *what)
{
  int P = (int) o.size () - 1;
  int a = o[rank], b = o[rank + 1], n = b - a;
  const t8_scheme *s = t8_forest_get_scheme (f);
  MC_CHECK (t8_forest_get_local_num_leaf_elements (f) == n, "%s: rank %d has %d leaves, expected %d of %s", what, rank,
            t8_forest_get_local_num_leaf_elements (f), n, M.str ().c_str ());
  MC_CHECK (t8_forest_get_global_num_leaf_elements (f) == (t8_gloidx_t) M.size (), "%s: global count %lld, expected %zu", what,
            (long long) t8_forest_get_global_num_leaf_elements (f), M.size ());
  MC_CHECK (t8_forest_get_num_global_trees (f) == (t8_gloidx_t) M.m->cls.size (), "%s: number of global trees", what);
  t8_locidx_t nt = t8_forest_get_num_local_trees (f);
  int want_trees = n ? M.L[b - 1].tree - M.L[a].tree + 1 : 0;
  MC_CHECK (nt == want_trees, "%s: rank %d has %d local trees, expected %d", what, rank, nt, want_trees);
  if (n) {
    MC_CHECK (t8_forest_get_first_local_tree_id (f) == M.L[a].tree, "%s: rank %d: first local tree %lld", what, rank,
              (long long) t8_forest_get_first_local_tree_id (f));
    MC_CHECK (f->last_local_tree == M.L[b - 1].tree, "%s: rank %d: last local tree", what, rank);
  }
  std::vector<Leaf> v = local_leaves (f);
  MC_CHECK ((int) v.size () == n, "%s: rank %d: the trees hold %zu leaves, the forest %d", what, rank, v.size (), n);
  for (int i = 0; i < n; i++)
    MC_CHECK (v[i] == M.L[a + i], "%s: rank %d: leaf %d is %s, expected %s", what, rank, i, lstr (v[i]).c_str (), lstr (M.L[a + i]).c_str ());
  /* tree offsets, classes and element access by forest-wide index */
  int k = 0;
  for (t8_locidx_t t = 0; t < nt; t++) {
    MC_CHECK (t8_forest_get_tree_element_offset (f, t) == k, "%s: rank %d: element offset of tree %d is %d, expected %d", what, rank, t,
              t8_forest_get_tree_element_offset (f, t), k);
    t8_eclass_t tc = t8_forest_get_tree_class (f, t);
    MC_CHECK ((int) tc == M.m->cls[t8_forest_global_tree_id (f, t)] && t8_forest_get_eclass (f, t) == tc, "%s: rank %d: class of tree %d", what, rank, t);
    MC_CHECK (t8_forest_get_local_id (f, t8_forest_global_tree_id (f, t)) == t, "%s: rank %d: local id of tree %d", what, rank, t);
    t8_locidx_t m = t8_forest_get_tree_num_leaf_elements (f, t);
    for (t8_locidx_t i = 0; i < m; i++) {
      t8_locidx_t lt = -5;
      const t8_element_t *e = t8_forest_get_leaf_element (f, k + i, &lt);
      MC_CHECK (lt == t && e == t8_forest_get_leaf_element_in_tree (f, t, i), "%s: rank %d: leaf %d by index is in tree %d", what, rank, k + i, lt);
    }
    if (m > 0) {
      /* first and last descendant of the local piece */
      t8_tree_t tr = t8_forest_get_tree (f, t);
      if (tr->first_desc && tr->last_desc) {
        Path fd = path_of (s, tc, tr->first_desc), ld = path_of (s, tc, tr->last_desc);
        Path wf = M.L[a + k].path, wl = M.L[a + k + m - 1].path;
        wf.resize (t8_forest_get_maxlevel (f), 0);
        MC_CHECK (fd == wf, "%s: rank %d: first descendant of tree %d is %s", what, rank, t, pstr (fd).c_str ());
        bool ok = ld.size () == (size_t) t8_forest_get_maxlevel (f) && is_prefix (wl, ld);
        int cls = (int) tc;
        int shape = M.nd (a + k + m - 1).c.shape;
        for (size_t q = wl.size (); ok && q < ld.size (); q++) {
          int nc = (cls == T8_ECLASS_PYRAMID && shape == T8_ECLASS_TET) ? 8 : NCH[cls];
          ok = ld[q] == nc - 1; /* the last child of a pyramid is a pyramid, of a tet a tet */
        }
        MC_CHECK (ok, "%s: rank %d: last descendant of tree %d is %s", what, rank, t, pstr (ld).c_str ());
      }
    }
    k += m;
  }
  /* the coarse mesh knows every local tree */
  t8_cmesh_t cm = t8_forest_get_cmesh (f);
  for (t8_locidx_t t = 0; t < nt; t++) {
    t8_locidx_t ct = t8_forest_ltreeid_to_cmesh_ltreeid (f, t);
    MC_CHECK (ct >= 0 && ct < t8_cmesh_get_num_local_trees (cm) && t8_cmesh_get_global_id (cm, ct) == t8_forest_global_tree_id (f, t)
                && t8_cmesh_get_tree_class (cm, ct) == t8_forest_get_tree_class (f, t),
              "%s: rank %d: tree %d of the forest is tree %d of the coarse mesh", what, rank, t, ct);
  }
  MC_CHECK (t8_forest_get_first_local_leaf_element_id (f) == a || n == 0, "%s: rank %d: first local leaf id %lld", what, rank,
            (long long) t8_forest_get_first_local_leaf_element_id (f));
  /* distributed offsets, where present */
  if (f->element_offsets) {
    for (int p = 0; p <= P; p++)
      MC_CHECK (t8_shmem_array_get_gloidx (f->element_offsets, p) == o[p], "%s: rank %d: element offset of rank %d is %lld, expected %d", what,
                rank, p, (long long) t8_shmem_array_get_gloidx (f->element_offsets, p), o[p]);
  }
  if (f->tree_offsets) {
    const t8_gloidx_t *to = t8_shmem_array_get_gloidx_array (f->tree_offsets);
    for (int p = 0; p < P; p++) {
      if (o[p] == o[p + 1]) {
        MC_CHECK (t8_offset_empty (p, to), "%s: rank %d: the tree offsets do not show rank %d as empty", what, rank, p);
        continue;
      }
      int first = M.L[o[p]].tree;
      bool shared = o[p] > 0 && M.L[o[p] - 1].tree == first;
      MC_CHECK (to[p] == (shared ? -first - 1 : first), "%s: rank %d: tree offset of rank %d is %lld, expected %d", what, rank, p,
                (long long) to[p], shared ? -first - 1 : first);
      MC_CHECK (t8_offset_last (p, to) == M.L[o[p + 1] - 1].tree, "%s: rank %d: last tree of rank %d by the offsets is %lld", what, rank, p,
                (long long) t8_offset_last (p, to));
    }
    MC_CHECK (to[P] == (t8_gloidx_t) M.m->cls.size (), "%s: last tree offset", what);
  }
  if (f->global_first_desc) {
    for (int p = 0; p < P; p++) {
      t8_linearidx_t got = *(const t8_linearidx_t *) t8_shmem_array_index (f->global_first_desc, p);
      if (o[p] == o[p + 1])
        continue;
      const Leaf &l = M.L[o[p]];
      int cls = M.m->cls[l.tree];
      unsigned __int128 id = 0;
      Path q;
      for (char ch : l.path) {
        for (int c = 0; c < ch; c++)
          id += leaves (cls, node (M.m->which, cls, q + std::string (1, (char) c)).c.shape, t8_forest_get_maxlevel (f) - (int) q.size () - 1);
        q.push_back (ch);
      }
      MC_CHECK (got == (t8_linearidx_t) id, "%s: rank %d: first descendant of rank %d is %llu, expected %llu", what, rank, p,
                (unsigned long long) got, (unsigned long long) id);
    }
  }
  mc::checked ("forest invariants", 10 + 4 * n + 3 * P);
}
/* indices of the leaves of other processes that share part of a face with a leaf of this one, ascending */
static inline std::vector<int>
ghost_leaves (const Model &M, const Cuts &o, int rank)
{
  const Adjacency &A = adjacency (M);
  std::set<int> g;
  for (int i = o[rank]; i < o[rank + 1]; i++)
    for (auto &v : A.a[i])
      for (auto &x : v)
        if (x.leaf < o[rank] || x.leaf >= o[rank + 1])
          g.insert (x.leaf);
  return std::vector<int> (g.begin (), g.end ());
}
/* compare the ghost layer with the model; returns the expected ghosts */
static inline std::vector<int>
check_ghosts (t8_forest_t f, const Model &M, const Cuts &o, int rank, const char *what)
{
  int P = (int) o.size () - 1;
  const t8_scheme *s = t8_forest_get_scheme (f);
  std::vector<int> G = P > 1 ? ghost_leaves (M, o, rank) : std::vector<int> ();
  auto list = [&] () {
    std::string r;
    for (int g : G)
      r += " " + lstr (M.L[g]);
    return "expected ghosts:" + r + " of " + M.str ();
  };
  MC_CHECK (t8_forest_get_num_ghosts (f) == (t8_locidx_t) G.size (), "%s: rank %d has %d ghosts, expected %zu, %s", what, rank, t8_forest_get_num_ghosts (f), G.size (), list ().c_str ());
  std::vector<int> trees;
  for (int g : G)
    if (trees.empty () || trees.back () != M.L[g].tree)
      trees.push_back (M.L[g].tree);
  t8_locidx_t nl = t8_forest_get_num_local_trees (f), ng = t8_forest_get_num_ghost_trees (f);
  MC_CHECK (ng == (t8_locidx_t) trees.size () && t8_forest_ghost_num_trees (f) == ng, "%s: rank %d has %d ghost trees, expected %zu", what, rank, ng, trees.size ());
  if (!f->ghosts) {
    MC_CHECK (G.empty (), "%s: rank %d has no ghost layer", what, rank);
    return G;
  }
  int k = 0;
  for (t8_locidx_t t = 0; t < ng; t++) {
    MC_CHECK (t8_forest_ghost_get_global_treeid (f, t) == trees[t], "%s: rank %d: ghost tree %d is tree %lld, expected %d", what, rank, t, (long long) t8_forest_ghost_get_global_treeid (f, t), trees[t]);
    MC_CHECK (t8_forest_global_tree_id (f, nl + t) == trees[t], "%s: rank %d: global id of ghost tree %d", what, rank, t);
    t8_eclass_t tc = t8_forest_ghost_get_tree_class (f, t);
    MC_CHECK ((int) tc == M.m->cls[trees[t]] && t8_forest_get_tree_class (f, nl + t) == tc, "%s: rank %d: class of ghost tree %d", what, rank, t);
    MC_CHECK (t8_forest_ghost_get_tree_element_offset (f, t) == k, "%s: rank %d: offset of ghost tree %d is %d, expected %d", what, rank, t, t8_forest_ghost_get_tree_element_offset (f, t), k);
    int n = 0;
    while (k + n < (int) G.size () && M.L[G[k + n]].tree == trees[t])
      n++;
    MC_CHECK (t8_forest_ghost_tree_num_leaf_elements (f, t) == n, "%s: rank %d: ghost tree %d has %d elements, expected %d, %s", what, rank, t, t8_forest_ghost_tree_num_leaf_elements (f, t), n, list ().c_str ());
    t8_element_array_t *arr = t8_forest_ghost_get_tree_leaf_elements (f, t);
    MC_CHECK ((int) t8_element_array_get_count (arr) == n, "%s: rank %d: array of ghost tree %d", what, rank, t);
    for (int i = 0; i < n; i++) {
      const t8_element_t *e = t8_forest_ghost_get_leaf_element (f, t, i);
      Leaf l { trees[t], path_of (s, tc, e) };
      MC_CHECK (l == M.L[G[k + i]], "%s: rank %d: ghost %d is %s, expected %s, %s", what, rank, k + i, lstr (l).c_str (), lstr (M.L[G[k + i]]).c_str (), list ().c_str ());
      MC_CHECK (t8_forest_element_is_ghost (f, e, t) && t8_forest_element_is_leaf_or_ghost (f, e, t, 1), "%s: rank %d: ghost %s is not recognised", what, rank, lstr (l).c_str ());
      if (l.level () > 0) {
        t8_element_t *par;
        s->element_new (tc, 1, &par);
        s->element_get_parent (tc, e, par);
        bool isg = t8_forest_element_is_ghost (f, par, t);
        s->element_destroy (tc, 1, &par);
        MC_CHECK (!isg, "%s: rank %d: the parent of ghost %s is taken for a ghost", what, rank, lstr (l).c_str ());
      }
    }
    k += n;
  }
  for (int t = 0; t < (int) M.m->cls.size (); t++) {
    int w = -1;
    for (size_t i = 0; i < trees.size (); i++)
      if (trees[i] == t)
        w = (int) i;
    t8_locidx_t id = t8_forest_ghost_get_ghost_treeid (f, t);
    MC_CHECK (w < 0 ? id < 0 : id == w, "%s: rank %d: ghost id of tree %d is %d, expected %d", what, rank, t, id, w);
    t8_locidx_t loc = t8_forest_get_local_id (f, t), both = t8_forest_get_local_or_ghost_id (f, t);
    t8_locidx_t want = loc >= 0 ? loc : w >= 0 ? nl + w : -1;
    MC_CHECK (want < 0 ? both < 0 : both == want, "%s: rank %d: local or ghost id of tree %d is %d, expected %d", what, rank, t, both, want);
  }
  for (int i = o[rank]; i < o[rank + 1]; i++) {
    t8_locidx_t gt = t8_forest_ghost_get_ghost_treeid (f, M.L[i].tree);
    if (gt >= 0) {
      t8_locidx_t lt;
      const t8_element_t *e = t8_forest_get_leaf_element (f, i - o[rank], &lt);
      MC_CHECK (!t8_forest_element_is_ghost (f, e, gt), "%s: rank %d: local leaf %s is taken for a ghost", what, rank, lstr (M.L[i]).c_str ());
    }
  }
  /* remote side */
  std::vector<int> own;
  for (int g : G)
    if (own.empty () || own.back () != owner_of (o, g))
      own.push_back (owner_of (o, g));
  int nr = -1;
  int *rem = t8_forest_ghost_get_remotes (f, &nr);
  MC_CHECK (nr == (int) own.size (), "%s: rank %d: %d remote processes, expected %zu", what, rank, nr, own.size ());
  int sent = 0;
  for (int i = 0; i < nr; i++) {
    MC_CHECK (rem[i] == own[i], "%s: rank %d: remote process %d is %d, expected %d", what, rank, i, rem[i], own[i]);
    int first = 0;
    while (owner_of (o, G[first]) != own[i])
      first++;
    int ft = 0;
    while (trees[ft] != M.L[G[first]].tree)
      ft++;
    MC_CHECK (t8_forest_ghost_remote_first_elem (f, own[i]) == first, "%s: rank %d: first ghost of rank %d is %d, expected %d", what, rank, own[i], t8_forest_ghost_remote_first_elem (f, own[i]), first);
    MC_CHECK (t8_forest_ghost_remote_first_tree (f, own[i]) == ft, "%s: rank %d: first ghost tree of rank %d is %d, expected %d", what, rank, own[i], t8_forest_ghost_remote_first_tree (f, own[i]), ft);
    for (int g : ghost_leaves (M, o, own[i]))
      sent += g >= o[rank] && g < o[rank + 1];
  }
  MC_CHECK (f->ghosts->num_remote_elements == sent, "%s: rank %d: %d elements sent, expected %d", what, rank, f->ghosts->num_remote_elements, sent);
  mc::checked ("ghost layer", 4 + 3 * G.size () + 3 * nr);
  return G;
}
/* the element of the same level on the other side of face f of e, its face there; false on the domain boundary */
static inline bool
same_level_neighbor (const Mesh &m, const Leaf &e, int f, Leaf *out, int *oface)
{
  const Node &n = node (m.which, m.cls[e.tree], e.path);
  int tree = e.tree;
  std::vector<Pt> pts = n.fp[f];
  if (n.rf[f] >= 0) {
    const Nb &b = m.nb[e.tree][n.rf[f]];
    if (b.t < 0)
      return false;
    for (auto &p : pts)
      p = map_point (m.cls[e.tree], n.rf[f], m.cls[b.t], b.f, b.map, p);
    tree = b.t;
  }
  std::string key = face_key (pts);
  bool found = false;
  std::function<void (const Path &)> go = [&] (const Path &p) {
    const Node &q = node (m.which, m.cls[tree], p);
    for (auto &x : pts)
      if (!inside (q.c, x))
        return;
    if (p.size () == e.path.size ()) {
      if (n.rf[f] < 0 && p == e.path)
        return;
      for (int g = 0; g < NF[q.c.shape]; g++)
        if (q.key[g] == key && (n.rf[f] < 0 ? true : q.rf[g] == m.nb[e.tree][n.rf[f]].f)) {
          MC_CHECK (!found, "harness: two neighbours of %s across face %d", lstr (e).c_str (), f);
          found = true;
          *out = Leaf { tree, p };
          *oface = g;
        }
      return;
    }
    for (int c = 0; c < q.nch; c++)
      go (p + std::string (1, (char) c));
  };
  go ("");
  MC_CHECK (found, "harness: no neighbour of %s across face %d", lstr (e).c_str (), f);
  return true;
}
/* element of a path */
static inline t8_element_t *
make_element (const t8_scheme *s, t8_eclass_t tc, const Path &p)
{
  t8_element_t *a, *b;
  s->element_new (tc, 1, &a);
  s->element_new (tc, 1, &b);
  s->set_to_root (tc, a);
  for (char ch : p) {
    s->element_get_child (tc, a, ch, b);
    std::swap (a, b);
  }
  s->element_destroy (tc, 1, &b);
  return a;
}
static inline std::string
cstr (const Cuts &o)
{
  std::string r;
  for (int x : o)
    r += (r.empty () ? "" : ",") + std::to_string (x);
  return "[" + r + "]";
}
}  // namespace fx
#endif
