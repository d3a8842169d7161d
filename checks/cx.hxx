/* Oracle for coarse meshes: a specification (classes, gluing, attributes) and a distribution of the trees; every query
 * of the committed mesh is compared with it. */
#ifndef CX_HXX
#define CX_HXX
#include "fx.hxx"
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h>
#include <t8_geometry/t8_geometry_with_vertices.h>
#include <sc_containers.h>

namespace cx
{
using namespace fx;
struct Attr {
  int pkg, key;
  std::string data;
};
struct Spec {
  Mesh m;
  std::vector<std::vector<Attr>> at; /* per tree */
  bool vertices = false;             /* corner coordinates stored as well */
  std::vector<std::vector<double>> xyz; /* the corner coordinates, if they are not those of coords () */
  int T () const { return (int) m.cls.size (); }
};
extern int PKG[2];                 /* two registered packages, numerically PKG[0] < PKG[1] */
static const int KEYS[] = { -3, 0, 5, 7, 1000000 };

/* attribute contents: a function of (tree, slot, size) without repetition */
static inline std::string
bytes (int tree, int slot, int size)
{
  std::string s (size, 0);
  for (int i = 0; i < size; i++)
    s[i] = (char) (1 + ((tree * 131 + slot * 37 + i * 7 + (i >> 3) * 11) % 255));
  return s;
}
/* coordinates of the corners of a tree: the reference cell, moved and made distinct per tree */
static inline std::vector<double>
coords (const Mesh &m, int t)
{
  std::vector<double> v (3 * NV[m.cls[t]]);
  for (int i = 0; i < NV[m.cls[t]]; i++)
    for (int d = 0; d < 3; d++)
      v[3 * i + d] = CORNER[m.cls[t]][i][d] + (d == 0 ? 0.25 * t : 0);
  return v;
}
/* the trees of one rank */
struct Range {
  int first = 0, n = 0;
  bool shared = false;
  bool
  has (int t) const
  {
    return n > 0 && first <= t && t < first + n;
  }
};
typedef std::vector<Range> Ranges;
static inline std::string
rstr (const Ranges &R)
{
  std::string s;
  for (auto &r : R)
    s += r.n ? "[" + std::to_string (r.first) + ".." + std::to_string (r.first + r.n - 1) + (r.shared ? "s]" : "]") : "[]";
  return s;
}
/* all distributions of T trees to P ranks: ascending, complete, a rank may share its first tree with the rank before */
static inline const std::vector<Ranges> &
all_ranges (int T, int P, bool allow_shared = true)
{
  static std::map<std::tuple<int, int, bool>, std::vector<Ranges>> memo;
  auto &v = memo[{ T, P, allow_shared }];
  if (!v.empty ())
    return v;
  Ranges cur;
  std::function<void (int, bool)> rec = [&] (int next, bool any) {
    if ((int) cur.size () == P) {
      if (next == T)
        v.push_back (cur);
      return;
    }
    Range e;
    e.first = next;
    cur.push_back (e);
    rec (next, any);
    cur.pop_back ();
    for (int sh = 0; sh <= (any && allow_shared ? 1 : 0); sh++)
      for (int end = sh ? next : next + 1; end <= T; end++) {
        Range r;
        r.first = sh ? next - 1 : next;
        r.n = end - r.first;
        r.shared = sh;
        cur.push_back (r);
        rec (end, true);
        cur.pop_back ();
      }
  };
  rec (0, false);
  return v;
}
static inline const Ranges &
choose_ranges (int T, int P, const char *label = "ranges", bool shared = true)
{
  auto &v = all_ranges (T, P, shared);
  return v[mc::choose ((int) v.size (), label)];
}
/* a fixed small selection: even, all on the last rank, shared everywhere possible with an empty rank in between */
static inline t8_gloidx_t
entry (const Ranges &R, int p, int T)
{
  if (p == (int) R.size ())
    return T;
  return R[p].n && R[p].shared ? -R[p].first - 1 : R[p].first;
}
static inline t8_shmem_array_t
make_offsets (const Ranges &R, int T)
{
  int P = (int) R.size ();
  t8_shmem_init (sc_MPI_COMM_WORLD);
  t8_shmem_set_type (sc_MPI_COMM_WORLD, T8_SHMEM_BEST_TYPE);
  t8_shmem_array_t o = t8_cmesh_alloc_offsets (P, sc_MPI_COMM_WORLD);
  if (t8_shmem_array_start_writing (o))
    for (int p = 0; p <= P; p++)
      t8_shmem_array_set_gloidx (o, p, entry (R, p, T));
  t8_shmem_array_end_writing (o);
  return o;
}
/* non-local face neighbours of the trees of a rank */
static inline std::set<int>
ghosts_of (const Mesh &m, const Range &r)
{
  std::set<int> g;
  for (int t = r.first; t < r.first + r.n; t++)
    for (int f = 0; f < NF[m.cls[t]]; f++)
      if (m.nb[t][f].t >= 0 && !r.has (m.nb[t][f].t))
        g.insert (m.nb[t][f].t);
  return g;
}
static inline int
orient_of (const Mesh &m, int t, int f)
{
  for (auto &j : m.joins)
    if ((j.t0 == t && j.f0 == f) || (j.t1 == t && j.f1 == f))
      return j.orient;
  return -1;
}
static inline void
check_attributes (t8_cmesh_t cm, const Spec &s, int lt, int t, const char *what)
{
  for (int p = 0; p < 2; p++)
    for (int k : KEYS) {
      const Attr *a = nullptr;
      for (auto &x : s.at[t])
        if (x.pkg == PKG[p] && x.key == k)
          a = &x;
      const char *d = (const char *) t8_cmesh_get_attribute (cm, PKG[p], k, lt);
      if (!a)
        MC_CHECK (d == nullptr, "%s: tree %d has an attribute under package %d key %d that was never set", what, t, p, k);
      else {
        MC_CHECK (d != nullptr, "%s: tree %d lost its attribute under package %d key %d (%zu bytes)", what, t, p, k, a->data.size ());
        for (size_t i = 0; i < a->data.size (); i++)
          MC_CHECK (d[i] == a->data[i], "%s: tree %d: attribute under package %d key %d (%zu bytes): byte %zu is %d, was set to %d", what, t, p, k, a->data.size (), i, d[i], a->data[i]);
      }
    }
  double *v = t8_cmesh_get_tree_vertices (cm, lt);
  MC_CHECK ((v != nullptr) == s.vertices, "%s: tree %d: vertices are %s", what, t, v ? "stored but were never set" : "lost");
  if (v) {
    std::vector<double> c = s.xyz.empty () ? coords (s.m, t) : s.xyz[t];
    for (size_t i = 0; i < c.size (); i++)
      MC_CHECK (v[i] == c[i], "%s: tree %d: vertex coordinate %zu is %.17g, was set to %.17g", what, t, i, v[i], c[i]);
  }
  mc::checked ("attributes", 10);
}
/* Everything the mesh says on one rank. R empty: replicated mesh. */
static inline void
check_cmesh (t8_cmesh_t cm, const Spec &s, const Ranges &R, int rank, const char *what, bool table = true)
{
  const Mesh &m = s.m;
  int T = s.T ();
  bool part = !R.empty ();
  Range r;
  if (part)
    r = R[rank];
  else
    r.first = 0, r.n = T;
  std::set<int> G = part ? ghosts_of (m, r) : std::set<int> ();
  MC_CHECK (t8_cmesh_is_committed (cm), "%s: rank %d: not committed", what, rank);
  MC_CHECK (!!t8_cmesh_is_partitioned (cm) == part, "%s: rank %d: partitioned flag is %d", what, rank, t8_cmesh_is_partitioned (cm));
  MC_CHECK (t8_cmesh_get_num_trees (cm) == T, "%s: rank %d: %lld global trees, specified %d", what, rank, (long long) t8_cmesh_get_num_trees (cm), T);
  MC_CHECK (t8_cmesh_get_num_local_trees (cm) == r.n, "%s: rank %d: %d local trees, expected %d of %s", what, rank, t8_cmesh_get_num_local_trees (cm), r.n, rstr (R).c_str ());
  MC_CHECK (t8_cmesh_get_dimension (cm) == m.dim (), "%s: rank %d: dimension %d", what, rank, t8_cmesh_get_dimension (cm));
  MC_CHECK (r.n == 0 || t8_cmesh_get_first_treeid (cm) == r.first, "%s: rank %d: first tree %lld, expected %d", what, rank, (long long) t8_cmesh_get_first_treeid (cm), r.first);
  MC_CHECK (!!t8_cmesh_is_empty (cm) == (T == 0), "%s: rank %d: empty flag", what, rank);
  MC_CHECK (t8_cmesh_get_num_ghosts (cm) == (int) G.size (), "%s: rank %d of %s: %d ghost trees, expected %zu", what, rank, rstr (R).c_str (), t8_cmesh_get_num_ghosts (cm), G.size ());
  for (int c = 0; c < T8_ECLASS_COUNT; c++) {
    int g = 0, l = 0;
    for (int t = 0; t < T; t++)
      if (m.cls[t] == c)
        g++, l += r.has (t);
    MC_CHECK (cm->num_trees_per_eclass[c] == g && cm->num_local_trees_per_eclass[c] == l, "%s: rank %d: class %d counted %lld times (%d local), expected %d (%d)", what, rank, c,
              (long long) cm->num_trees_per_eclass[c], cm->num_local_trees_per_eclass[c], g, l);
  }
  int nl = r.n, ng = (int) G.size ();
  /* ids */
  std::map<int, int> loc; /* global -> local */
  for (int i = 0; i < nl + ng; i++) {
    int g = (int) t8_cmesh_get_global_id (cm, i);
    if (i < nl)
      MC_CHECK (g == r.first + i, "%s: rank %d: local tree %d has global id %d, expected %d", what, rank, i, g, r.first + i);
    else
      MC_CHECK (G.count (g) && !loc.count (g), "%s: rank %d of %s: ghost %d is tree %d, which is %s", what, rank, rstr (R).c_str (), i - nl, g, loc.count (g) ? "listed before" : "no non-local neighbour");
    loc[g] = i;
    MC_CHECK (!!t8_cmesh_treeid_is_local_tree (cm, i) == (i < nl) && !!t8_cmesh_treeid_is_ghost (cm, i) == (i >= nl), "%s: rank %d: local id %d: tree / ghost flags", what, rank, i);
    if (i >= nl)
      MC_CHECK (t8_cmesh_ltreeid_to_ghostid (cm, i) == i - nl, "%s: rank %d: ghost id of %d", what, rank, i);
  }
  MC_CHECK (!t8_cmesh_treeid_is_local_tree (cm, nl) && !t8_cmesh_treeid_is_ghost (cm, nl + ng) && !t8_cmesh_treeid_is_local_tree (cm, -1) && !t8_cmesh_treeid_is_ghost (cm, -1), "%s: rank %d: ids out of range accepted", what, rank);
  for (int t = 0; t < T; t++) {
    int l = t8_cmesh_get_local_id (cm, t);
    MC_CHECK (loc.count (t) ? l == loc[t] : l < 0, "%s: rank %d: local id of tree %d is %d", what, rank, t, l);
  }
  /* trees and ghosts */
  int next = 0;
  for (t8_ctree_t tr = nl ? t8_cmesh_get_first_tree (cm) : nullptr; tr; tr = t8_cmesh_get_next_tree (cm, tr), next++)
    MC_CHECK (next < nl && tr->treeid == next && (int) tr->eclass == m.cls[r.first + next], "%s: rank %d: tree iteration at %d", what, rank, next);
  MC_CHECK (next == nl, "%s: rank %d: tree iteration reaches %d of %d trees", what, rank, next, nl);
  for (auto &[t, l] : loc) {
    int cl = l < nl ? t8_cmesh_get_tree_class (cm, l) : t8_cmesh_get_ghost_class (cm, l - nl);
    MC_CHECK (cl == m.cls[t], "%s: rank %d: tree %d has class %d, expected %d", what, rank, t, cl, m.cls[t]);
    for (int f = 0; f < NF[cl]; f++) {
      const Nb &b = m.nb[t][f];
      int df = -77, o = -77;
      int n = t8_cmesh_get_face_neighbor (cm, l, f, &df, &o);
      int bd = t8_cmesh_tree_face_is_boundary (cm, l, f);
      int ec = t8_cmesh_get_tree_face_neighbor_eclass (cm, l, f);
      MC_CHECK (!!bd == (b.t < 0), "%s: rank %d of %s: tree %d (%s) face %d: boundary is %d", what, rank, rstr (R).c_str (), t, l < nl ? "local" : "ghost", f, bd);
      if (b.t < 0 || !loc.count (b.t)) {
        MC_CHECK (n < 0 && df == -77 && o == -77 && ec == T8_ECLASS_INVALID, "%s: rank %d of %s: tree %d (%s) face %d: neighbour %d reported, none expected here", what, rank, rstr (R).c_str (), t,
                  l < nl ? "local" : "ghost", f, n);
      }
      else {
        MC_CHECK (n == loc[b.t], "%s: rank %d of %s: tree %d (%s) face %d: neighbour has local id %d, expected tree %d with local id %d", what, rank, rstr (R).c_str (), t, l < nl ? "local" : "ghost", f, n, b.t, loc[b.t]);
        MC_CHECK (df == b.f && o == orient_of (m, t, f) && ec == m.cls[b.t], "%s: rank %d of %s: tree %d (%s) face %d: neighbour face %d orientation %d class %d, expected %d %d %d", what, rank, rstr (R).c_str (), t,
                  l < nl ? "local" : "ghost", f, df, o, ec, b.f, orient_of (m, t, f), m.cls[b.t]);
      }
      mc::checked ("face connections", 1);
    }
    check_attributes (cm, s, l, t, what);
  }
  if (part && table) {
    t8_shmem_array_t tab = t8_cmesh_get_partition_table (cm);
    MC_CHECK (tab != nullptr, "%s: rank %d: no partition table", what, rank);
    for (int p = 0; p <= (int) R.size (); p++)
      MC_CHECK (t8_shmem_array_get_gloidx (tab, p) == entry (R, p, T), "%s: rank %d: partition table entry %d is %lld, expected %lld of %s", what, rank, p, (long long) t8_shmem_array_get_gloidx (tab, p),
                (long long) entry (R, p, T), rstr (R).c_str ());
  }
  mc::checked ("coarse meshes", 1);
}
/* specification calls */
static inline void
set_class (t8_cmesh_t cm, const Spec &s, int t)
{
  t8_cmesh_set_tree_class (cm, t, (t8_eclass_t) s.m.cls[t]);
}
static inline void
set_attr (t8_cmesh_t cm, int t, Attr &a, bool persist)
{
  /* a private copy that is destroyed right after the call shows whether the data was copied when promised */
  if (persist)
    t8_cmesh_set_attribute (cm, t, a.pkg, a.key, (void *) a.data.data (), a.data.size (), 1);
  else {
    std::string c = a.data;
    c.reserve (1);
    t8_cmesh_set_attribute (cm, t, a.pkg, a.key, (void *) c.data (), c.size (), 0);
    for (auto &x : c)
      x = 0x55;
  }
}
static inline void
set_vertices (t8_cmesh_t cm, const Spec &s, int t)
{
  std::vector<double> c = coords (s.m, t);
  t8_cmesh_set_tree_vertices (cm, t, c.data (), (int) c.size () / 3);
}
static inline void
set_join (t8_cmesh_t cm, const Join &j, bool swap)
{
  if (swap)
    t8_cmesh_set_join (cm, j.t1, j.t0, j.f1, j.f0, j.orient);
  else
    t8_cmesh_set_join (cm, j.t0, j.t1, j.f0, j.f1, j.orient);
}
/* the whole specification; keep: which trees this rank tells about (empty: all) */
static inline void
specify (t8_cmesh_t cm, Spec &s, int order = 0, bool persist = false, const std::set<int> &keep = {})
{
  int T = s.T ();
  t8_cmesh_set_dimension (cm, s.m.dim ());
  auto told = [&] (int t) { return keep.empty () || keep.count (t); };
  for (int i = 0; i < T; i++) {
    int t = order & 1 ? T - 1 - i : i;
    if (!told (t))
      continue;
    set_class (cm, s, t);
    if (s.vertices && !(order & 2))
      set_vertices (cm, s, t);
    for (size_t k = 0; k < s.at[t].size (); k++)
      set_attr (cm, t, s.at[t][order & 1 ? s.at[t].size () - 1 - k : k], persist);
    if (s.vertices && (order & 2))
      set_vertices (cm, s, t);
  }
  for (size_t i = 0; i < s.m.joins.size (); i++) {
    const Join &j = s.m.joins[order & 2 ? s.m.joins.size () - 1 - i : i];
    if (told (j.t0) || told (j.t1))
      set_join (cm, j, order & 1);
  }
}
/* attribute sets of one tree, by number */
static inline std::vector<Attr>
attr_set (int tree, int which)
{
  static const struct {
    int n, pkg[5], key[5], size[5];
  } A[] = {
    { 0, {}, {}, {} },
    { 1, { 0 }, { 1 }, { 1 } },
    { 1, { 1 }, { 2 }, { 8 } },
    { 2, { 0, 1 }, { 1, 1 }, { 7, 24 } },
    { 3, { 0, 0, 0 }, { 1, 2, 0 }, { 0, 3, 100 } },
    { 5, { 1, 0, 0, 1, 1 }, { 3, 3, 4, 0, 2 }, { 8, 1, 13, 16, 2 } },
    { 1, { 0 }, { 1 }, { 0 } },
    { 2, { 1, 1 }, { 2, 1 }, { 0, 0 } },
    { 1, { 0 }, { 4 }, { 1000 } },
  };
  std::vector<Attr> r;
  for (int i = 0; i < A[which].n; i++)
    r.push_back (Attr { PKG[A[which].pkg[i]], KEYS[A[which].key[i]], bytes (tree, i, A[which].size[i]) });
  return r;
}
static const int NATTR = 9;
static inline void
init_packages ()
{
  int a = sc_package_register (nullptr, SC_LP_SILENT, "cxa", "first attribute package");
  int b = sc_package_register (nullptr, SC_LP_SILENT, "cxb", "second attribute package");
  PKG[0] = a < b ? a : b;
  PKG[1] = a < b ? b : a;
}
/* the trees that carry the leaves of an even distribution of a uniform mesh */
static inline Ranges
uniform_ranges (const Mesh &m, int level, int P)
{
  Model M = uniform (m, level);
  Cuts c = even_cuts ((int) M.size (), P);
  Ranges R (P);
  int next = 0;
  for (int p = 0; p < P; p++) {
    if (c[p] == c[p + 1]) {
      R[p].first = next;
      continue;
    }
    R[p].first = M.L[c[p]].tree;
    R[p].n = M.L[c[p + 1] - 1].tree - R[p].first + 1;
    R[p].shared = c[p] > 0 && M.L[c[p] - 1].tree == R[p].first;
    next = R[p].first + R[p].n;
  }
  return R;
}
/* settings of an uncommitted coarse mesh replace one another: the last partition setting counts, everything set before is released */
static inline void
overridden ()
{
  static const std::vector<std::string> names = { "line3", "quad2_flip", "tri_quad_tri", "vertex" };
  enum { OFFS, OFFS2, RNG, UNI, UNI2, DERIVE, SAMEOFF, NKIND };
  Spec s;
  s.m = choose_mesh (names);
  s.at.assign (s.T (), {});
  for (int t = 0; t < s.T (); t++)
    s.at[t] = attr_set (t, (2 * t + 3) % NATTR);
  s.vertices = true;
  const int T = s.T (), P = 1 + mc::choose (mc::q (2, 3), "ranks");
  bool replicated = mc::choose (2, "replicated");
  const Ranges R0 = all_ranges (T, P)[all_ranges (T, P).size () / 2];
  Ranges want = replicated ? Ranges () : R0;
  int n = 1 + mc::choose (mc::q (3, 4), "settings");
  std::vector<int> S;
  std::vector<Ranges> W;
  for (int i = 0; i < n; i++) {
    S.push_back (mc::choose (NKIND, "setting"));
    switch (S.back ()) {
    case OFFS: want = all_ranges (T, P).front (); break;
    case OFFS2: want = all_ranges (T, P)[all_ranges (T, P).size () * 2 / 3]; break;
    case RNG: want = all_ranges (T, P)[all_ranges (T, P).size () / 3]; break;
    case UNI: want = uniform_ranges (s.m, 0, P); break;
    case UNI2: want = uniform_ranges (s.m, s.m.dim () ? 1 : 0, P); break;
    case SAMEOFF:
      if (i == 0 || (S[i - 1] != OFFS && S[i - 1] != OFFS2 && S[i - 1] != SAMEOFF))
        mc::prune ();
    }
    W.push_back (want);
  }
  bool commit = mc::choose (2, "commit");
  int prof = mc::choose (3, "profiling");
  vmpi::Config cfg;
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm, d;
    t8_cmesh_init (&cm);
    specify (cm, s);
    if (!replicated)
      t8_cmesh_set_partition_range (cm, 3, entry (R0, rank, T), R0[rank].first + R0[rank].n - 1);
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    t8_cmesh_ref (cm);
    t8_cmesh_init (&d);
    t8_cmesh_set_derive (d, cm);
    t8_shmem_array_t off = nullptr;
    if (prof)
      t8_cmesh_set_profiling (d, 1);
    for (int i = 0; i < n; i++)
      switch (S[i]) {
      case OFFS:
      case OFFS2:
        t8_cmesh_set_partition_offsets (d, off = make_offsets (W[i], T));
        break;
      case RNG:
        t8_cmesh_set_partition_range (d, 3, entry (W[i], rank, T), W[i][rank].first + W[i][rank].n - 1);
        break;
      case UNI:
      case UNI2:
        t8_cmesh_set_partition_uniform (d, S[i] == UNI2 && s.m.dim () ? 1 : 0, new_scheme (s.m));
        break;
      case DERIVE: /* from another mesh that is the same */
        {
          t8_cmesh_t e;
          t8_cmesh_ref (cm);
          t8_cmesh_init (&e);
          t8_cmesh_set_derive (e, cm);
          t8_cmesh_commit (e, sc_MPI_COMM_WORLD);
          t8_cmesh_set_derive (d, e);
        }
        break;
      case SAMEOFF:
        t8_cmesh_set_partition_offsets (d, off);
      }
    if (prof == 2)
      t8_cmesh_set_profiling (d, 0);
    if (commit) {
      t8_cmesh_commit (d, sc_MPI_COMM_WORLD);
      check_cmesh (d, s, want, rank, "after replaced settings");
    }
    check_cmesh (cm, s, replicated ? Ranges () : R0, rank, "source");
    t8_cmesh_unref (&d);
    MC_CHECK (d == nullptr, "rank %d: the derived mesh still has references", rank);
    t8_cmesh_unref (&cm);
    MC_CHECK (cm == nullptr, "rank %d: the source still has references", rank);
    mc::checked ("replaced settings", 1);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  MC_CHECK (vmpi::live_wins () == 0, "%d windows not freed", vmpi::live_wins ());
  mc::state (mc::mix (mc::hash_str (mc::describe ()), 5));
}
}  // namespace cx
#endif
