/* C26: the ready-made coarse meshes are what they are announced to be. */
#include "scheme_enum.hxx"
#include "glue.hxx"
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh.h>
#include <t8_cmesh/t8_cmesh_examples.h>
#include <t8_geometry/t8_geometry.h>
#include <p4est_connectivity.h>
#include <p8est_connectivity.h>
#include <p4est_base.h>
#include <cmath>
#if T8_ENABLE_DEBUG || defined(__SANITIZE_ADDRESS__)
static const int BIG = 0;
#else
static const int BIG = 1; /* larger bounds in the fast build */
#endif

typedef std::array<double, 3> V;
static V operator+ (V a, V b) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
static V operator- (V a, V b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
static V operator* (double s, V a) { return { s * a[0], s * a[1], s * a[2] }; }
static double dot (V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V cross (V a, V b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static double norm (V a) { return sqrt (dot (a, a)); }
static std::string
vs (V a)
{
  char b[100];
  snprintf (b, sizeof b, "(%.9g,%.9g,%.9g)", a[0], a[1], a[2]);
  return b;
}
typedef std::array<int64_t, 3> Key;
static Key
key (V a)
{
  return { llround (a[0] * (1 << 20)), llround (a[1] * (1 << 20)), llround (a[2] * (1 << 20)) };
}
static bool near (V a, V b) { return norm (a - b) <= 1e-7; }
/* weights of the corners of a reference cell at a reference point */
static std::vector<double>
weights (int cls, const double *p)
{
  double x = p[0], y = p[1], z = p[2];
  switch (cls) {
  case 0:
    return { 1 };
  case 1:
    return { 1 - x, x };
  case 2:
    return { (1 - x) * (1 - y), x * (1 - y), (1 - x) * y, x * y };
  case 3:
    return { 1 - x, x - y, y };
  case 4: {
    std::vector<double> w;
    for (int i = 0; i < 8; i++)
      w.push_back ((i & 1 ? x : 1 - x) * (i & 2 ? y : 1 - y) * (i & 4 ? z : 1 - z));
    return w;
  }
  case 5:
    return { 1 - x, x - z, z - y, y };
  case 6:
    return { (1 - x) * (1 - z), (x - y) * (1 - z), y * (1 - z), (1 - x) * z, (x - y) * z, y * z };
  default: {
    if (z == 1)
      return { 0, 0, 0, 0, 1 };
    double s = (x - z) / (1 - z), t = (y - z) / (1 - z);
    return { (1 - z) * (1 - s) * (1 - t), (1 - z) * s * (1 - t), (1 - z) * (1 - s) * t, (1 - z) * s * t, z };
  }
  }
}
/* the points of the quarter lattice in a root cell, corners first */
static const std::vector<Pt> &
lattice (int cls)
{
  static std::vector<Pt> L[8];
  if (L[cls].empty ()) {
    Cell r = root_cell (cls);
    for (int i = 0; i < r.nv; i++)
      L[cls].push_back (r.v[i]);
    int n = 4, d = DIM[cls];
    for (int k = 0; k <= (d > 2 ? n : 0); k++)
      for (int j = 0; j <= (d > 1 ? n : 0); j++)
        for (int i = 0; i <= (d > 0 ? n : 0); i++) {
          Pt p { { i * ONE / n, j * ONE / n, k * ONE / n } };
          if (inside (r, p) && std::find (L[cls].begin (), L[cls].end (), p) == L[cls].end ())
            L[cls].push_back (p);
        }
  }
  return L[cls];
}
struct Nb {
  t8_gloidx_t tree;
  int face, orient;
  bool operator== (const Nb &o) const { return tree == o.tree && face == o.face && orient == o.orient; }
};
struct Tree {
  int cls = -1, rank = -1;
  std::vector<Nb> nb;
  std::vector<V> x; /* positions of the lattice points */
};
typedef std::map<t8_gloidx_t, Tree> Mesh;

enum Domain { NONE, GRID, DISK, SURFACE, SHELL, BALL };
struct Case {
  std::string name;
  int dim = 0;
  std::array<int, 8> count { {} };          /* announced number of trees of each class, -1: not announced */
  Domain domain = NONE;
  int n[3] = { 1, 1, 1 }, per[3] = { 0, 0, 0 };
  bool ordered = true;                      /* the trees of cube i come before those of cube i+1, x runs fastest */
  int perm[3] = { 0, 1, 2 };
  std::vector<V> corner;                    /* GRID: corners of the domain */
  double r = 1, R = 1, volume = -1;
  bool geometry = true, joins = true;
  int partitioned = 0;
  std::function<void (t8_cmesh_t *, int)> build;
};
static double
det (V a, V b, V c)
{
  return dot (a, cross (b, c));
}
/* oriented volume from the corners (exact if the faces are flat) */
static double
volume (int cls, const std::vector<V> &x)
{
  auto tet = [&] (int a, int b, int c, int d) { return det (x[b] - x[a], x[c] - x[a], x[d] - x[a]) / 6; };
  auto tri = [&] (int a, int b, int c) { return norm (cross (x[b] - x[a], x[c] - x[a])) / 2; };
  switch (cls) {
  case 0:
    return 1;
  case 1:
    return norm (x[1] - x[0]);
  case 2:
    return tri (0, 1, 3) + tri (0, 3, 2);
  case 3:
    return tri (0, 1, 2);
  case 4:
    return tet (0, 1, 3, 7) + tet (0, 3, 2, 7) + tet (0, 2, 6, 7) + tet (0, 6, 4, 7) + tet (0, 4, 5, 7) + tet (0, 5, 1, 7);
  case 5:
    return -tet (0, 1, 2, 3);
  case 6:
    return tet (0, 1, 2, 5) + tet (0, 1, 5, 4) + tet (0, 4, 5, 3);
  default:
    return tet (0, 1, 3, 4) + tet (0, 3, 2, 4);
  }
}
static void
record (t8_cmesh_t cm, int rank, const Case &c, Mesh &M, t8_gloidx_t &global)
{
  MC_CHECK (t8_cmesh_is_committed (cm, 1), "the mesh is not committed");
  MC_CHECK (t8_cmesh_get_dimension (cm) == c.dim, "dimension %d instead of %d on process %d", t8_cmesh_get_dimension (cm), c.dim, rank);
  global = t8_cmesh_get_num_trees (cm);
  t8_locidx_t nl = t8_cmesh_get_num_local_trees (cm);
  for (t8_locidx_t l = 0; l < nl; l++) {
    Tree t;
    t8_gloidx_t g = t8_cmesh_get_global_id (cm, l);
    t.cls = (int) t8_cmesh_get_tree_class (cm, l);
    t.rank = rank;
    MC_CHECK (t.cls >= 0 && t.cls < 8 && DIM[t.cls] == c.dim, "tree %ld has class %d in a mesh of dimension %d", (long) g, t.cls, c.dim);
    for (int f = 0; f < NF[t.cls]; f++) {
      int d = -1, o = -1;
      t8_locidx_t n = t8_cmesh_get_face_neighbor (cm, l, f, &d, &o);
      t.nb.push_back (n < 0 ? Nb { -1, -1, -1 } : Nb { t8_cmesh_get_global_id (cm, n), d, o });
      mc::transition ();
    }
    if (c.geometry) {
      auto &L = lattice (t.cls);
      for (auto &p : L) {
        double ref[3], out[3];
        for (int d = 0; d < 3; d++)
          ref[d] = p.x[d] / (double) ONE;
        t8_geometry_evaluate (cm, g, ref, 1, out);
        t.x.push_back ({ out[0], out[1], out[2] });
      }
    }
    MC_CHECK (!M.count (g), "tree %ld appears twice on process %d", (long) g, rank);
    M[g] = t;
  }
}
static void
check_case (const Case &c, int P, const std::vector<Mesh> &M, const std::vector<t8_gloidx_t> &global, bool by_rank)
{
  /* all processes together */
  Mesh A;
  for (int p = 0; p < P; p++) {
    MC_CHECK (global[p] == global[0], "%s: process %d knows %ld trees, process 0 %ld", c.name.c_str (), p, (long) global[p], (long) global[0]);
    if (!c.partitioned)
      MC_CHECK ((t8_gloidx_t) M[p].size () == global[p], "%s: process %d holds %d of %ld trees of a replicated mesh", c.name.c_str (), p,
                (int) M[p].size (), (long) global[p]);
    for (auto &[g, t] : M[p]) {
      auto it = A.find (g);
      if (it == A.end ()) {
        A[g] = t;
        continue;
      }
      const Tree &o = it->second;
      bool same = o.cls == t.cls && o.nb == t.nb && o.x.size () == t.x.size ();
      for (size_t i = 0; same && i < t.x.size (); i++)
        same = near (o.x[i], t.x[i]);
      MC_CHECK (same, "%s: tree %ld differs between processes %d and %d", c.name.c_str (), (long) g, o.rank, p);
    }
  }
  MC_CHECK ((t8_gloidx_t) A.size () == global[0], "%s: %d trees instead of %ld in all parts together", c.name.c_str (), (int) A.size (),
            (long) global[0]);
  std::array<int, 8> count { {} };
  for (auto &[g, t] : A) {
    MC_CHECK (g >= 0 && g < global[0], "%s: global tree %ld", c.name.c_str (), (long) g);
    count[t.cls]++;
  }
  for (int k = 0; k < 8; k++)
    MC_CHECK (c.count[k] < 0 || c.count[k] == count[k], "%s: %d trees of class %s instead of %d", c.name.c_str (), count[k], ENAME[k], c.count[k]);
  mc::checked ("meshes", 1);
  /* joins are mutual */
  for (auto &[g, t] : A)
    for (int f = 0; f < NF[t.cls]; f++) {
      const Nb &n = t.nb[f];
      if (n.tree < 0)
        continue;
      auto it = A.find (n.tree);
      MC_CHECK (it != A.end (), "%s: tree %ld face %d: neighbour %ld", c.name.c_str (), (long) g, f, (long) n.tree);
      const Tree &o = it->second;
      MC_CHECK (n.face >= 0 && n.face < NF[o.cls] && FTYPE[t.cls][f] == FTYPE[o.cls][n.face], "%s: tree %ld face %d joined with face %d of tree %ld",
                c.name.c_str (), (long) g, f, n.face, (long) n.tree);
      MC_CHECK (!(n.tree == g && n.face == f), "%s: tree %ld face %d joined with itself", c.name.c_str (), (long) g, f);
      Nb back { g, f, n.orient };
      MC_CHECK (o.nb[n.face] == back, "%s: tree %ld face %d -> tree %ld face %d, but back -> tree %ld face %d (orientations %d, %d)",
                c.name.c_str (), (long) g, f, (long) n.tree, n.face, (long) o.nb[n.face].tree, o.nb[n.face].face, n.orient, o.nb[n.face].orient);
      MC_CHECK (n.orient >= 0 && n.orient < std::max (1, NFV[t.cls][f]), "%s: orientation %d", c.name.c_str (), n.orient);
      mc::checked ("meshes", 1);
    }
  if (!c.geometry)
    return;
  /* trees are not degenerate; for grids continue in grid coordinates */
  double total = 0;
  for (auto &[g, tr] : A) {
    Tree &t = A[g];
    double v = volume (t.cls, t.x);
    MC_CHECK (v > 1e-9, "%s: tree %ld has volume %g", c.name.c_str (), (long) g, v);
    for (size_t i = 0; i < t.x.size (); i++)
      for (int d = 0; d < 3; d++)
        MC_CHECK (std::isfinite (t.x[i][d]), "%s: tree %ld has a coordinate %g", c.name.c_str (), (long) g, t.x[i][d]);
    if (c.domain == GRID) {
      /* the corners of each tree are corners of the sub-cube it belongs to */
      int nc = c.n[0] * c.n[1] * c.n[2];
      int per_cube = (int) (global[0] / nc);
      t8_gloidx_t g0 = g;
      if (by_rank) {
        per_cube = (int) (M[t.rank].size () / nc);
        g0 = g - M[t.rank].begin ()->first;
      }
      int cube = c.ordered ? (int) (g0 / per_cube) : 0, idx[3];
      idx[c.perm[0]] = cube % c.n[c.perm[0]];
      idx[c.perm[1]] = cube / c.n[c.perm[0]] % c.n[c.perm[1]];
      idx[c.perm[2]] = cube / c.n[c.perm[0]] / c.n[c.perm[1]];
      std::vector<V> pc (NV[t.cls]);
      for (int i = 0; i < NV[t.cls]; i++) {
        bool found = false;
        for (int k = 0; k <= c.n[2] && !found; k++)
          for (int j = 0; j <= c.n[1] && !found; j++)
            for (int l = 0; l <= c.n[0] && !found; l++) {
              int at[3] = { l, j, k };
              double w[3] = { l / (double) c.n[0], j / (double) c.n[1], k / (double) c.n[2] };
              bool ok = true;
              for (int d = 0; d < 3; d++) {
                if (d >= c.dim && at[d])
                  ok = false;
                if (c.ordered && d < c.dim && at[d] != idx[d] && at[d] != idx[d] + 1)
                  ok = false;
              }
              if (!ok)
                continue;
              V q { 0, 0, 0 };
              for (int m = 0; m < 1 << c.dim; m++) {
                double f = 1;
                for (int d = 0; d < c.dim; d++)
                  f *= m >> d & 1 ? w[d] : 1 - w[d];
                q = q + f * c.corner[m];
              }
              if (near (q, t.x[i])) {
                found = true;
                pc[i] = { (double) l, (double) j, (double) k };
              }
            }
        MC_CHECK (found, "%s: corner %d of tree %ld at %s is not a corner of sub-cube %d (%d,%d,%d)", c.name.c_str (), i, (long) g,
                  vs (t.x[i]).c_str (), cube, idx[0], idx[1], idx[2]);
      }
      auto &L = lattice (t.cls);
      std::vector<V> px;
      for (size_t i = 0; i < L.size (); i++) {
        double r[3];
        for (int d = 0; d < 3; d++)
          r[d] = L[i].x[d] / (double) ONE;
        std::vector<double> w = weights (t.cls, r);
        V y { 0, 0, 0 }, q { 0, 0, 0 };
        for (size_t k = 0; k < w.size (); k++) {
          y = y + w[k] * t.x[k];
          q = q + w[k] * pc[k];
        }
        MC_CHECK (near (y, t.x[i]), "%s: tree %ld maps %s to %s instead of %s", c.name.c_str (), (long) g, str (L[i]).c_str (),
                  vs (t.x[i]).c_str (), vs (y).c_str ());
        px.push_back (q);
      }
      t.x = px;
      v = volume (t.cls, t.x);
      MC_CHECK (v > 1e-9, "%s: tree %ld is degenerate or inverted", c.name.c_str (), (long) g);
    }
    total += v;
    mc::checked ("meshes", 1);
  }
  if (c.domain == GRID) {
    double want = c.n[0] * c.n[1] * c.n[2];
    if (by_rank) {
      std::map<int, double> tv;
      for (auto &[g, t] : A)
        tv[t.rank] += volume (t.cls, t.x);
      for (auto &[r, v] : tv)
        MC_CHECK (fabs (v - want) < 1e-7, "%s: the trees of process %d fill %g of %g cubes", c.name.c_str (), r, v, want);
    }
    else
      MC_CHECK (fabs (total - want) < 1e-7, "%s: the trees fill %g of %g cubes", c.name.c_str (), total, want);
  }
  if (c.volume >= 0)
    MC_CHECK (fabs (total - c.volume) < 1e-7, "%s: total volume %.9g instead of %.9g", c.name.c_str (), total, c.volume);
  if (!c.joins)
    return;
  /* allowed shifts */
  std::vector<V> shifts;
  for (int k = -c.per[2]; k <= c.per[2]; k++)
    for (int j = -c.per[1]; j <= c.per[1]; j++)
      for (int i = -c.per[0]; i <= c.per[0]; i++)
        if (abs (i) + abs (j) + abs (k) <= 1)
          shifts.push_back ({ (double) i * c.n[0], (double) j * c.n[1], (double) k * c.n[2] });
  std::map<std::pair<int, std::vector<Key>>, std::vector<std::pair<t8_gloidx_t, int>>> at;
  auto fkey = [&] (const Tree &t, int f, V s) {
    std::vector<Key> r;
    for (int i = 0; i < NFV[t.cls][f]; i++)
      r.push_back (key (t.x[FV[t.cls][f][i]] + s));
    std::sort (r.begin (), r.end ());
    return std::make_pair (by_rank ? t.rank : 0, r);
  };
  for (auto &[g, t] : A)
    for (int f = 0; f < NF[t.cls]; f++)
      at[fkey (t, f, { 0, 0, 0 })].push_back ({ g, f });
  std::map<Key, int> bverts; /* for boundary topology */
  std::set<std::set<Key>> bedges[2];
  std::set<Key> bv[2];
  int bf[2] = { 0, 0 };
  for (auto &[g, t] : A)
    for (int f = 0; f < NF[t.cls]; f++) {
      const Nb &n = t.nb[f];
      Cell rc = root_cell (t.cls);
      auto &L = lattice (t.cls);
      if (n.tree >= 0) {
        const Tree &o = A[n.tree];
        std::vector<int> ab, ba;
        glue_maps (t.cls, f, o.cls, n.face, n.orient, ab, ba);
        auto &LO = lattice (o.cls);
        bool first = true;
        V s { 0, 0, 0 };
        for (size_t i = 0; i < L.size (); i++) {
          if (!on_face_plane (rc, f, L[i]))
            continue;
          Pt q = map_point (t.cls, f, o.cls, n.face, ab, L[i]);
          auto it = std::find (LO.begin (), LO.end (), q);
          if (it == LO.end ())
            mc::fail ("harness: point %s not in the lattice", str (q).c_str ());
          V d = o.x[it - LO.begin ()] - t.x[i];
          if (first) {
            s = d;
            bool ok = false;
            for (auto &z : shifts)
              ok = ok || near (z, s);
            MC_CHECK (ok, "%s: tree %ld face %d is joined with tree %ld face %d (orientation %d), but point %s lies at %s in one and at %s in the other",
                      c.name.c_str (), (long) g, f, (long) n.tree, n.face, n.orient, str (L[i]).c_str (), vs (t.x[i]).c_str (),
                      vs (o.x[it - LO.begin ()]).c_str ());
            first = false;
          }
          MC_CHECK (near (s, d), "%s: tree %ld face %d, tree %ld face %d (orientation %d): point %s lies at %s in one and at %s in the other",
                    c.name.c_str (), (long) g, f, (long) n.tree, n.face, n.orient, str (L[i]).c_str (), vs (t.x[i]).c_str (),
                    vs (o.x[it - LO.begin ()]).c_str ());
        }
      }
      /* who lies at the same place? */
      std::vector<std::pair<t8_gloidx_t, int>> cand;
      for (auto &x : at[fkey (t, f, { 0, 0, 0 })])
        if (x != std::make_pair (g, f))
          cand.push_back (x);
      if (cand.empty ())
        for (auto &s : shifts) {
          auto it = at.find (fkey (t, f, s));
          if (it != at.end () && norm (s) > 0)
            for (auto &x : it->second)
              cand.push_back (x);
        }
      MC_CHECK (cand.size () <= 1, "%s: %d faces lie where face %d of tree %ld lies", c.name.c_str (), (int) cand.size (), f, (long) g);
      if (cand.empty ()) {
        MC_CHECK (n.tree < 0, "%s: face %d of tree %ld is joined with tree %ld face %d, which lies elsewhere", c.name.c_str (), f, (long) g,
                  (long) n.tree, n.face);
        bool ok = true;
        int side = 0;
        for (size_t i = 0; i < L.size () && ok; i++) {
          if (!on_face_plane (rc, f, L[i]))
            continue;
          double rr = norm (t.x[i]);
          if (c.domain == DISK || c.domain == BALL)
            ok = fabs (rr - c.R) < 1e-7;
          else if (c.domain == SURFACE)
            ok = false;
          else if (c.domain == SHELL) {
            ok = fabs (rr - c.R) < 1e-7 || fabs (rr - c.r) < 1e-7;
            side = fabs (rr - c.R) < 1e-7;
          }
        }
        if (c.domain == GRID) {
          ok = false;
          for (int d = 0; d < c.dim; d++)
            for (int e = 0; e < 2; e++) {
              bool all = !c.per[d];
              for (int i = 0; i < NFV[t.cls][f]; i++)
                all = all && t.x[FV[t.cls][f][i]][d] == e * c.n[d];
              ok = ok || all;
            }
        }
        MC_CHECK (ok, "%s: face %d of tree %ld has no neighbour and is not on the boundary of the domain", c.name.c_str (), f, (long) g);
        std::vector<int> cy = NFV[t.cls][f] == 4 ? std::vector<int> { 0, 1, 3, 2 } : std::vector<int> { 0, 1, 2 };
        cy.resize (std::min<int> (NFV[t.cls][f], (int) cy.size ()));
        bf[side]++;
        for (size_t i = 0; i < cy.size (); i++) {
          Key a = key (t.x[FV[t.cls][f][cy[i]]]), b = key (t.x[FV[t.cls][f][cy[(i + 1) % cy.size ()]]]);
          bv[side].insert (a);
          bedges[side].insert ({ a, b });
        }
      }
      else
        MC_CHECK (n.tree == cand[0].first && n.face == cand[0].second,
                  "%s: face %d of tree %ld lies where face %d of tree %ld lies, but is joined with face %d of tree %ld", c.name.c_str (), f,
                  (long) g, cand[0].second, (long) cand[0].first, n.face, (long) n.tree);
      mc::checked ("meshes", 1);
    }
  /* curved domains */
  if (c.domain == DISK || c.domain == SURFACE || c.domain == SHELL || c.domain == BALL) {
    std::set<Key> v;
    std::set<std::set<Key>> e;
    for (auto &[g, t] : A) {
      for (size_t i = 0; i < t.x.size (); i++) {
        double rr = norm (t.x[i]);
        bool ok = c.domain == SURFACE ? fabs (rr - c.R) < 1e-7 : rr < c.R + 1e-7;
        if (c.domain == SHELL)
          ok = ok && rr > c.r - 1e-7;
        if (c.domain == DISK)
          ok = ok && fabs (t.x[i][2]) < 1e-9;
        MC_CHECK (ok, "%s: tree %ld has a point %s at distance %.9g", c.name.c_str (), (long) g, vs (t.x[i]).c_str (), rr);
      }
      if (c.dim == 2)
        for (int f = 0; f < NF[t.cls]; f++) {
          Key a = key (t.x[FV[t.cls][f][0]]), b = key (t.x[FV[t.cls][f][1]]);
          v.insert (a);
          v.insert (b);
          e.insert ({ a, b });
        }
    }
    if (c.dim == 2) {
      int euler = (int) v.size () - (int) e.size () + (int) A.size ();
      MC_CHECK (euler == (c.domain == DISK ? 1 : 2), "%s: Euler characteristic %d", c.name.c_str (), euler);
    }
    else
      for (int s = 0; s < (c.domain == SHELL ? 2 : 1); s++) {
        int euler = (int) bv[s].size () - (int) bedges[s].size () + bf[s];
        MC_CHECK (euler == 2, "%s: boundary sphere %d has Euler characteristic %d (%d faces)", c.name.c_str (), s, euler, bf[s]);
      }
    if (c.domain == SHELL)
      MC_CHECK (bf[0] == bf[1], "%s: %d inner and %d outer faces", c.name.c_str (), bf[0], bf[1]);
  }
}
static std::vector<Mesh> g_mesh;
static void
run_case (const Case &c, int P, const vmpi::Config &cfg, bool by_rank = false)
{
  mc::sample (c.name + " P=" + std::to_string (P));
  std::vector<Mesh> M (P);
  std::vector<t8_gloidx_t> global (P);
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    c.build (&cm, rank);
    record (cm, rank, c, M[rank], global[rank]);
    t8_cmesh_unref (&cm);
  });
  MC_CHECK (mem_balance () == bal, "%s: allocations left over: %ld", c.name.c_str (), mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%s: %d communicators not freed", c.name.c_str (), vmpi::live_comms ());
  check_case (c, P, M, global, by_rank);
  g_mesh = M;
  mc::state (mc::mix (mc::hash_str (c.name), P));
}
static const std::vector<V> UNIT = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 0, 1, 1 }, { 1, 1, 1 } };
static void
unit_grid (Case &c, int nx = 1, int ny = 1, int nz = 1)
{
  c.domain = GRID;
  c.n[0] = nx;
  c.n[1] = c.dim > 1 ? ny : 1;
  c.n[2] = c.dim > 2 ? nz : 1;
  for (auto v : UNIT)
    c.corner.push_back ({ v[0] * nx, v[1] * ny, v[2] * nz });
}
#define W sc_MPI_COMM_WORLD
static int
procs ()
{
  return 1 + mc::choose (mc::q (3 + BIG, 4 + BIG), "processes minus 1");
}
static const int PERCUBE[8] = { 1, 1, 1, 2, 1, 6, 2, 3 };
static void
part_single ()
{
  int cls = mc::choose (9, "class"), P = procs ();
  Case c;
  if (cls == 8) {
    c.dim = mc::choose (4, "dimension");
    c.name = "new_empty dim " + std::to_string (c.dim);
    int dim = c.dim;
    c.build = [dim] (t8_cmesh_t *cm, int) {
      t8_cmesh_set_dimension (*cm, dim);
      t8_cmesh_new_empty (*cm, W);
    };
    return run_case (c, P, vmpi::Config ());
  }
  c.dim = DIM[cls];
  c.count[cls] = 1;
  c.name = std::string ("new_from_class ") + ENAME[cls];
  c.build = [cls] (t8_cmesh_t *cm, int) { t8_cmesh_new_from_class (*cm, (t8_eclass_t) cls, W); };
  run_case (c, P, vmpi::Config ());
}
static void
part_hypercube ()
{
  int cls = mc::choose (8, "class"), P = procs (), bcast = mc::choose (2, "bcast"), part = mc::choose (2, "partition");
  int per = cls == 7 ? 0 : mc::choose (2, "periodic");
  if (bcast && part)
    mc::prune ();
  Case c;
  c.dim = DIM[cls];
  c.count[cls] = PERCUBE[cls];
  c.name = std::string ("new_hypercube ") + ENAME[cls] + (bcast ? " bcast" : "") + (part ? " partitioned" : "") + (per ? " periodic" : "");
  c.partitioned = part;
  unit_grid (c);
  for (int d = 0; d < c.dim; d++)
    c.per[d] = per;
  c.build = [=] (t8_cmesh_t *cm, int) { t8_cmesh_new_hypercube (cm, (t8_eclass_t) cls, W, bcast, part, per); };
  run_case (c, P, vmpi::choose_config (bcast ? 4 : 2));
}
/* boundaries: unit cube, a box, a parallelepiped, a general hexahedron */
static std::vector<V>
boundary (int which, int dim)
{
  std::vector<V> r;
  static const V E[3][3] = { { { 3, 0, 0 }, { 0, 2, 0 }, { 0, 0, 5 } }, { { 2, 0.5, 0.25 }, { -0.5, 3, 1 }, { 0.25, -1, 2 } }, { { 2, 0, 0 }, { 0, 2, 0 }, { 0, 0, 2 } } };
  for (int i = 0; i < 8; i++) {
    V p { 0, 0, 0 };
    if (which == 0)
      p = UNIT[i];
    else {
      p = { 1, -2, 0.5 };
      for (int d = 0; d < 3; d++)
        if (i >> d & 1)
          p = p + E[which - 1][d];
    }
    if (which == 3)
      p = p + (1 / 16.) * V { (double) (i * 3 % 7), (double) (i * 5 % 8), dim == 3 ? (double) (i * 2 % 5) : 0 };
    r.push_back (p);
  }
  return r;
}
static void
part_pad ()
{
  int cls = mc::choose (7, "class"), b = mc::choose (4, "boundary"), dim = DIM[cls];
  int top = mc::q (2 + BIG, 3 + BIG), n[3] = { 1, 1, 1 }, per[3] = { 0, 0, 0 };
  for (int d = 0; d < dim; d++)
    n[d] = 1 + mc::choose (dim == 3 && d > 0 ? top : mc::q (3, 5), "cubes minus 1");
  int ext = mc::choose (2, "extended"), part = 0;
  int aligned = b <= 1 && (cls == 1 || cls == 2 || cls == 4) ? mc::choose (2, "axis aligned") : 0;
  if (ext) {
    for (int d = 0; d < dim; d++)
      per[d] = mc::choose (2, "periodic");
    part = mc::choose (2, "partition");
  }
  int P = part ? procs () : 1 + mc::choose (2, "processes minus 1");
  Case c;
  c.dim = dim;
  c.domain = GRID;
  for (int d = 0; d < 3; d++) {
    c.n[d] = n[d];
    c.per[d] = per[d];
  }
  c.count[cls] = n[0] * n[1] * n[2] * PERCUBE[cls];
  c.corner = boundary (b, dim);
  c.partitioned = part;
  char t[200];
  snprintf (t, sizeof t, "new_hypercube_pad%s %s %dx%dx%d boundary %d periodic %d%d%d%s%s", ext ? "_ext" : "", ENAME[cls], n[0], n[1], n[2], b, per[0],
            per[1], per[2], aligned ? " axis aligned" : "", part ? " partitioned" : "");
  c.name = t;
  c.build = [=] (t8_cmesh_t *cm, int) {
    std::vector<double> bd;
    for (auto v : c.corner)
      bd.insert (bd.end (), v.begin (), v.end ());
    bd.resize (3 << dim);
    int a[3];
    for (int d = 0; d < 3; d++)
      a[d] = d < dim ? n[d] : 0;
    if (!ext)
      t8_cmesh_new_hypercube_pad (*cm, (t8_eclass_t) cls, W, bd.data (), a[0], a[1], a[2], aligned);
    else
      t8_cmesh_new_hypercube_pad_ext (*cm, (t8_eclass_t) cls, W, bd.data (), a[0], a[1], a[2], per[0], per[1], per[2], aligned, part, 0);
  };
  run_case (c, P, vmpi::Config ());
}
/* every process contributes a box of its own */
static void
part_offset ()
{
  int cls = mc::choose (7, "class"), dim = DIM[cls], P = procs (), n[3] = { 1, 1, 1 }, per[3] = { 0, 0, 0 };
  for (int d = 0; d < dim; d++) {
    n[d] = 1 + mc::choose (mc::q (2 + BIG, 3), "cubes minus 1");
    per[d] = mc::choose (2, "periodic");
  }
  Case c;
  c.dim = dim;
  c.domain = GRID;
  int nt = n[0] * n[1] * n[2] * PERCUBE[cls];
  for (int d = 0; d < 3; d++) {
    c.n[d] = n[d];
    c.per[d] = per[d];
  }
  c.count[cls] = nt * P;
  c.corner = UNIT;
  c.partitioned = 1;
  char t[200];
  snprintf (t, sizeof t, "new_hypercube_pad_ext %s %dx%dx%d periodic %d%d%d on each process", ENAME[cls], n[0], n[1], n[2], per[0], per[1], per[2]);
  c.name = t;
  c.build = [=] (t8_cmesh_t *cm, int rank) {
    std::vector<double> bd;
    for (auto v : c.corner)
      bd.insert (bd.end (), v.begin (), v.end ());
    t8_cmesh_new_hypercube_pad_ext (*cm, (t8_eclass_t) cls, W, bd.data (), n[0], n[1], n[2], per[0], per[1], per[2], 0, 1, rank * nt + 1);
  };
  run_case (c, P, vmpi::Config (), true);
}
static void
part_disjoint ()
{
  int dim = 2 + mc::choose (2, "dimension"), P = procs (), per[3] = { 0, 0, 0 };
  for (int d = 0; d < dim; d++)
    per[d] = mc::choose (2, "periodic");
  std::vector<std::array<int, 3>> n (P);
  static const int S[5][3] = { { 1, 1, 1 }, { 2, 1, 1 }, { 0, 1, 1 }, { 1, 2, 2 }, { 2, 3, 1 } };
  int any = 0;
  for (int p = 0; p < P; p++) {
    int k = mc::choose (mc::q (4, 5), "size");
    for (int d = 0; d < 3; d++)
      n[p][d] = d < dim ? S[k][d] : 0;
    any += n[p][0] > 0;
  }
  if (!any)
    mc::prune ();
  std::string name = "new_disjoint_bricks";
  for (int p = 0; p < P; p++)
    name += " " + std::to_string (n[p][0]) + "x" + std::to_string (n[p][1]) + "x" + std::to_string (n[p][2]);
  mc::sample (name);
  Case c;
  c.dim = dim;
  c.name = name;
  c.build = [=] (t8_cmesh_t *cm, int rank) {
    t8_cmesh_new_disjoint_bricks (*cm, n[rank][0], n[rank][1], n[rank][2], per[0], per[1], per[2], W);
  };
  std::vector<Mesh> M (P);
  std::vector<t8_gloidx_t> global (P);
  long bal = mem_balance ();
  vmpi::run (P, vmpi::choose_config (2), [&] (int rank) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    c.build (&cm, rank);
    MC_CHECK (t8_cmesh_is_partitioned (cm), "%s: not partitioned on process %d", c.name.c_str (), rank);
    record (cm, rank, c, M[rank], global[rank]);
    t8_cmesh_unref (&cm);
  });
  MC_CHECK (mem_balance () == bal, "%s: allocations left over: %ld", c.name.c_str (), mem_balance () - bal);
  t8_gloidx_t off = 0;
  for (int p = 0; p < P; p++) {
    int nt = n[p][0] * n[p][1] * (dim == 3 ? n[p][2] : 1);
    MC_CHECK ((int) M[p].size () == nt, "%s: process %d holds %d trees", name.c_str (), p, (int) M[p].size ());
    if (nt == 0)
      continue;
    MC_CHECK (M[p].begin ()->first == off, "%s: first tree of process %d is %ld", name.c_str (), p, (long) M[p].begin ()->first);
    /* each brick on its own, renumbered */
    Case q = c;
    q.domain = GRID;
    Mesh m;
    for (auto &[g, t] : M[p]) {
      Tree x = t;
      for (auto &b : x.nb)
        if (b.tree >= 0)
          b.tree -= off;
      m[g - off] = x;
    }
    for (int d = 0; d < 3; d++) {
      q.n[d] = d < dim ? n[p][d] : 1;
      q.per[d] = per[d];
    }
    for (auto v : UNIT)
      q.corner.push_back ({ v[0] * q.n[0], v[1] * q.n[1], v[2] * q.n[2] });
    q.count[dim == 2 ? 2 : 4] = nt;
    check_case (q, 1, { m }, { (t8_gloidx_t) nt }, false);
    off += nt;
  }
  for (int p = 0; p < P; p++)
    MC_CHECK (global[p] == off, "%s: process %d knows %ld trees", name.c_str (), p, (long) global[p]);
  mc::state (mc::hash_str (mc::describe ()));
}
static void
part_brick ()
{
  int dim = 2 + mc::choose (2, "dimension"), n[3] = { 1, 1, 1 }, per[3] = { 0, 0, 0 }, P = 1 + mc::choose (2, "processes minus 1");
  for (int d = 0; d < dim; d++) {
    n[d] = 1 + mc::choose (mc::q (3, 4), "cubes minus 1");
    per[d] = mc::choose (2, "periodic");
  }
  Case c;
  c.dim = dim;
  c.count[dim == 2 ? 2 : 4] = n[0] * n[1] * n[2];
  unit_grid (c, n[0], n[1], n[2]);
  for (int d = 0; d < 3; d++)
    c.per[d] = per[d];
  c.partitioned = 1; /* not decided: the code replicates what the documentation calls partitioned */
  char t[100];
  snprintf (t, sizeof t, "new_brick_%dd %dx%dx%d periodic %d%d%d", dim, n[0], n[1], n[2], per[0], per[1], per[2]);
  c.name = t;
  c.build = [=] (t8_cmesh_t *cm, int) {
    if (dim == 2)
      t8_cmesh_new_brick_2d (*cm, n[0], n[1], per[0], per[1], W);
    else
      t8_cmesh_new_brick_3d (*cm, n[0], n[1], n[2], per[0], per[1], per[2], W);
  };
  run_case (c, P, vmpi::Config ());
}
static void
part_fixed ()
{
  int which = mc::choose (18, "mesh"), P = procs ();
  Case c;
  auto fn = [&] (const char *name, int dim, void (*f) (t8_cmesh_t, sc_MPI_Comm)) {
    c.name = name;
    c.dim = dim;
    c.build = [f] (t8_cmesh_t *cm, int) { f (*cm, W); };
  };
  auto per = [&] (int k) {
    for (int d = 0; d < k; d++)
      c.per[d] = 1;
  };
  switch (which) {
  case 0:
  case 1: {
    c.name = which ? "new_hypercube_hybrid periodic" : "new_hypercube_hybrid";
    c.dim = 3;
    c.count = { 0, 0, 0, 0, 4, 6, 6, 0 };
    c.build = [which] (t8_cmesh_t *cm, int) { t8_cmesh_new_hypercube_hybrid (*cm, W, which); };
    unit_grid (c, 2, 2, 2);
    for (auto &v : c.corner)
      v = 0.5 * v;
    c.ordered = false;
    per (which ? 3 : 0);
    break;
  }
  case 2:
  case 3:
  case 4: {
    int dim = which - 1;
    c.name = "new_periodic dim " + std::to_string (dim);
    c.dim = dim;
    c.count[dim == 1 ? 1 : dim == 2 ? 2 : 4] = 1;
    c.build = [dim] (t8_cmesh_t *cm, int) { t8_cmesh_new_periodic (*cm, W, dim); };
    unit_grid (c);
    per (dim);
    break;
  }
  case 5:
    fn ("new_periodic_tri", 2, t8_cmesh_new_periodic_tri);
    c.count[3] = 2;
    unit_grid (c);
    per (2);
    break;
  case 6:
    fn ("new_periodic_hybrid", 2, t8_cmesh_new_periodic_hybrid);
    c.count[3] = 4;
    c.count[2] = 2;
    unit_grid (c, 2, 2);
    for (auto &v : c.corner)
      v = 0.5 * v;
    c.ordered = false;
    per (2);
    break;
  case 7:
    fn ("new_periodic_line_more_trees", 1, t8_cmesh_new_periodic_line_more_trees);
    c.count[1] = 3;
    unit_grid (c, 5); /* the trees end at 0, 1/5, 3/5, 1 */
    for (auto &v : c.corner)
      v = 0.2 * v;
    c.ordered = false;
    per (1);
    break;
  case 8:
    fn ("new_line_zigzag", 1, t8_cmesh_new_line_zigzag);
    c.count[1] = 3;
    break;
  case 9:
    fn ("new_prism_deformed", 3, t8_cmesh_new_prism_deformed);
    c.count[6] = 1;
    break;
  case 10:
    fn ("new_pyramid_deformed", 3, t8_cmesh_new_pyramid_deformed);
    c.count[7] = 1;
    break;
  case 11:
    fn ("new_prism_cake_funny_oriented", 3, t8_cmesh_new_prism_cake_funny_oriented);
    c.count[6] = 6;
    c.volume = 3 * sin (M_PI / 3);
    break;
  case 12:
    fn ("new_prism_geometry", 3, t8_cmesh_new_prism_geometry);
    c.count[6] = 8;
    c.volume = 4 * sin (M_PI / 3);
    break;
  case 13:
    fn ("new_hybrid_gate", 3, t8_cmesh_new_hybrid_gate);
    c.count = { 0, 0, 0, 0, 1, 2, 2, 0 };
    break;
  case 14:
    fn ("new_hybrid_gate_deformed", 3, t8_cmesh_new_hybrid_gate_deformed);
    c.count = { 0, 0, 0, 0, 1, 2, 2, 0 };
    break;
  case 15:
    fn ("new_full_hybrid", 3, t8_cmesh_new_full_hybrid);
    c.count = { 0, 0, 0, 0, 1, 1, 1, 1 };
    break;
  case 16: {
    fn ("new_tet_orientation_test", 3, t8_cmesh_new_tet_orientation_test);
    c.count[5] = 24;
    c.joins = false;
    run_case (c, P, vmpi::Config ());
    std::set<std::array<int, 3>> seen;
    for (auto &[g, t] : g_mesh[0])
      for (int f = 0; f < 4; f++)
        if (t.nb[f].tree >= 0)
          seen.insert ({ std::min (f, t.nb[f].face), std::max (f, t.nb[f].face), t.nb[f].orient });
    MC_CHECK (seen.size () == 30, "%d of 30 face connections occur", (int) seen.size ());
    return;
  }
  default: {
    int cls = mc::choose (8, "class"), n = 1 + mc::choose (4, "trees minus 1");
    if (n < 2 && cls == 0)
      n = 2;
    c.name = std::string ("new_bigmesh ") + ENAME[cls] + " " + std::to_string (n);
    c.dim = DIM[cls];
    c.count[cls] = n;
    c.geometry = false;
    c.build = [cls, n] (t8_cmesh_t *cm, int) { t8_cmesh_new_bigmesh (*cm, (t8_eclass_t) cls, n, W); };
    break;
  }
  }
  run_case (c, P, vmpi::Config ());
}
static void
part_family ()
{
  int which = mc::choose (4, "mesh"), P = procs (), n = 1 + mc::choose (mc::q (8, 14), "number minus 1");
  Case c;
  c.dim = 3;
  switch (which) {
  case 0:
  case 1:
    if (n < 3)
      mc::prune ();
    c.name = (which ? "new_pyramid_cake " : "new_prism_cake ") + std::to_string (n);
    c.count[which ? 7 : 6] = n;
    c.volume = n * sin (2 * M_PI / n) / 2 * (which ? 2 / 3. : 1);
    c.build = [=] (t8_cmesh_t *cm, int) { which ? t8_cmesh_new_pyramid_cake (*cm, W, n) : t8_cmesh_new_prism_cake (*cm, W, n); };
    break;
  case 2:
    c.name = "new_long_brick_pyramid " + std::to_string (n);
    c.count[7] = 3 * n;
    c.build = [=] (t8_cmesh_t *cm, int) { t8_cmesh_new_long_brick_pyramid (*cm, W, n); };
    unit_grid (c, 1, n, 1);
    break;
  default: {
    int attr = mc::choose (2, "attributes"), part = mc::choose (2, "partition");
    c.name = "new_row_of_cubes " + std::to_string (n) + (attr ? " attributes" : "") + (part ? " partitioned" : "");
    c.count[4] = n;
    c.partitioned = part;
    static int pkg = sc_package_register (NULL, SC_LP_SILENT, "c26", "row of cubes");
    unit_grid (c, n, 1, 1);
    c.build = [=] (t8_cmesh_t *cm, int) {
      t8_cmesh_new_row_of_cubes (*cm, n, attr, part, W, pkg);
      for (t8_locidx_t l = 0; l < t8_cmesh_get_num_local_trees (*cm); l++)
        for (int k = 0; k < 2; k++) {
          const t8_locidx_t *a = (const t8_locidx_t *) t8_cmesh_get_attribute (*cm, pkg, k, l);
          MC_CHECK ((a != NULL) == (attr != 0), "attribute %d of tree %d", k, (int) l);
          if (a)
            MC_CHECK (*a == (k ? n : t8_cmesh_get_global_id (*cm, l)), "attribute %d of tree %d is %d", k, (int) l, (int) *a);
        }
    };
  }
  }
  run_case (c, P, vmpi::Config ());
}
static void
part_round ()
{
  int which = mc::choose (9, "mesh"), P = 1 + mc::choose (2, "processes minus 1");
  static const double RAD[3] = { 1, 2.5, 0.125 };
  Case c;
  c.R = RAD[mc::choose (3, "radius")];
  double R = c.R;
  c.count.fill (-1);
  c.dim = which < 5 ? 2 : 3;
  auto fn = [&] (const char *name, void (*f) (t8_cmesh_t, const double, sc_MPI_Comm)) {
    c.name = std::string (name) + " R=" + std::to_string (R);
    c.build = [f, R] (t8_cmesh_t *cm, int) { f (*cm, R, W); };
  };
  c.domain = SURFACE;
  auto only = [&] (int cls, int n) {
    c.count.fill (0);
    c.count[cls] = n;
  };
  switch (which) {
  case 0:
    fn ("new_quadrangulated_disk", t8_cmesh_new_quadrangulated_disk);
    c.domain = DISK;
    only (2, -1);
    break;
  case 1:
    fn ("new_triangulated_spherical_surface_octahedron", t8_cmesh_new_triangulated_spherical_surface_octahedron);
    only (3, 8);
    break;
  case 2:
    fn ("new_triangulated_spherical_surface_icosahedron", t8_cmesh_new_triangulated_spherical_surface_icosahedron);
    only (3, 20);
    break;
  case 3:
    fn ("new_triangulated_spherical_surface_cube", t8_cmesh_new_triangulated_spherical_surface_cube);
    only (3, -1);
    break;
  case 4:
    fn ("new_quadrangulated_spherical_surface", t8_cmesh_new_quadrangulated_spherical_surface);
    only (2, 6);
    break;
  case 8:
    fn ("new_cubed_sphere", t8_cmesh_new_cubed_sphere);
    c.domain = BALL;
    only (4, -1);
    break;
  default: {
    int lev = mc::choose (mc::q (2 + BIG, 3 + BIG), "level"), lay = 1 + mc::choose (mc::q (3, 5), "layers minus 1");
    double th = c.R / 2 * (1 + mc::choose (2, "thickness"));
    c.r = c.R;
    c.R = c.r + th;
    c.domain = SHELL;
    double r = c.r;
    if (which == 7)
      lev++;
    c.name = std::string (which == 5 ? "new_prismed_spherical_shell_octahedron" : which == 6 ? "new_prismed_spherical_shell_icosahedron" : "new_cubed_spherical_shell")
             + " r=" + std::to_string (r) + " t=" + std::to_string (th) + " " + std::to_string (lev) + "," + std::to_string (lay);
    if (which == 7)
      only (4, 6 * lev * lev * lay);
    else
      only (6, (which == 5 ? 8 : 20) * (1 << 2 * lev) * lay);
    c.build = [=] (t8_cmesh_t *cm, int) {
      if (which == 5)
        t8_cmesh_new_prismed_spherical_shell_octahedron (*cm, r, th, lev, lay, W);
      else if (which == 6)
        t8_cmesh_new_prismed_spherical_shell_icosahedron (*cm, r, th, lev, lay, W);
      else
        t8_cmesh_new_cubed_spherical_shell (*cm, r, th, lev, lay, W);
    };
  }
  }
  run_case (c, P, vmpi::Config ());
}
static void
part_p4est ()
{
  int dim = 2 + mc::choose (2, "dimension"), P = procs (), part = mc::choose (2, "partition");
  p4est_connectivity_t *c2 = nullptr;
  p8est_connectivity_t *c3 = nullptr;
  static const char *N2[] = { "brick23", "corner", "cubed", "disk", "moebius", "periodic", "pillow", "rotwrap", "star", "shell2d", "twotrees", "unit" };
  static const char *N3[] = { "brick235", "periodic", "rotcubes", "rotwrap", "shell", "sphere", "twocubes", "twowrap", "unit", "torus" };
  std::string name;
  if (dim == 2) {
    int k = mc::choose (11, "connectivity");
    name = N2[k < 10 ? k : 11];
    switch (k) {
    case 0: c2 = p4est_connectivity_new_brick (2, 3, 1, 0); break;
    case 1: c2 = p4est_connectivity_new_corner (); break;
    case 2: c2 = p4est_connectivity_new_cubed (); break;
    case 3: c2 = p4est_connectivity_new_disk (0, 1); break;
    case 4: c2 = p4est_connectivity_new_moebius (); break;
    case 5: c2 = p4est_connectivity_new_periodic (); break;
    case 6: c2 = p4est_connectivity_new_pillow (); break;
    case 7: c2 = p4est_connectivity_new_rotwrap (); break;
    case 8: c2 = p4est_connectivity_new_star (); break;
    case 9: c2 = p4est_connectivity_new_shell2d (); break;
    default: c2 = p4est_connectivity_new_unitsquare (); break;
    }
  }
  else {
    int k = mc::choose (9, "connectivity");
    name = N3[k];
    switch (k) {
    case 0: c3 = p8est_connectivity_new_brick (2, 3, 2, 0, 1, 0); break;
    case 1: c3 = p8est_connectivity_new_periodic (); break;
    case 2: c3 = p8est_connectivity_new_rotcubes (); break;
    case 3: c3 = p8est_connectivity_new_rotwrap (); break;
    case 4: c3 = p8est_connectivity_new_shell (); break;
    case 5: c3 = p8est_connectivity_new_sphere (); break;
    case 6: c3 = p8est_connectivity_new_twocubes (); break;
    case 7: c3 = p8est_connectivity_new_twowrap (); break;
    default: c3 = p8est_connectivity_new_unitcube (); break;
    }
  }
  Case c;
  c.dim = dim;
  int nt = dim == 2 ? c2->num_trees : c3->num_trees, nf = 2 * dim, nv = 1 << dim;
  c.count[dim == 2 ? 2 : 4] = nt;
  c.name = "new_from_p" + std::to_string (dim == 2 ? 4 : 8) + "est " + name + (part ? " partitioned" : "");
  c.joins = false;
  c.geometry = false;
  c.partitioned = part;
  c.build = [=] (t8_cmesh_t *cm, int rank) {
    if (dim == 2)
      t8_cmesh_new_from_p4est (*cm, c2, W, part);
    else
      t8_cmesh_new_from_p8est (*cm, c3, W, part);
    const double *vert = dim == 2 ? c2->vertices : c3->vertices;
    const p4est_topidx_t *ttv = dim == 2 ? c2->tree_to_vertex : c3->tree_to_vertex, *ttt = dim == 2 ? c2->tree_to_tree : c3->tree_to_tree;
    const int8_t *ttf = dim == 2 ? c2->tree_to_face : c3->tree_to_face;
    for (t8_locidx_t l = 0; l < t8_cmesh_get_num_local_trees (*cm); l++) {
      t8_gloidx_t g = t8_cmesh_get_global_id (*cm, l);
      for (int v = 0; v < nv; v++) {
        double ref[3] = { (double) (v & 1), (double) (v >> 1 & 1), (double) (v >> 2 & 1) }, out[3];
        t8_geometry_evaluate (*cm, g, ref, 1, out);
        const double *w = vert + 3 * ttv[g * nv + v];
        V a { out[0], out[1], out[2] }, b { w[0], w[1], w[2] };
        MC_CHECK (near (a, b), "%s: corner %d of tree %ld at %s", c.name.c_str (), v, (long) g, vs (a).c_str ());
      }
      for (int f = 0; f < nf; f++) {
        int d = -1, o = -1;
        t8_locidx_t n = t8_cmesh_get_face_neighbor (*cm, l, f, &d, &o);
        int wt = ttt[g * nf + f], wf = ttf[g * nf + f];
        if (wt == g && wf == f)
          MC_CHECK (n < 0, "%s: face %d of tree %ld is a boundary, but has neighbour %d", c.name.c_str (), f, (long) g, (int) n);
        else
          MC_CHECK (n >= 0 && t8_cmesh_get_global_id (*cm, n) == wt && d == wf % nf && o == wf / nf,
                    "%s: face %d of tree %ld: neighbour %ld face %d orientation %d instead of %d, %d, %d", c.name.c_str (), f, (long) g,
                    n < 0 ? -1L : (long) t8_cmesh_get_global_id (*cm, n), d, o, wt, wf % nf, wf / nf);
        mc::checked ("meshes", 1);
      }
    }
    (void) rank;
  };
  run_case (c, P, vmpi::Config ());
  if (c2)
    p4est_connectivity_destroy (c2);
  if (c3)
    p8est_connectivity_destroy (c3);
}
int
main (int argc, char **argv)
{
  hx::init ();
  p4est_init (NULL, SC_LP_SILENT);
  mc::Options o;
  o.property = "C26";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    switch (mc::choose (10, "part")) {
    case 0:
      return part_single ();
    case 1:
      return part_hypercube ();
    case 2:
      return part_pad ();
    case 3:
      return part_offset ();
    case 4:
      return part_disjoint ();
    case 5:
      return part_brick ();
    case 6:
      return part_fixed ();
    case 7:
      return part_family ();
    case 8:
      return part_round ();
    default:
      return part_p4est ();
    }
  });
}
