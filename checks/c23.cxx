/* C23: the geometric queries of elements agree with the mapping of their tree. */
#include "scheme_enum.hxx"
#include "glue.hxx"
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh.h>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <t8_geometry/t8_geometry.h>
#include <t8_geometry/t8_geometry_helpers.h>
#include <t8_geometry/t8_geometry_with_vertices.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_lagrange.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_analytic.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx>
#include <t8_forest/t8_forest_general.h>
#include <t8_forest/t8_forest_geometrical.h>
#include <t8_forest/t8_forest_private.h>
#include <cmath>

typedef std::array<double, 3> V;
static V operator+ (V a, V b) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
static V operator- (V a, V b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
static V operator* (double s, V a) { return { s * a[0], s * a[1], s * a[2] }; }
static double dot (V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V cross (V a, V b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static double norm (V a) { return sqrt (dot (a, a)); }
static bool near (V a, V b, double eps = 1e-10) { return norm (a - b) <= eps; }
static std::string
vs (V a)
{
  char b[100];
  snprintf (b, sizeof b, "(%.9g,%.9g,%.9g)", a[0], a[1], a[2]);
  return b;
}
/* weights of the corners of a reference cell at a reference point */
static std::vector<double>
weights (int cls, const double *p)
{
  double x = p[0], y = DIM[cls] > 1 ? p[1] : 0, z = DIM[cls] > 2 ? p[2] : 0;
  switch (cls) {
  case 0:
    return { 1 };
  case 1:
    return { 1 - x, x };
  case 2:
    return { (1 - x) * (1 - y), x * (1 - y), (1 - x) * y, x * y };
  case 3:
    return { 1 - x, x - y, y };
  case 4: {
    std::vector<double> w;
    for (int i = 0; i < 8; i++)
      w.push_back ((i & 1 ? x : 1 - x) * (i & 2 ? y : 1 - y) * (i & 4 ? z : 1 - z));
    return w;
  }
  case 5: /* (0,0,0) (1,0,0) (1,0,1) (1,1,1) */
    return { 1 - x, x - z, z - y, y };
  case 6:
    return { (1 - x) * (1 - z), (x - y) * (1 - z), y * (1 - z), (1 - x) * z, (x - y) * z, y * z };
  default: {
    if (z == 1)
      return { 0, 0, 0, 0, 1 };
    double s = (x - z) / (1 - z), t = (y - z) / (1 - z);
    return { (1 - z) * (1 - s) * (1 - t), (1 - z) * s * (1 - t), (1 - z) * (1 - s) * t, (1 - z) * s * t, z };
  }
  }
}
/* reference positions (in halves) of the nodes of the quadratic elements, as documented */
static const int S3[3][3] = { { 0 }, { 2 }, { 1 } };
static const int T6[6][3] = { { 0, 0 }, { 2, 0 }, { 2, 2 }, { 2, 1 }, { 1, 1 }, { 1, 0 } };
static const int Q9[9][3] = { { 0, 0 }, { 2, 0 }, { 0, 2 }, { 2, 2 }, { 0, 1 }, { 2, 1 }, { 1, 0 }, { 1, 2 }, { 1, 1 } };
static const int H27[27][3] = { { 0, 0, 0 }, { 2, 0, 0 }, { 0, 2, 0 }, { 2, 2, 0 }, { 0, 0, 2 }, { 2, 0, 2 }, { 0, 2, 2 }, { 2, 2, 2 }, { 0, 2, 1 },
                                { 0, 0, 1 }, { 0, 1, 0 }, { 0, 1, 2 }, { 0, 1, 1 }, { 2, 0, 1 }, { 2, 2, 1 }, { 2, 1, 0 }, { 2, 1, 2 }, { 2, 1, 1 },
                                { 1, 0, 0 }, { 1, 0, 2 }, { 1, 0, 1 }, { 1, 2, 0 }, { 1, 2, 2 }, { 1, 2, 1 }, { 1, 1, 0 }, { 1, 1, 2 }, { 1, 1, 1 } };
static const int (*
quad_nodes (int cls, int &n))[3]
{
  n = cls == 1 ? 3 : cls == 3 ? 6 : cls == 2 ? 9 : 27;
  return cls == 1 ? S3 : cls == 3 ? T6 : cls == 2 ? Q9 : H27;
}
static double
l2 (int at, double x)
{
  return at == 0 ? (1 - x) * (1 - 2 * x) : at == 2 ? x * (2 * x - 1) : 4 * x * (1 - x);
}
static std::vector<double>
weights2 (int cls, const double *p)
{
  int n;
  const int(*nd)[3] = quad_nodes (cls, n);
  std::vector<double> w (n, 1);
  if (cls == 3) {
    double b[3] = { 1 - p[0], p[0] - p[1], p[1] };
    for (int i = 0; i < 3; i++) {
      w[i] = b[i] * (2 * b[i] - 1);
      w[3 + i] = 4 * b[(i + 1) % 3] * b[(i + 2) % 3];
    }
    return w;
  }
  for (int i = 0; i < n; i++)
    for (int d = 0; d < DIM[cls]; d++)
      w[i] *= l2 (nd[i][d], p[d]);
  return w;
}

enum { LINEAR, AXIS, LAGRANGE1, LAGRANGE2, ANALYTIC, ZERO };
struct Tree {
  int cls, geom = LINEAR;
  std::vector<V> v; /* what is given to the mesh */
  V
  at (const double *r) const
  {
    V p = { 0, 0, 0 };
    if (geom == ZERO)
      return p;
    if (geom == AXIS) {
      V d = v[1] - v[0];
      p = v[0];
      int k = 0;
      for (int i = 0; i < 3; i++)
        if (DIM[cls] == 3 || d[i] != 0)
          p[i] += r[k++] * d[i];
      return p;
    }
    std::vector<double> w = geom == LAGRANGE2 ? weights2 (cls, r) : weights (cls, r);
    for (size_t i = 0; i < w.size (); i++)
      p = p + w[i] * v[i];
    if (geom == ANALYTIC)
      p = p + V { 10, 20, p[0] * p[0] };
    return p;
  }
  V
  at (const Pt &p) const
  {
    double r[3];
    for (int d = 0; d < 3; d++)
      r[d] = p.x[d] / (double) ONE;
    return at (r);
  }
};
static void
analytic (t8_cmesh_t cm, t8_gloidx_t gt, const double *ref, const size_t n, double *out, const void *tree_data, const void *)
{
  int cls = (int) t8_cmesh_get_tree_class (cm, t8_cmesh_get_local_id (cm, gt));
  const double *v = (const double *) tree_data;
  for (size_t k = 0; k < n; k++) {
    std::vector<double> w = weights (cls, ref + k * DIM[cls]);
    for (int d = 0; d < 3; d++) {
      out[3 * k + d] = 0;
      for (size_t i = 0; i < w.size (); i++)
        out[3 * k + d] += w[i] * v[3 * i + d];
    }
    double x = out[3 * k];
    out[3 * k] += 10, out[3 * k + 1] += 20, out[3 * k + 2] += x * x;
  }
}
/* its derivative; central differences are exact here, the map has degree two in every coordinate */
static void
analytic_jacobian (t8_cmesh_t cm, t8_gloidx_t gt, const double *ref, const size_t n, double *out, const void *tree_data, const void *user)
{
  int dim = DIM[(int) t8_cmesh_get_tree_class (cm, t8_cmesh_get_local_id (cm, gt))];
  for (size_t k = 0; k < n; k++)
    for (int d = 0; d < dim; d++) {
      double lo[3], hi[3], a[3], b[3];
      for (int e = 0; e < dim; e++)
        lo[e] = ref[k * dim + e] - 0.5 * (d == e), hi[e] = ref[k * dim + e] + 0.5 * (d == e);
      analytic (cm, gt, lo, 1, a, tree_data, user);
      analytic (cm, gt, hi, 1, b, tree_data, user);
      for (int e = 0; e < 3; e++)
        out[3 * (k * dim + d) + e] = b[e] - a[e];
    }
}
/* the derivative of the map of a tree at several points at once */
static void
judge_jacobian (t8_cmesh_t cm, int gt, const Tree &T, const std::vector<std::array<double, 3>> &at, const char *where)
{
  if ((T.geom != ANALYTIC && T.geom != ZERO) || DIM[T.cls] == 0)
    return; /* the others do not offer one */
  size_t dim = DIM[T.cls], n = at.size ();
  std::vector<double> ref, out (3 * dim * n + 3, -7);
  for (auto &x : at)
    ref.insert (ref.end (), x.begin (), x.begin () + dim);
  t8_geometry_jacobian (cm, gt, ref.data (), n, out.data ());
  for (size_t k = 0; k < n; k++)
    for (size_t d = 0; d < dim; d++) {
      auto lo = at[k], hi = at[k];
      lo[d] -= 0.5, hi[d] += 0.5;
      V want = T.at (hi.data ()) - T.at (lo.data ()), got = { out[3 * (k * dim + d)], out[3 * (k * dim + d) + 1], out[3 * (k * dim + d) + 2] };
      MC_CHECK (near (got, want), "%s: tree %d: derivative %d at point %d of %d is %s, expected %s", where, gt, (int) d, (int) k, (int) n, vs (got).c_str (), vs (want).c_str ());
    }
  MC_CHECK (out[3 * dim * n] == -7, "%s: wrote behind the derivatives", where);
  mc::checked ("derivatives", n);
}
static void
set_tree (t8_cmesh_t cm, int t, const Tree &T)
{
  t8_cmesh_set_tree_class (cm, t, (t8_eclass_t) T.cls);
  std::vector<double> v;
  for (auto &x : T.v)
    v.insert (v.end (), x.begin (), x.end ());
  t8_cmesh_set_tree_vertices (cm, t, v.data (), (int) T.v.size ());
  if (T.geom == LAGRANGE1 || T.geom == LAGRANGE2) {
    int deg = T.geom == LAGRANGE1 ? 1 : 2;
    t8_cmesh_set_attribute (cm, t, t8_get_package_id (), T8_CMESH_LAGRANGE_POLY_DEGREE_KEY, &deg, sizeof (int), 0);
  }
}
static t8_geometry *
reg (t8_cmesh_t cm, int geom)
{
  if (geom == LINEAR)
    return t8_cmesh_register_geometry<t8_geometry_linear> (cm);
  if (geom == AXIS)
    return t8_cmesh_register_geometry<t8_geometry_linear_axis_aligned> (cm);
  if (geom == ZERO)
    return t8_cmesh_register_geometry<t8_geometry_zero> (cm);
  if (geom == ANALYTIC)
    return t8_cmesh_register_geometry<t8_geometry_analytic> (cm, "verif_analytic", analytic, analytic_jacobian, t8_geom_load_tree_data_vertices, nullptr, nullptr, nullptr);
  return t8_cmesh_register_geometry<t8_geometry_lagrange> (cm);
}
struct Ctx {
  Tree T;
  t8_forest_t forest;
  const t8_scheme *s;
  int ltree = 0;
  bool affine = false, planar = false;
  std::vector<Pt> grid;
  double vol = 0; /* accumulated at the finest level */
};
static bool
is_lagrange (int g)
{
  return g == LAGRANGE1 || g == LAGRANGE2;
}
static std::vector<std::vector<double>>
ref_points (int shape)
{
  std::vector<std::vector<double>> r;
  const double st[4] = { 0, 0.25, 0.5, 1 };
  int n = DIM[shape] == 0 ? 1 : DIM[shape] == 1 ? 4 : DIM[shape] == 2 ? 16 : 64;
  Cell root = root_cell (shape);
  for (int i = 0; i < n; i++) {
    std::vector<double> p = { st[i % 4], st[i / 4 % 4], st[i / 16 % 4] };
    if (DIM[shape] == 0)
      p = { 0, 0, 0 };
    Pt q;
    for (int d = 0; d < DIM[shape]; d++)
      q.x[d] = (int64_t) (p[d] * ONE);
    if (inside (root, q))
      r.push_back (p);
  }
  return r;
}
static double
poly_area (const std::vector<V> &p) /* corners in face order, planar */
{
  if (p.size () == 1)
    return 0;
  if (p.size () == 2)
    return norm (p[1] - p[0]);
  double a = norm (cross (p[1] - p[0], p[2] - p[0])) / 2;
  if (p.size () == 4)
    a += norm (cross (p[1] - p[3], p[2] - p[3])) / 2;
  return a;
}
static void
judge (Ctx &c, const t8_element_t *e, const char *where)
{
  t8_eclass_t tc = (t8_eclass_t) c.T.cls;
  Cell cell = cell_of (c.s, tc, e);
  int shape = cell.shape, dim = DIM[shape];
  std::vector<V> P;
  V mean = { 0, 0, 0 };
  double got[3];
  for (int i = 0; i < cell.nv; i++) {
    P.push_back (c.T.at (cell.v[i]));
    mean = mean + (1. / cell.nv) * P.back ();
    t8_forest_element_coordinate (c.forest, c.ltree, e, i, got);
    MC_CHECK (near ({ got[0], got[1], got[2] }, P[i]), "%s: corner %d at %s, expected %s", where, i, vs ({ got[0], got[1], got[2] }).c_str (), vs (P[i]).c_str ());
  }
  mc::checked ("corner coordinates", cell.nv);
  /* points given in the reference space of the element */
  auto tree_ref = [&] (const double *r, double *out) {
    std::vector<double> w = weights (shape, r);
    for (int d = 0; d < 3; d++) {
      out[d] = 0;
      for (int i = 0; i < cell.nv; i++)
        out[d] += w[i] * (cell.v[i].x[d] / (double) ONE);
    }
  };
  static std::map<int, std::vector<std::vector<double>>> cache;
  auto &R = cache[shape];
  if (R.empty ())
    R = ref_points (shape);
  if (R.size () == 1)
    R.assign (3, std::vector<double> (R[0])); /* a vertex: its only point, several times at once */
  const int td = 3; /* reference points are three doubles apart, in every dimension */
  std::vector<double> flat, out (3 * R.size () + 3, -7);
  std::vector<V> exp;
  for (auto &r : R) {
    double t[3];
    tree_ref (r.data (), t);
    exp.push_back (c.T.at (t));
    for (int d = 0; d < td; d++)
      flat.push_back (r[d]);
  }
  for (size_t i = 0; i < R.size (); i++) {
    t8_forest_element_from_ref_coords (c.forest, c.ltree, e, flat.data () + i * td, 1, got);
    MC_CHECK (near ({ got[0], got[1], got[2] }, exp[i]), "%s: reference point (%g,%g,%g) at %s, expected %s", where, R[i][0], R[i][1], R[i][2], vs ({ got[0], got[1], got[2] }).c_str (), vs (exp[i]).c_str ());
  }
  if (!is_lagrange (c.T.geom)) {
    t8_forest_element_from_ref_coords (c.forest, c.ltree, e, flat.data (), R.size (), out.data ());
    for (size_t i = 0; i < R.size (); i++)
      MC_CHECK (near ({ out[3 * i], out[3 * i + 1], out[3 * i + 2] }, exp[i]), "%s: reference point (%g,%g,%g) in a batch of %d at %s, expected %s", where, R[i][0], R[i][1], R[i][2], (int) R.size (), vs ({ out[3 * i], out[3 * i + 1], out[3 * i + 2] }).c_str (), vs (exp[i]).c_str ());
    MC_CHECK (out[3 * R.size ()] == -7, "%s: wrote behind the output array", where);
    /* the same points in the opposite order, and given in the reference space of the tree */
    size_t n = R.size (), tdim = DIM[c.T.cls];
    std::vector<double> back, tb;
    for (size_t i = n; i-- > 0;) {
      back.insert (back.end (), flat.begin () + i * td, flat.begin () + (i + 1) * td);
      double t[3];
      tree_ref (R[i].data (), t);
      tb.insert (tb.end (), t, t + tdim);
    }
    out.assign (3 * n + 3, -7);
    t8_forest_element_from_ref_coords (c.forest, c.ltree, e, back.data (), n, out.data ());
    for (size_t i = 0; i < n; i++)
      MC_CHECK (near ({ out[3 * i], out[3 * i + 1], out[3 * i + 2] }, exp[n - 1 - i]), "%s: reference point %d in a reversed batch of %d at %s, expected %s", where, (int) i, (int) n, vs ({ out[3 * i], out[3 * i + 1], out[3 * i + 2] }).c_str (), vs (exp[n - 1 - i]).c_str ());
    out.assign (3 * n + 3, -7);
    tb.push_back (0);
    t8_geometry_evaluate (t8_forest_get_cmesh (c.forest), t8_forest_global_tree_id (c.forest, c.ltree), tb.data (), n, out.data ());
    for (size_t i = 0; i < n; i++)
      MC_CHECK (near ({ out[3 * i], out[3 * i + 1], out[3 * i + 2] }, exp[n - 1 - i]), "%s: point %d in a batch of %d of the tree at %s, expected %s", where, (int) i, (int) n, vs ({ out[3 * i], out[3 * i + 1], out[3 * i + 2] }).c_str (), vs (exp[n - 1 - i]).c_str ());
    MC_CHECK (out[3 * n] == -7, "%s: wrote behind the output array", where);
    std::vector<std::array<double, 3>> some;
    for (size_t i = 0; i < std::min<size_t> (n, 5); i++) {
      std::array<double, 3> x = { 0, 0, 0 };
      tree_ref (R[i].data (), x.data ());
      if (c.T.cls != 7) /* the map of a pyramid is not a polynomial */
        some.push_back (x);
    }
    if (!some.empty ())
      judge_jacobian (t8_forest_get_cmesh (c.forest), (int) t8_forest_global_tree_id (c.forest, c.ltree), c.T, some, where);
    if ((c.T.geom == LINEAR || c.T.geom == AXIS) && dim > 0) {
      const double st[3] = { 0.5, 0.75, 0.25 };
      size_t m = std::min<size_t> (8, R.size ());
      t8_forest_element_from_ref_coords_ext (c.forest, c.ltree, e, flat.data (), m, out.data (), st);
      for (size_t i = 0; i < m; i++) {
        double r[3], t[3];
        for (int d = 0; d < 3; d++)
          r[d] = 0.5 + (R[i][d] - 0.5) * st[d];
        tree_ref (r, t);
        V x = c.T.at (t);
        MC_CHECK (near ({ out[3 * i], out[3 * i + 1], out[3 * i + 2] }, x), "%s: stretched reference point %d", where, (int) i);
      }
    }
  }
  mc::checked ("mapped points", 2 * R.size ());
  /* centroid: image of the mean of the corners in the reference space (documented for linear elements) */
  double cr[3] = { 0, 0, 0 };
  for (int i = 0; i < cell.nv; i++)
    for (int d = 0; d < 3; d++)
      cr[d] += cell.v[i].x[d] / (double) ONE / cell.nv;
  V cen = c.T.at (cr);
  t8_forest_element_centroid (c.forest, c.ltree, e, got);
  MC_CHECK (near ({ got[0], got[1], got[2] }, cen), "%s: centroid %s, expected %s", where, vs ({ got[0], got[1], got[2] }).c_str (), vs (cen).c_str ());
  t8_forest_element_linear_centroid (c.forest, c.ltree, e, got);
  MC_CHECK (near ({ got[0], got[1], got[2] }, mean), "%s: linear centroid %s, expected %s", where, vs ({ got[0], got[1], got[2] }).c_str (), vs (mean).c_str ());
  if (dim == 0)
    MC_CHECK (t8_forest_element_volume (c.forest, c.ltree, e) == 0, "%s: a vertex has a volume", where);
  /* the measures are only promised for (multi)linear elements */
  if (c.affine && dim > 0) {
    double D = 0;
    for (auto &a : P)
      for (auto &b : P)
        D = std::max (D, norm (a - b));
    double d = t8_forest_element_diam (c.forest, c.ltree, e);
    MC_CHECK (dim == 1 ? fabs (d - D) < 1e-10 : d >= D / 4 - 1e-10 && d <= 2 * D + 1e-10, "%s: diameter %g, corners are up to %g apart", where, d, D);
    /* exact measure: reference measure times the determinant of the map */
    double ref = (double) vol6 (cell), scale = (double) ONE;
    V a0 = c.T.at (Pt {}), ex[3];
    double u[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
    for (int k = 0; k < dim; k++)
      ex[k] = c.T.at (u[k]) - a0;
    double vol = dim == 1 ? ref / scale * norm (ex[0]) : dim == 2 ? ref / scale / scale / 2 * norm (cross (ex[0], ex[1])) : ref / scale / scale / scale / 6 * fabs (dot (ex[0], cross (ex[1], ex[2])));
    double g = t8_forest_element_volume (c.forest, c.ltree, e);
    MC_CHECK (fabs (g - vol) < 1e-10, "%s: volume %.12g, expected %.12g", where, g, vol);
    mc::checked ("volumes");
  }
  /* prisms are cut into tetrahedra: exact for planar faces. Quads and hexahedra are taken for parallelograms. */
  if (!c.affine && c.planar && shape == 6) {
    double vol = 0;
    for (int f = 0; f < NF[shape]; f++) {
      std::vector<V> q;
      for (auto &p : face_points (cell, f))
        q.push_back (c.T.at (p));
      V m = cross (q[1] - q[0], q[2] - q[0]);
      vol += poly_area (q) * fabs (dot (mean - q[0], (1 / norm (m)) * m)) / 3;
    }
    double g = t8_forest_element_volume (c.forest, c.ltree, e);
    MC_CHECK (fabs (g - vol) < 1e-10, "%s: volume %.12g, expected %.12g", where, g, vol);
    mc::checked ("volumes");
  }
  if (dim > 0 && (c.affine || c.planar || !is_lagrange (c.T.geom)))
    for (int f = 0; f < NF[shape]; f++) {
      std::vector<V> q;
      V fc = { 0, 0, 0 };
      for (auto &p : face_points (cell, f))
        q.push_back (c.T.at (p));
      for (auto &p : q)
        fc = fc + (1. / q.size ()) * p;
      t8_forest_element_face_centroid (c.forest, c.ltree, e, f, got);
      MC_CHECK (near ({ got[0], got[1], got[2] }, fc), "%s: face %d centroid %s, expected %s", where, f, vs ({ got[0], got[1], got[2] }).c_str (), vs (fc).c_str ());
      if (!c.affine && !c.planar)
        continue;
      double a = t8_forest_element_face_area (c.forest, c.ltree, e, f);
      MC_CHECK (fabs (a - poly_area (q)) < 1e-10, "%s: face %d area %.12g, expected %.12g", where, f, a, poly_area (q));
      V n = fc - mean;
      if (dim == 2)
        n = n - (dot (n, q[1] - q[0]) / dot (q[1] - q[0], q[1] - q[0])) * (q[1] - q[0]);
      else if (dim == 3) {
        V m = cross (q[1] - q[0], q[2] - q[0]);
        n = dot (m, n) > 0 ? m : -1. * m;
      }
      n = (1 / norm (n)) * n;
      t8_forest_element_face_normal (c.forest, c.ltree, e, f, got);
      MC_CHECK (near ({ got[0], got[1], got[2] }, n, 1e-9), "%s: face %d normal %s, expected %s", where, f, vs ({ got[0], got[1], got[2] }).c_str (), vs (n).c_str ());
      mc::checked ("faces");
    }
  if (c.T.geom == ZERO) { /* only the origin is inside */
    const double pts[15] = { 0, 0, 0, 0.01, 0, 0, 0, -0.01, 0, 0, 0, 0, 0, 0, 0.01 };
    const int want[5] = { 1, 0, 0, 1, 0 };
    int in[6] = { -1, -1, -1, -1, -1, -9 };
    t8_forest_element_points_inside (c.forest, c.ltree, e, pts, 5, in, 1e-8);
    for (int i = 0; i < 5; i++)
      MC_CHECK (!!in[i] == want[i], "%s: point %d of 5 reported %s a collapsed element", where, i, in[i] ? "inside" : "outside");
    MC_CHECK (in[5] == -9, "%s: wrote behind the flags", where);
  }
  /* points inside */
  if ((c.affine || c.planar) && (c.T.geom == LINEAR || c.T.geom == AXIS)) {
    std::vector<double> pts;
    std::vector<int> want;
    auto add = [&] (V p, bool in) {
      pts.insert (pts.end (), p.begin (), p.end ());
      want.push_back (in);
    };
    for (auto &p : c.grid) {
      if (c.T.cls == 7 && p.x[2] == ONE) {
        Pt apex { { ONE, ONE, ONE } };
        if (p != apex) /* the map of the pyramid is not defined here; where its affine extension maps to: */
          add (c.T.at (apex) + (double) (p.x[0] - ONE) / ONE * (c.T.v[1] - c.T.v[0]) + (double) (p.x[1] - ONE) / ONE * (c.T.v[2] - c.T.v[0]), false);
        else
          add (c.T.at (p), inside (cell, p));
      }
      else
        add (c.T.at (p), inside (cell, p));
    }
    add (cen, true);
    for (int f = 0; f < NF[shape]; f++) {
      V fc = { 0, 0, 0 };
      auto fp = face_points (cell, f);
      for (auto &p : fp)
        fc = fc + (1. / fp.size ()) * c.T.at (p);
      add (fc, true);
      add (fc + 0.01 * (mean - fc), true);
      add (fc + 0.01 * (fc - mean), false);
    }
    if (dim < 3) { /* points off the line or the plane */
      double u[2][3] = { { 1, 0, 0 }, { 0, 1, 0 } };
      V o = c.T.at (Pt {}), n;
      V x = dim > 0 ? c.T.at (u[0]) - o : V { 1, 0, 0 };
      std::vector<V> off;
      if (dim == 2)
        n = cross (x, c.T.at (u[1]) - o), off = { 0.01 * n, -0.01 * n };
      else
        for (int d = 0; d < 3; d++) {
          V b = { 0, 0, 0 };
          b[d] = 1;
          V y = dim == 0 ? b : cross (x, b);
          if (norm (y) > 1e-6)
            off.push_back (0.01 * y), off.push_back (-0.01 * y);
        }
      for (auto &w : off) {
        add (cen + w, false);
        for (auto &p : P)
          add (p + w, false);
      }
    }
    std::vector<int> in (want.size () + 1, -7);
    t8_forest_element_points_inside (c.forest, c.ltree, e, pts.data (), (int) want.size (), in.data (), 1e-8);
    for (size_t i = 0; i < want.size (); i++)
      MC_CHECK (!!in[i] == !!want[i], "%s: point %s is reported %s the element", where, vs ({ pts[3 * i], pts[3 * i + 1], pts[3 * i + 2] }).c_str (), in[i] ? "inside" : "outside");
    MC_CHECK (in.back () == -7, "%s: wrote behind the result array", where);
    /* one at a time */
    for (size_t i = 0; i < want.size (); i += 1 + want.size () / 16) {
      int one = -7;
      t8_forest_element_points_inside (c.forest, c.ltree, e, pts.data () + 3 * i, 1, &one, 1e-8);
      MC_CHECK (!!one == !!want[i], "%s: single point %s is reported %s the element", where, vs ({ pts[3 * i], pts[3 * i + 1], pts[3 * i + 2] }).c_str (), one ? "inside" : "outside");
    }
    mc::checked ("points inside or outside", want.size ());
  }
}
static void
rec (Ctx &c, Walk &w, int l, int L)
{
  judge (c, w.E[l], w.where (l).c_str ());
  if (l >= L || l >= w.maxl)
    return;
  for (int i = 0; i < w.nch (l); i++) {
    w.down (l, i);
    rec (c, w, l + 1, L);
  }
}
static void
with_forest (Ctx &c, int which, bool negative, int L)
{
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (1, cfg, [&] (int) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    reg (cm, c.T.geom);
    set_tree (cm, 0, c.T);
    if (negative)
      t8_cmesh_disable_negative_volume_check (cm);
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    c.s = which ? t8_scheme_new_standalone () : t8_scheme_new_default ();
    c.forest = t8_forest_new_uniform (cm, c.s, 0, 0, sc_MPI_COMM_WORLD);
    if (c.affine && c.T.geom == LINEAR)
      MC_CHECK (!!t8_geometry_tree_negative_volume (cm, 0) == negative, "the tree is reported to have a %s volume", negative ? "positive" : "negative");
    if (c.T.geom == LINEAR || c.T.geom == AXIS) {
      double b[6], lo[3], hi[3];
      int ok = t8_cmesh_get_local_bounding_box (cm, b);
      for (int d = 0; d < 3; d++) {
        lo[d] = hi[d] = c.T.v[0][d];
        for (auto &v : c.T.v)
          lo[d] = std::min (lo[d], v[d]), hi[d] = std::max (hi[d], v[d]);
      }
      for (int d = 0; d < 3; d++)
        MC_CHECK (ok && fabs (b[2 * d] - lo[d]) < 1e-12 && fabs (b[2 * d + 1] - hi[d]) < 1e-12, "bounding box in direction %d: %g to %g, expected %g to %g", d, b[2 * d], b[2 * d + 1], lo[d], hi[d]);
    }
    {
      Walk w (which, c.T.cls, c.s);
      rec (c, w, 0, L);
    }
    t8_forest_unref (&c.forest);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
static std::vector<Pt>
make_grid (int dim)
{
  std::vector<Pt> g;
  int lo = dim == 1 ? -4 : -1, hi = dim == 1 ? 20 : 9, den = dim == 1 ? 16 : 8;
  if (dim == 0)
    return { Pt {} };
  for (int k = dim > 2 ? lo : 0; k <= (dim > 2 ? hi : 0); k++)
    for (int j = dim > 1 ? lo : 0; j <= (dim > 1 ? hi : 0); j++)
      for (int i = lo; i <= hi; i++)
        g.push_back (Pt { { i * ONE / den, j * ONE / den, k * ONE / den } });
  return g;
}
typedef std::array<int, 9> Mat; /* columns */
static int
det3 (const Mat &m)
{
  return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[3] * (m[1] * m[8] - m[2] * m[7]) + m[6] * (m[1] * m[5] - m[2] * m[4]);
}
static const std::vector<Mat> &
matrices (int dim)
{
  static std::vector<Mat> M[4];
  if (!M[dim].empty ())
    return M[dim];
  int n = dim == 0 ? 1 : dim == 1 ? 27 : dim == 2 ? 729 : 19683;
  for (int k = 0; k < n; k++) {
    Mat m = {};
    for (int i = 0, r = k; i < 3 * dim; i++, r /= 3)
      m[i] = r % 3 - 1;
    V a = { (double) m[0], (double) m[1], (double) m[2] }, b = { (double) m[3], (double) m[4], (double) m[5] };
    if ((dim == 1 && norm (a) == 0) || (dim == 2 && norm (cross (a, b)) == 0) || (dim == 3 && det3 (m) == 0))
      continue;
    if (dim == 3 && !mc::thorough ()) {
      int nz = 0, neg = 0;
      for (int i = 0; i < 9; i++)
        nz += m[i] != 0, neg += m[i] < 0;
      if (nz != 3 && neg)
        continue;
    }
    M[dim].push_back (m);
  }
  return M[dim];
}
static int
class_of (int which, bool vertex)
{
  if (which)
    return mc::pick (std::vector<int> { 1, 2, 4 }, "class");
  return vertex ? mc::choose (8, "class") : 1 + mc::choose (7, "class");
}
static void
part_affine ()
{
  int which = mc::choose (2, "scheme");
  Ctx c;
  c.T.cls = class_of (which, true);
  int cls = c.T.cls, dim = DIM[cls];
  std::vector<int> gs = { LINEAR };
  if (cls == 1 || cls == 2 || cls == 4)
    gs.push_back (AXIS);
  if (cls >= 1 && cls <= 4)
    gs.push_back (LAGRANGE1), gs.push_back (LAGRANGE2);
  c.T.geom = mc::pick (gs, "geometry");
  c.affine = true;
  c.grid = make_grid (dim);
  V o = { 0.25, -0.5, 2 };
  bool neg = false;
  if (c.T.geom == AXIS) {
    int ax = dim == 3 ? 0 : mc::choose (3, "axis"); /* the direction, or the normal of the plane */
    int sz = mc::choose (4, "size");
    V d = { 1, sz & 1 ? 2. : 1., sz & 2 ? 0.5 : 1. };
    for (int i = 0; i < 3; i++)
      if (dim < 3 && (i == ax) == (dim == 2))
        d[i] = 0;
    c.T.v = { o, o + d };
  }
  else {
    auto &M = matrices (dim);
    const Mat &m = M[mc::choose ((int) M.size (), "matrix")];
    if (dim == 3)
      neg = det3 (m) < 0;
    auto put = [&] (const int *x, double s) {
      V p = o;
      for (int k = 0; k < dim; k++)
        for (int d = 0; d < 3; d++)
          p[d] += m[3 * k + d] * x[k] * s;
      c.T.v.push_back (p);
    };
    if (c.T.geom == LAGRANGE2) {
      int n;
      const int(*nd)[3] = quad_nodes (cls, n);
      for (int i = 0; i < n; i++)
        put (nd[i], 0.5);
    }
    else
      for (int i = 0; i < NV[cls]; i++)
        put (CORNER[cls][i], 1);
    if (is_lagrange (c.T.geom) && neg)
      mc::prune ();
  }
  int L = dim == 3 ? (c.T.geom == LINEAR && cls != 7 ? mc::q (1, 2) : 2) : dim == 2 ? mc::q (3, 4) : 4;
  with_forest (c, which, neg, L);
}
static void
part_curved ()
{
  int which = mc::choose (2, "scheme");
  Ctx c;
  c.T.cls = class_of (which, false);
  int cls = c.T.cls, dim = DIM[cls];
  std::vector<int> gs = { LINEAR };
  if (cls >= 1 && cls <= 4)
    gs.push_back (LAGRANGE1), gs.push_back (LAGRANGE2);
  gs.push_back (ANALYTIC), gs.push_back (ZERO);
  c.T.geom = mc::pick (gs, "geometry");
  std::vector<V> base;
  if (c.T.geom == LAGRANGE2) {
    int n;
    const int(*nd)[3] = quad_nodes (cls, n);
    for (int i = 0; i < n; i++)
      base.push_back ({ nd[i][0] * 0.5, nd[i][1] * 0.5, nd[i][2] * 0.5 });
  }
  else
    for (int i = 0; i < NV[cls]; i++)
      base.push_back ({ (double) CORNER[cls][i][0], (double) CORNER[cls][i][1], (double) CORNER[cls][i][2] });
  /* one node moved in any direction, another one in a fixed direction */
  int a = mc::choose ((int) base.size (), "moved"), d = mc::choose (27, "by"), b = mc::choose ((int) base.size (), "also");
  if (c.T.geom == ZERO && (a || b || d))
    mc::prune ();
  V off = { (d % 3 - 1) / 8., (d / 3 % 3 - 1) / 8., (d / 9 - 1) / 8. };
  base[a] = base[a] + off;
  base[b] = base[b] + V { 1 / 16., -1 / 16., 1 / 32. };
  c.T.v = base;
  (void) dim;
  with_forest (c, which, false, dim == 3 ? mc::q (1, 2) : dim == 2 ? 2 : 3);
}
/* trees that are not affine but whose elements have planar faces */
static void
part_tapered ()
{
  int which = mc::choose (2, "scheme");
  Ctx c;
  c.T.cls = which ? mc::pick (std::vector<int> { 2, 4 }, "class") : mc::pick (std::vector<int> { 2, 4, 6 }, "class");
  int cls = c.T.cls, dim = DIM[cls];
  c.planar = true;
  c.grid = make_grid (dim);
  for (auto it = c.grid.begin (); it != c.grid.end ();) /* the map is one to one near the cell only */
    it = it->x[dim - 1] < 0 || it->x[dim - 1] > ONE ? c.grid.erase (it) : it + 1;
  auto &M = matrices (dim);
  const Mat &m = M[mc::choose ((int) M.size (), "matrix")];
  if (dim == 3 && det3 (m) < 0)
    mc::prune ();
  int tz = mc::choose (dim == 3 ? 2 : 1, "taper");
  for (int i = 0; i < NV[cls]; i++) {
    double x[3] = { (double) CORNER[cls][i][0], (double) CORNER[cls][i][1], (double) CORNER[cls][i][2] };
    double s = 1 - x[dim - 1] / 2;
    x[0] *= s;
    if (dim == 3)
      x[1] *= tz ? s : 1;
    V p = { 1, 2, -1 };
    for (int k = 0; k < dim; k++)
      for (int d = 0; d < 3; d++)
        p[d] += m[3 * k + d] * x[k];
    c.T.v.push_back (p);
  }
  if (dim == 3 && !tz && cls == 6)
    mc::prune (); /* the slanted faces would not be planar */
  with_forest (c, which, false, dim == 3 ? 1 : mc::q (2, 3));
}
/* two trees joined along a face: the face is the same set of points, seen from both sides */
static void
part_glued ()
{
  int which = mc::choose (2, "scheme");
  int ca = class_of (which, false), cb = which ? ca : 1 + mc::choose (7, "class_b");
  if (DIM[ca] != DIM[cb])
    mc::prune ();
  int fa = mc::choose (NF[ca], "face_a"), fb = mc::choose (NF[cb], "face_b");
  if (FTYPE[ca][fa] != FTYPE[cb][fb])
    mc::prune ();
  int orient = mc::choose (NFV[ca][fa], "orientation"), swap = mc::choose (2, "swap"), bend = mc::choose (2, "bend");
  std::vector<int> ab, ba;
  glue_maps (ca, fa, cb, fb, orient, ab, ba);
  Tree A, B;
  A.cls = ca, B.cls = cb;
  int dim = DIM[ca];
  V cen = { 0, 0, 0 }, fcen = { 0, 0, 0 };
  for (int i = 0; i < NV[ca]; i++) {
    A.v.push_back ({ (double) CORNER[ca][i][0], (double) CORNER[ca][i][1], (double) CORNER[ca][i][2] });
    cen = cen + (1. / NV[ca]) * A.v.back ();
  }
  int n = NFV[ca][fa];
  for (int i = 0; i < n; i++)
    fcen = fcen + (1. / n) * A.v[FV[ca][fa][i]];
  if (bend)
    A.v[FV[ca][fa][n - 1]] = A.v[FV[ca][fa][n - 1]] + V { 0.0625, dim > 1 ? 0.125 : 0, dim > 2 ? -0.09375 : 0 };
  B.v.assign (NV[cb], V {});
  std::vector<bool> set (NV[cb]);
  for (int i = 0; i < n; i++)
    B.v[FV[cb][fb][ab[i]]] = A.v[FV[ca][fa][i]], set[FV[cb][fb][ab[i]]] = true;
  /* the other corners of b: on the far side, each one off the face corner it is connected with */
  for (int i = 0; i < NV[cb]; i++)
    if (!set[i]) {
      V base = fcen;
      int best = 99;
      for (int k = 0; k < n; k++) {
        int q = FV[cb][fb][k], dist = 0;
        for (int d = 0; d < 3; d++)
          dist += abs (CORNER[cb][i][d] - CORNER[cb][q][d]);
        if (dist < best)
          best = dist, base = B.v[q];
      }
      B.v[i] = base + (fcen - cen) + 0.05 * i * (fcen - cen);
    }
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (1, cfg, [&] (int) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    t8_cmesh_disable_negative_volume_check (cm);
    reg (cm, LINEAR);
    set_tree (cm, 0, A);
    set_tree (cm, 1, B);
    if (swap)
      t8_cmesh_set_join (cm, 1, 0, fb, fa, orient);
    else
      t8_cmesh_set_join (cm, 0, 1, fa, fb, orient);
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    const t8_scheme *s = which ? t8_scheme_new_standalone () : t8_scheme_new_default ();
    t8_forest_t forest = t8_forest_new_uniform (cm, s, 0, 0, sc_MPI_COMM_WORLD);
    /* all points of a grid on the face */
    Cell root = root_cell (ca);
    std::vector<Pt> corners = face_points (root, fa);
    const int N = 4;
    auto pts = [&] (int i, int j) {
      Pt p = corners[0];
      if (n > 1)
        for (int d = 0; d < 3; d++)
          p.x[d] += (corners[1].x[d] - corners[0].x[d]) * i / N + (n > 2 ? (corners[2].x[d] - corners[0].x[d]) * j / N : 0);
      return p;
    };
    for (int i = 0; i <= (n > 1 ? N : 0); i++)
      for (int j = 0; j <= (n > 2 ? (n == 3 ? N - i : N) : 0); j++) {
        Pt p = pts (i, j), q = map_point (ca, fa, cb, fb, ab, p);
        double ra[3], rb[3];
        V xa, xb;
        for (int d = 0; d < 3; d++)
          ra[d] = p.x[d] / (double) ONE, rb[d] = q.x[d] / (double) ONE;
        t8_geometry_evaluate (cm, 0, ra, 1, xa.data ());
        t8_geometry_evaluate (cm, 1, rb, 1, xb.data ());
        MC_CHECK (near (xa, A.at (p)), "point %s of the face is mapped to %s", str (p).c_str (), vs (xa).c_str ());
        MC_CHECK (near (xa, xb), "the trees map the common point %s / %s to %s and %s", str (p).c_str (), str (q).c_str (), vs (xa).c_str (), vs (xb).c_str ());
        mc::checked ("common points");
      }
    /* the faces of elements at the common face */
    auto wp = std::make_unique<Walk> (which, ca, s);
    Walk &w = *wp;
    std::function<void (int)> go = [&] (int l) {
      const t8_element_t *e = w.E[l];
      Cell cell = cell_of (s, w.tc, e);
      for (int f = 0; f < NF[cell.shape]; f++)
        if (face_subset (root, fa, face_points (cell, f))) {
          t8_element_t *nb;
          t8_eclass_t nc = (t8_eclass_t) cb;
          s->element_new (nc, 1, &nb);
          int nf = -1;
          t8_gloidx_t g = t8_forest_element_face_neighbor (forest, 0, e, nb, nc, f, &nf);
          MC_CHECK (g == 1, "%s: face %d has no neighbour", w.where (l).c_str (), f);
          V x, y, nx, ny;
          t8_forest_element_face_centroid (forest, 0, e, f, x.data ());
          t8_forest_element_face_centroid (forest, 1, nb, nf, y.data ());
          MC_CHECK (near (x, y), "%s: face %d: centre %s, seen from the neighbour %s", w.where (l).c_str (), f, vs (x).c_str (), vs (y).c_str ());
          std::vector<V> p, q;
          for (int k = 0; k < s->element_get_num_corners (w.tc, e); k++)
            for (int i = 0; i < n; i++)
              if (s->element_get_face_corner (w.tc, e, f, i) == k) {
                t8_forest_element_coordinate (forest, 0, e, k, x.data ());
                p.push_back (x);
              }
          for (int i = 0; i < n; i++) {
            t8_forest_element_coordinate (forest, 1, nb, s->element_get_face_corner (nc, nb, nf, i), y.data ());
            q.push_back (y);
          }
          for (auto &a : p) {
            int k = 0;
            for (auto &b : q)
              k += near (a, b);
            MC_CHECK (k == 1, "%s: face %d: corner %s is met by %d corners of the neighbour", w.where (l).c_str (), f, vs (a).c_str (), k);
          }
          bool planar = n < 4 || !bend;
          if (planar) {
            double aa = t8_forest_element_face_area (forest, 0, e, f), bb = t8_forest_element_face_area (forest, 1, nb, nf);
            MC_CHECK (fabs (aa - bb) < 1e-10, "%s: face %d: area %g, seen from the neighbour %g", w.where (l).c_str (), f, aa, bb);
          }
          if (planar && dim != 2 && dim != 1) {
            t8_forest_element_face_normal (forest, 0, e, f, nx.data ());
            t8_forest_element_face_normal (forest, 1, nb, nf, ny.data ());
            MC_CHECK (near (nx, -1. * ny, 1e-9), "%s: face %d: normal %s, seen from the neighbour %s", w.where (l).c_str (), f, vs (nx).c_str (), vs (ny).c_str ());
          }
          mc::checked ("common faces");
          s->element_destroy (nc, 1, &nb);
        }
      if (l < mc::q (2, 3) && l < w.maxl)
        for (int i = 0; i < w.nch (l); i++) {
          w.down (l, i);
          go (l + 1);
        }
    };
    go (0);
    wp.reset ();
    t8_forest_unref (&forest);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
/* several trees with different geometries, queried in any order, on the mesh and on meshes derived from it */
static void
part_many ()
{
  const int cls = mc::pick (std::vector<int> { 2, 4 }, "class"), dim = DIM[cls];
  int P = 1 + mc::choose (2, "P");
  std::vector<Tree> T (3);
  std::vector<int> geoms;
  for (int t = 0; t < 3; t++) {
    T[t].cls = cls;
    T[t].geom = mc::pick (std::vector<int> { LINEAR, AXIS, LAGRANGE2, ANALYTIC, ZERO }, "geometry");
    if (std::find (geoms.begin (), geoms.end (), T[t].geom) == geoms.end ())
      geoms.push_back (T[t].geom);
    V o = { 3. * t, 0.5 * t, 1 };
    if (T[t].geom == AXIS)
      T[t].v = { o, o + V { 1, 2, dim > 2 ? 1. : 0. } };
    else if (T[t].geom == LAGRANGE2) {
      int n;
      const int(*nd)[3] = quad_nodes (cls, n);
      for (int i = 0; i < n; i++)
        T[t].v.push_back (o + V { nd[i][0] * 0.5, nd[i][1] * 0.5, nd[i][2] * 0.5 + (nd[i][0] == 1 ? 0.125 : 0) });
    }
    else
      for (int i = 0; i < NV[cls]; i++)
        T[t].v.push_back (o + V { CORNER[cls][i][0] * 1., CORNER[cls][i][1] * (1. + t), CORNER[cls][i][2] + 0.125 * t * CORNER[cls][i][0] });
  }
  if (mc::choose (2, "registered"))
    std::reverse (geoms.begin (), geoms.end ());
  int derive = mc::choose (4, "derive"); /* 0 none, 1 copy, keep the source; 2 copy; 3 partition */
  int cut = P > 1 ? 1 + mc::choose (2, "cut") : 3;
  int len = derive ? 2 : mc::q (3, 4);
  std::vector<int> ops;
  for (int i = 0; i < len; i++)
    ops.push_back (mc::choose (derive == 1 ? 6 : 3, "query")); /* tree, and mesh if there are two */
  int first = derive ? mc::choose (4, "before") : 3; /* a query of the source before it is given up */
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm, src = nullptr;
    t8_cmesh_init (&cm);
    std::map<int, t8_geometry *> G;
    for (int g : geoms)
      G[g] = reg (cm, g);
    for (int t = 0; t < 3; t++) {
      set_tree (cm, t, T[t]);
      if (geoms.size () > 1)
        t8_cmesh_set_tree_geometry (cm, t, G[T[t].geom]);
    }
    bool part = P > 1;
    if (part && derive != 3)
      t8_cmesh_set_partition_range (cm, 3, rank ? cut : 0, rank ? 2 : cut - 1);
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    int nquery = 0;
    auto query = [&] (t8_cmesh_t m, int t, const char *what) {
      t8_locidx_t lt = t8_cmesh_get_local_id (m, t);
      if (lt < 0 || lt >= t8_cmesh_get_num_local_trees (m))
        return;
      const std::vector<std::array<double, 3>> r = { { 0, 0, 0 }, { 1, 0, 1 }, { 0.25, 0.5, 0.75 }, { 1, 1, 1 } };
      if (nquery % 2 == 0)
        judge_jacobian (m, t, T[t], r, what);
      for (auto &p : r) {
        V x = { -1, -1, -1 }, y = T[t].at (p.data ());
        t8_geometry_evaluate (m, t, p.data (), 1, x.data ());
        MC_CHECK (near (x, y), "%s: tree %d maps (%g,%g,%g) to %s, expected %s", what, t, p[0], p[1], p[2], vs (x).c_str (), vs (y).c_str ());
      }
      if (nquery++ % 2)
        judge_jacobian (m, t, T[t], r, what);
      int gt = (int) t8_geometry_get_type (m, t);
      int want = T[t].geom == LINEAR ? T8_GEOMETRY_TYPE_LINEAR : T[t].geom == AXIS ? T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED : T[t].geom == ANALYTIC ? T8_GEOMETRY_TYPE_ANALYTIC : T[t].geom == ZERO ? T8_GEOMETRY_TYPE_ZERO : T8_GEOMETRY_TYPE_LAGRANGE;
      MC_CHECK (gt == want, "%s: tree %d has a geometry of type %d, expected %d", what, t, gt, want);
      mc::checked ("queries of one of several geometries");
    };
    if (derive) {
      src = cm;
      if (first < 3)
        query (src, first, "source before");
      t8_cmesh_ref (src);
      t8_cmesh_init (&cm);
      t8_cmesh_set_derive (cm, src);
      if (derive == 3 && part)
        t8_cmesh_set_partition_range (cm, 3, rank ? cut : 0, rank ? 2 : cut - 1);
      t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
      if (first < 3)
        query (src, first, "source after");
      if (derive != 1)
        t8_cmesh_unref (&src);
    }
    for (int q : ops)
      query (q < 3 ? cm : src, q % 3, q < 3 ? "mesh" : "source");
    if (derive == 1) {
      t8_cmesh_unref (&src);
      query (cm, ops[0] % 3, "mesh at the end");
    }
    t8_cmesh_unref (&cm);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
/* leaves of distributed forests: local, global and coarse mesh numbers of trees differ */
static void
part_distributed ()
{
  int cls = mc::pick (std::vector<int> { 1, 2, 3, 4, 5, 6, 7 }, "class"), dim = DIM[cls];
  int n = 2 + mc::choose (2, "trees"), P = 1 + mc::choose (mc::q (3, 4), "P"), level = mc::choose (2, "level");
  int partitioned = mc::choose (2, "partitioned");
  std::vector<Tree> T (n);
  for (int t = 0; t < n; t++) {
    T[t].cls = cls;
    for (int i = 0; i < NV[cls]; i++) {
      const int *x = CORNER[cls][i];
      T[t].v.push_back ({ x[0] * (1. + t) + 0.5 * x[1], 10. * t + x[1], 1. * x[2] + 0.25 * t * x[0] });
    }
  }
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    reg (cm, LINEAR);
    for (int t = 0; t < n; t++)
      set_tree (cm, t, T[t]);
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    const t8_scheme *s = t8_scheme_new_default ();
    if (partitioned) {
      t8_cmesh_t pc;
      t8_cmesh_init (&pc);
      t8_cmesh_set_derive (pc, cm);
      s->ref ();
      t8_cmesh_set_partition_uniform (pc, level, s);
      t8_cmesh_commit (pc, sc_MPI_COMM_WORLD);
      cm = pc;
    }
    t8_forest_t f = t8_forest_new_uniform (cm, s, level, 0, sc_MPI_COMM_WORLD);
    for (t8_locidx_t lt = 0; lt < t8_forest_get_num_local_trees (f); lt++) {
      Ctx c;
      c.T = T[t8_forest_global_tree_id (f, lt)];
      c.forest = f;
      c.s = s;
      c.ltree = lt;
      c.affine = true;
      if (dim < 3)
        c.grid = make_grid (dim);
      for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (f, lt); i++) {
        char b[80];
        snprintf (b, sizeof b, "tree %d leaf %d", (int) t8_forest_global_tree_id (f, lt), (int) i);
        judge (c, t8_forest_get_leaf_element_in_tree (f, lt, i), b);
      }
    }
    t8_forest_unref (&f);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
/* single elements of the Lagrange geometry, their nodes, their faces and the map from a face into the element */
static void
part_lagrange_element ()
{
  int cls = mc::pick (std::vector<int> { 1, 2, 3, 4 }, "class"), degree = 1 + mc::choose (2, "degree"), dim = DIM[cls];
  Tree T;
  T.cls = cls;
  T.geom = degree == 1 ? LAGRANGE1 : LAGRANGE2;
  if (degree == 2) {
    int n;
    const int(*nd)[3] = quad_nodes (cls, n);
    for (int i = 0; i < n; i++)
      T.v.push_back ({ nd[i][0] * 0.5, nd[i][1] * 0.5, nd[i][2] * 0.5 });
  }
  else
    for (int i = 0; i < NV[cls]; i++)
      T.v.push_back ({ (double) CORNER[cls][i][0], (double) CORNER[cls][i][1], (double) CORNER[cls][i][2] });
  int moved = mc::choose ((int) T.v.size (), "moved"), by = mc::choose (27, "by");
  for (size_t i = 0; i < T.v.size (); i++) /* no two nodes alike */
    T.v[i] = T.v[i] + V { 0.01 * i, 0.003 * i * i, -0.02 * i };
  T.v[moved] = T.v[moved] + V { (by % 3 - 1) / 8., (by / 3 % 3 - 1) / 8., (by / 9 - 1) / 8. };
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (1, cfg, [&] (int) {
    std::vector<double> nodes;
    for (auto &x : T.v)
      nodes.insert (nodes.end (), x.begin (), x.end ());
    t8_lagrange_element E ((t8_eclass_t) cls, degree, nodes);
    MC_CHECK ((int) E.get_type () == cls, "Lagrange element of class %d reports class %d", cls, (int) E.get_type ());
    std::vector<uint32_t> back;
    for (size_t i = 0; i < T.v.size (); i++) {
      auto x = E.get_node_coords ((uint32_t) i);
      MC_CHECK (x.size () == 3 && near ({ x[0], x[1], x[2] }, T.v[i]), "Lagrange element: node %d", (int) i);
      back.insert (back.begin (), (uint32_t) i);
    }
    auto all = E.get_node_coords (back);
    for (size_t i = 0; i < T.v.size (); i++)
      MC_CHECK (near ({ all[i][0], all[i][1], all[i][2] }, T.v[T.v.size () - 1 - i]), "Lagrange element: node %d of a reversed list", (int) i);
    for (auto &r : ref_points (cls)) {
      auto x = E.evaluate ({ r[0], r[1], r[2] });
      V y = T.at (r.data ());
      MC_CHECK (near ({ x[0], x[1], x[2] }, y), "Lagrange element: (%g,%g,%g) at %s, expected %s", r[0], r[1], r[2], vs ({ x[0], x[1], x[2] }).c_str (), vs (y).c_str ());
    }
    auto fc = E.face_classes ();
    MC_CHECK ((int) fc.size () == NF[cls], "Lagrange element: %d faces", (int) fc.size ());
    for (int f = 0; f < NF[cls]; f++)
      MC_CHECK (fc[f] == (dim == 1 ? T8_ECLASS_VERTEX : dim == 2 ? T8_ECLASS_LINE : T8_ECLASS_QUAD), "Lagrange element: face %d has class %d", f, (int) fc[f]);
    if (dim < 2)
      return;
    auto F = E.decompose ();
    MC_CHECK ((int) F.size () == NF[cls], "Lagrange element decomposed into %d faces", (int) F.size ());
    Cell root = root_cell (cls);
    for (int f = 0; f < NF[cls]; f++) {
      MC_CHECK (F[f].get_type () == fc[f], "Lagrange element: class of face %d after the decomposition", f);
      for (auto &r : ref_points ((int) fc[f])) {
        std::array<double, 3> p = { r[0], r[1], r[2] };
        auto q = F[f].map_on_face ((t8_eclass_t) cls, f, p);
        auto x = F[f].evaluate (p);
        V y = T.at (q.data ());
        MC_CHECK (near ({ x[0], x[1], x[2] }, y), "Lagrange element: face %d: (%g,%g) at %s, the element maps it to %s", f, p[0], p[1], vs ({ x[0], x[1], x[2] }).c_str (), vs (y).c_str ());
        /* the point of the element lies on that face */
        Pt e;
        for (int d = 0; d < dim; d++)
          e.x[d] = (int64_t) (q[d] * ONE);
        MC_CHECK (on_face_plane (root, f, e) && inside (root, e), "Lagrange element: (%g,%g,%g) is not on face %d", q[0], q[1], q[2], f);
        mc::checked ("points of faces of Lagrange elements");
      }
    }
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
/* corners of faces and edges of a tree; the point of a face (or edge) that is seen from the opposite corner behind a point
 * of a tetrahedron (or triangle) */
static void
part_projection ()
{
  int cls = mc::choose (8, "class"), dim = 1 + mc::choose (3, "dim");
  std::vector<double> v;
  for (int i = 0; i < NV[cls] * dim; i++)
    v.push_back (100 + i * i + 0.5 * i);
  for (int f = 0; f < NF[cls]; f++) {
    std::vector<double> o (4 * dim + 1, -7);
    t8_geom_get_face_vertices ((t8_eclass_t) cls, v.data (), f, dim, o.data ());
    for (int i = 0; i < NFV[cls][f] * dim; i++)
      MC_CHECK (o[i] == v[FV[cls][f][i / dim] * dim + i % dim], "class %d face %d: coordinate %d of corner %d", cls, f, i % dim, i / dim);
    MC_CHECK (o[NFV[cls][f] * dim] == -7, "class %d face %d: wrote behind the corners", cls, f);
    mc::checked ("corners of faces and edges");
  }
  if (DIM[cls] == 3 && cls != 7) { /* there is no table for pyramids */
    /* an edge joins two corners that have two faces in common, each such pair once */
    std::set<std::pair<int, int>> want, got;
    for (int a = 0; a < NV[cls]; a++)
      for (int b = a + 1; b < NV[cls]; b++) {
        int common = 0;
        for (int f = 0; f < NF[cls]; f++) {
          bool ha = false, hb = false;
          for (int i = 0; i < NFV[cls][f]; i++)
            ha |= FV[cls][f][i] == a, hb |= FV[cls][f][i] == b;
          common += ha && hb;
        }
        if (common == 2)
          want.insert ({ a, b });
      }
    for (int e = 0; e < (int) want.size (); e++) {
      std::vector<double> o (2 * dim + 1, -7);
      t8_geom_get_edge_vertices ((t8_eclass_t) cls, v.data (), e, dim, o.data ());
      int c[2] = { -1, -1 };
      for (int i = 0; i < 2; i++)
        for (int k = 0; k < NV[cls]; k++)
          if (std::equal (&v[k * dim], &v[k * dim] + dim, &o[i * dim]))
            c[i] = k;
      MC_CHECK (c[0] >= 0 && c[1] >= 0 && o[2 * dim] == -7, "class %d edge %d: not the coordinates of two corners", cls, e);
      MC_CHECK (got.insert ({ std::min (c[0], c[1]), std::max (c[0], c[1]) }).second, "class %d edge %d: the same as an earlier one", cls, e);
      mc::checked ("corners of faces and edges");
    }
    MC_CHECK (got == want, "class %d: the edges do not join the corners with two common faces", cls);
  }
  if ((cls == 3 || cls == 5) && dim == DIM[cls]) {
    Cell root = root_cell (cls);
    const int N = 8;
    for (int i = 0; i < (dim == 2 ? 81 : 729); i++) {
      double r[3] = { i % 9 / (double) N, i / 9 % 9 / (double) N, i / 81 / (double) N };
      Pt q;
      for (int d = 0; d < dim; d++)
        q.x[d] = (int64_t) (r[d] * ONE);
      if (!inside (root, q))
        continue;
      for (int f = 0; f < NF[cls]; f++) {
        double x[3] = { 0, 0, 0 };
        if (dim == 2)
          t8_geom_get_ref_intersection (f, r, x);
        else
          t8_geom_get_tet_face_intersection (f, r, x);
        V X = { x[0], x[1], x[2] }, R = { r[0], r[1], dim == 2 ? 0 : r[2] }, o;
        for (int d = 0; d < 3; d++)
          o[d] = CORNER[cls][f][d];
        V mid = X; /* on the face: on its plane and within the element */
        std::vector<V> fc;
        for (int k = 0; k < NFV[cls][f]; k++)
          fc.push_back ({ (double) CORNER[cls][FV[cls][f][k]][0], (double) CORNER[cls][FV[cls][f][k]][1], (double) CORNER[cls][FV[cls][f][k]][2] });
        bool at_corner = norm (R - o) < 1e-12;
        double off = dim == 2 ? norm (cross (fc[1] - fc[0], mid - fc[0])) : fabs (dot (cross (fc[1] - fc[0], fc[2] - fc[0]), mid - fc[0]));
        MC_CHECK (off < 1e-12 || (at_corner && dim == 2), "class %d: behind (%g,%g,%g) seen from corner %d: %s is not on the opposite face", cls, r[0], r[1], r[2], f, vs (X).c_str ());
        if (at_corner)
          continue; /* any point of the face would do */
        MC_CHECK (norm (cross (X - o, R - o)) < 1e-12 && dot (X - o, R - o) > 0, "class %d: behind (%g,%g,%g) seen from corner %d: %s is not on the line", cls, r[0], r[1], r[2], f, vs (X).c_str ());
        if (dim == 2) { /* how far along that line the point is, for any position of the corners */
          const double g[9] = { 1, 2, 3, 4, 1, 7, -2, 5, 11 };
          V gx = { 0, 0, 0 }, gr = { 0, 0, 0 };
          std::vector<double> wx = weights (cls, x), wr = weights (cls, r);
          for (int k = 0; k < 3; k++)
            for (int d = 0; d < 3; d++)
              gx[d] += wx[k] * g[3 * k + d], gr[d] += wr[k] * g[3 * k + d];
          double s = t8_geom_get_triangle_scaling_factor (f, g, gx.data (), gr.data ());
          MC_CHECK (fabs (s - norm (R - o) / norm (X - o)) < 1e-10, "triangle: (%g,%g) is %g of the way from corner %d to its edge, expected %g", r[0], r[1], s, f, norm (R - o) / norm (X - o));
        }
        mc::checked ("projections from a corner");
      }
    }
  }
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C23";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    switch (mc::choose (8, "part")) {
    case 0:
      return part_affine ();
    case 1:
      return part_curved ();
    case 2:
      return part_tapered ();
    case 3:
      return part_glued ();
    case 4:
      return part_many ();
    case 5:
      return part_lagrange_element ();
    case 6:
      return part_projection ();
    default:
      return part_distributed ();
    }
  });
}
