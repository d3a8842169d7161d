/* C03: refinement tiles: exact geometry of every element, its children and its reference map. */
#include "scheme_enum.hxx"
#include <cmath>

/* four (dim+1) affinely independent corners of each shape */
static const int AFF[8][4] = { { 0 }, { 0, 1 }, { 0, 1, 2 }, { 0, 1, 2 }, { 0, 1, 2, 4 }, { 0, 1, 2, 3 }, { 0, 1, 2, 3 }, { 0, 1, 2, 4 } };

/* affine image of the reference point q (in 1/8 units) under the map reference shape -> cell */
static void
affine (const Cell &c, const double *q, double *out)
{
  int dim = DIM[c.shape];
  const int *a = AFF[c.shape];
  /* solve sum_j l_j (r_aj - r_a0) = q - r_a0 with the integer matrix of reference corners */
  double M[3][4] = {};
  for (int j = 0; j < dim; j++)
    for (int d = 0; d < dim; d++)
      M[d][j] = CORNER[c.shape][a[j + 1]][d] - CORNER[c.shape][a[0]][d];
  for (int d = 0; d < dim; d++)
    M[d][3] = q[d] - CORNER[c.shape][a[0]][d];
  for (int k = 0; k < dim; k++) {
    int p = k;
    while (p < dim && M[p][k] == 0)
      p++;
    std::swap (M[p], M[k]);
    for (int r = 0; r < dim; r++) {
      if (r == k || M[r][k] == 0)
        continue;
      double f = M[r][k] / M[k][k];
      for (int x = k; x < 4; x++)
        M[r][x] -= f * M[k][x];
    }
  }
  for (int d = 0; d < dim; d++) {
    long double v = (long double) c.v[a[0]].x[d];
    for (int j = 0; j < dim; j++)
      v += (long double) (M[j][3] / M[j][j]) * (c.v[a[j + 1]].x[d] - c.v[a[0]].x[d]);
    out[d] = (double) (v / (long double) ONE);
  }
}

static void
visit (Walk &w, int l)
{
  const t8_scheme *s = w.s;
  t8_eclass_t tc = w.tc;
  t8_element_t *e = w.E[l];
  auto &T = w.T;
#define AT w.where (l).c_str ()
  if (tc == T8_ECLASS_VERTEX)
    return;
  int dim = DIM[tc];
  Cell c = cell_of (s, tc, e);
  i128 v = vol6 (c);
  MC_CHECK (v > 0, "%s: degenerate element %s", AT, str (c).c_str ());
  if (l == 0) {
    Cell r = root_cell (tc);
    for (int i = 0; i < c.nv; i++)
      MC_CHECK (c.v[i] == r.v[i], "%s: root corner %d", AT, i);
  }
  /* every corner of the element inside the root, the cell affinely equivalent to its reference shape */
  Cell root = root_cell (tc);
  for (int i = 0; i < c.nv; i++) {
    MC_CHECK (inside (root, c.v[i]), "%s: corner %d outside the tree: %s", AT, i, str (c).c_str ());
    double q[3] = { (double) CORNER[c.shape][i][0], (double) CORNER[c.shape][i][1], (double) CORNER[c.shape][i][2] }, o[3];
    affine (c, q, o);
    for (int d = 0; d < dim; d++)
      MC_CHECK (o[d] * (double) ONE == (double) c.v[i].x[d], "%s: corner %d does not complete the shape %s", AT, i, str (c).c_str ());
  }
  /* volume: the regular refinement of a d-dimensional cell divides volumes by 2^d, pyramids and tets included */
  if (c.shape == (int) tc) {
    i128 rv = vol6 (root);
    MC_CHECK (v << (dim * l) == rv, "%s: volume is not 2^(-%d) of the tree", AT, dim * l);
  }
  else /* tet in a pyramid: half the volume of a pyramid of its level */
    MC_CHECK ((v * 2) << (dim * l) == vol6 (root), "%s: tetrahedron volume", AT);
  mc::checked ("cell", c.nv * 2 + 2);
  /* reference map */
  static const double QP[6][3] = { { 0.25, 0.125, 0.0625 }, { 0.5, 0.25, 0.125 }, { 0.75, 0.5, 0.25 }, { 0.875, 0.125, 0.125 }, { 1, 0.5, 0.5 }, { 0.5, 0.5, 0.25 } };
  double in[14 * 3], out[14 * 3 + 3], want[3];
  int np = 0;
  auto add = [&] (double x, double y, double z) {
    double p[3] = { x, y, z };
    for (int d = 0; d < 3; d++)
      in[np * 3 + d] = d < dim ? p[d] : 0;
    np++;
  };
  for (int i = 0; i < c.nv; i++)
    add (CORNER[c.shape][i][0], CORNER[c.shape][i][1], CORNER[c.shape][i][2]);
  for (int i = 0; i < 6; i++)
    if (c.shape == T8_ECLASS_TET)
      add (QP[i][0], QP[i][2], QP[i][1]);
    else
      add (QP[i][0], QP[i][1], QP[i][2]);
  for (int i = 0; i < np * dim + 3; i++)
    out[i] = 12345.0;
  s->element_get_reference_coords (tc, e, in, np, out);
  for (int i = 0; i < np; i++) {
    double q[3] = { 0, 0, 0 };
    for (int d = 0; d < dim; d++)
      q[d] = in[i * 3 + d];
    affine (c, q, want);
    for (int d = 0; d < dim; d++)
      MC_CHECK (std::fabs (out[i * dim + d] - want[d]) <= 1e-15, "%s: reference point (%g,%g,%g) maps to coordinate %d = %.17g, expected %.17g", AT, q[0], q[1], q[2], d, out[i * dim + d], want[d]);
  }
  for (int i = 0; i < 3; i++)
    MC_CHECK (out[np * dim + i] == 12345.0, "%s: reference coordinates written past the requested points", AT);
  /* one point at a time gives the same */
  for (int i = 0; i < np; i++) {
    double o1[3] = { 0, 0, 0 };
    s->element_get_reference_coords (tc, e, in + i * 3, 1, o1);
    for (int d = 0; d < dim; d++)
      MC_CHECK (o1[d] == out[i * dim + d], "%s: single-point reference map differs at point %d", AT, i);
  }
  mc::checked ("reference map", np * 2);
  /* corner/face tables of the element; the corner order of a face is the documented one, except that the
   * pyramids pointing down number their faces in another order */
  for (int f = 0; f < NF[c.shape]; f++) {
    MC_CHECK ((int) s->element_get_face_shape (tc, e, f) == FTYPE[c.shape][f], "%s: shape of face %d", AT, f);
    for (int k = 0; k < NFV[c.shape][f]; k++)
      MC_CHECK (s->element_get_face_corner (tc, e, f, k) == FV[c.shape][c.fp[f]][k], "%s: corner %d of face %d is %d", AT, k, f, s->element_get_face_corner (tc, e, f, k));
  }
  if (!w.which && tc != T8_ECLASS_TET && tc != T8_ECLASS_PYRAMID && tc != T8_ECLASS_PRISM) {
    for (int i = 0; i < c.nv; i++) {
      std::set<int> got, exp;
      for (int f = 0; f < NF[c.shape]; f++)
        for (int k = 0; k < NFV[c.shape][f]; k++)
          if (FV[c.shape][f][k] == i)
            exp.insert (f);
      for (int k = 0; k < (int) exp.size (); k++)
        got.insert (s->element_get_corner_face (tc, e, i, k));
      MC_CHECK (got == exp, "%s: faces at corner %d", AT, i);
    }
  }
  mc::checked ("face corners", NF[c.shape]);
  if (l >= w.maxl)
    return;
  int n = w.nch (l);
  Cell ch[10];
  i128 sum = 0;
  for (int i = 0; i < n; i++) {
    s->element_get_child (tc, e, i, T[0]);
    ch[i] = cell_of (s, tc, T[0]);
    for (int k = 0; k < ch[i].nv; k++)
      MC_CHECK (inside (c, ch[i].v[k]), "%s: corner %d of child %d outside: %s not in %s", AT, k, i, str (ch[i]).c_str (), str (c).c_str ());
    sum += vol6 (ch[i]);
    for (int j = 0; j < i; j++)
      MC_CHECK (interiors_disjoint (ch[i], ch[j]), "%s: children %d and %d overlap: %s %s", AT, j, i, str (ch[j]).c_str (), str (ch[i]).c_str ());
  }
  MC_CHECK (sum == v, "%s: the children's volumes do not add up", AT);
  /* the refinement is conforming: corners of children are corners or edge/face/cell midpoints of the parent */
  std::set<Pt> mids;
  for (int i = 0; i < c.nv; i++)
    for (int j = 0; j <= i; j++) {
      Pt m = c.v[i] + c.v[j];
      mids.insert (m);
    }
  for (int i = 0; i < n; i++)
    for (int k = 0; k < ch[i].nv; k++)
      MC_CHECK (mids.count (ch[i].v[k] + ch[i].v[k]), "%s: corner %d of child %d is no corner or midpoint of its parent", AT, k, i);
  mc::checked ("children tile", n * (n + 3) / 2);
  /* the default and the standalone scheme agree on what the children are as point sets */
  if (w.which) {
    const t8_scheme *s0 = Walk::scheme (0);
    t8_element_t *x[2];
    s0->element_new (tc, 2, x);
    if (l <= s0->get_maxlevel (tc)) {
      s0->set_to_root (tc, x[0]);
      for (int i = 0; i < l; i++) {
        s0->element_get_child (tc, x[0], w.path[i], x[1]);
        std::swap (x[0], x[1]);
      }
      Cell d = cell_of (s0, tc, x[0]);
      for (int i = 0; i < d.nv; i++)
        MC_CHECK (d.v[i] == c.v[i], "%s: standalone and default elements of the same path differ", AT);
    }
    s0->element_destroy (tc, 2, x);
  }
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C03";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    EnumBounds b = mc::thorough ()     ? EnumBounds { { 20, 12, 6, 6, 5, 5, 5, 4 }, 3, true }
                   : T8_ENABLE_DEBUG ? EnumBounds { { 8, 6, 4, 4, 3, 3, 3, 3 }, 3, false }
                                     : EnumBounds { { 8, 8, 6, 6, 4, 4, 4, 4 }, 3, false };
    scheme_body (b, visit);
    mc::sample (mc::describe ());
  });
}
