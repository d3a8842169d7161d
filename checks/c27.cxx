/* C27: the C interface of schemes and geometries answers exactly as the C++ interface. */
#include "scheme_enum.hxx"
#include <t8_schemes/t8_scheme.h>
#include <t8_schemes/t8_default/t8_default_c_interface.h>
#include <t8_geometry/t8_geometry.h>
#include <t8_geometry/t8_geometry_base.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_lagrange.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_analytic.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_zero.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_examples.h>
#include <t8_geometry/t8_geometry_with_vertices.h>
#include <t8_cmesh/t8_cmesh.hxx>
#include "cx.hxx"

#define EQ(what, a, b)                                                                                                 \
  do {                                                                                                                 \
    long long a_ = (long long) (a), b_ = (long long) (b);                                                              \
    MC_CHECK (a_ == b_, "%s of %s is %lld in C, %lld in C++", what, w.where (l).c_str (), a_, b_);                     \
    n++;                                                                                                               \
  } while (0)
#define SAME(what, a, b)                                                                                               \
  do {                                                                                                                 \
    MC_CHECK (w.same (a, b), "%s of %s differs between C and C++", what, w.where (l).c_str ());                        \
    n++;                                                                                                               \
  } while (0)

static void
visit (Walk &w, int l)
{
  const t8_scheme *s = w.s;
  const t8_scheme_c *c = s;
  t8_eclass_t tc = w.tc;
  const t8_element_t *e = w.E[l];
  t8_element_t *A = w.T[0], *B = w.T[1];
  int n = 0;
  EQ ("size", t8_element_get_element_size (c, tc), s->get_element_size (tc));
  EQ ("irregular refinement", t8_element_refines_irregular (c, tc), s->refines_irregular (tc));
  EQ ("maximum level", t8_element_get_maxlevel (c, tc), s->get_maxlevel (tc));
  EQ ("maximum number of children", t8_get_max_num_children (c, tc), s->get_max_num_children (tc));
  EQ ("level", t8_element_get_level (c, tc, e), l);
  EQ ("refinable", !!element_is_refinable (c, tc, e), s->element_is_refinable (tc, e));
  EQ ("number of siblings", t8_element_get_num_siblings (c, tc, e), s->element_get_num_siblings (tc, e));
  EQ ("number of corners", t8_element_get_num_corners (c, tc, e), s->element_get_num_corners (tc, e));
  EQ ("number of faces", t8_element_get_num_faces (c, tc, e), s->element_get_num_faces (tc, e));
  EQ ("maximum number of faces", t8_element_get_max_num_faces (c, tc, e), s->element_get_max_num_faces (tc, e));
  EQ ("shape", t8_element_get_shape (c, tc, e), s->element_get_shape (tc, e));
  t8_element_copy (c, tc, e, A);
  SAME ("copy", A, e);
  t8_element_set_to_root (c, tc, A);
  SAME ("root", A, w.E[0]);
  if (l) {
    t8_element_get_parent (c, tc, e, A);
    SAME ("parent", A, w.E[l - 1]);
    EQ ("child id", t8_element_get_child_id (c, tc, e), s->element_get_child_id (tc, e));
    bool has_sibling = !w.which && !(tc == T8_ECLASS_LINE || tc == T8_ECLASS_PRISM || tc == T8_ECLASS_PYRAMID);
    for (int i = 0; has_sibling && i < s->element_get_num_siblings (tc, e); i++) {
      t8_element_get_sibling (c, tc, e, i, A);
      s->element_get_sibling (tc, e, i, B);
      SAME ("sibling", A, B);
    }
  }
  for (int k = 0; k <= l; k++) {
    if (k)
      EQ ("ancestor id", t8_element_get_ancestor_id (c, tc, e, k), s->element_get_ancestor_id (tc, e, k));
    const t8_element_t *a = w.E[k];
    EQ ("comparison with an ancestor", t8_element_compare (c, tc, a, e), s->element_compare (tc, a, e));
    EQ ("comparison of an ancestor", t8_element_compare (c, tc, e, a), s->element_compare (tc, e, a));
    EQ ("equality with an ancestor", !!t8_element_is_equal (c, tc, e, a), k == l);
    t8_element_get_nca (c, tc, e, a, A);
    SAME ("nearest common ancestor with an ancestor", A, a);
  }
  int lim = w.maxl < l + 2 ? w.maxl : l + 2;
  for (int k : { l, lim, w.maxl }) {
    /* the number of leaves on fine levels may not fit */
    if (k > l + 2 && k > 18)
      continue;
    EQ ("number of leaves", t8_element_count_leaves (c, tc, e, k), s->element_count_leaves (tc, e, k));
    EQ ("number of leaves of the root", t8_element_count_leaves_from_root (c, tc, k > 18 ? 18 : k), s->count_leaves_from_root (tc, k > 18 ? 18 : k));
  }
  for (int k : { 0, l / 2, l, lim })
    if (k <= 18) {
      EQ ("linear id", t8_element_get_linear_id (c, tc, e, k), s->element_get_linear_id (tc, e, k));
      if (k == l) {
        t8_element_set_linear_id (c, tc, A, l, s->element_get_linear_id (tc, e, l));
        SAME ("element of a linear id", A, e);
      }
    }
  for (int k : { l, lim, w.maxl })
    for (int last = 0; last < 2; last++) {
      if (last) {
        t8_element_get_last_descendant (c, tc, e, A, k);
        s->element_get_last_descendant (tc, e, B, k);
      }
      else {
        t8_element_get_first_descendant (c, tc, e, A, k);
        s->element_get_first_descendant (tc, e, B, k);
      }
      SAME (last ? "last descendant" : "first descendant", A, B);
    }
  if (l) {
    s->element_get_last_descendant (tc, w.E[0], B, l);
    if (!w.same (B, e)) {
      t8_element_get_successor (c, tc, e, A);
      s->element_construct_successor (tc, e, B);
      SAME ("successor", A, B);
    }
  }
  if (l < w.maxl) {
    int nc = s->element_get_num_children (tc, e);
    EQ ("number of children", t8_element_get_num_children (c, tc, e), nc);
    t8_element_t **C = &w.T[2], **D = &w.T[14];
    t8_element_get_children (c, tc, e, nc, C);
    s->element_get_children (tc, e, nc, D);
    for (int i = 0; i < nc; i++) {
      SAME ("child of the list", C[i], D[i]);
      t8_element_get_child (c, tc, e, i, A);
      SAME ("child", A, D[i]);
      t8_element_get_nca (c, tc, D[0], D[i], A);
      SAME ("nearest common ancestor of children", A, i ? e : D[0]);
      EQ ("comparison of children", t8_element_compare (c, tc, D[0], D[i]), s->element_compare (tc, D[0], D[i]));
    }
    EQ ("family", !!t8_elements_are_family (c, tc, C), 1);
    if (nc > 1) {
      s->element_copy (tc, e, C[nc - 1]);
      EQ ("a child replaced by its parent: family", !!t8_elements_are_family (c, tc, C), s->elements_are_family (tc, C));
    }
  }
  int nf = s->element_get_num_faces (tc, e);
  int ncor = s->element_get_num_corners (tc, e);
  for (int f = 0; f < nf; f++) {
    int fs = (int) s->element_get_face_shape (tc, e, f);
    EQ ("face shape", t8_element_get_face_shape (c, tc, e, f), fs);
    for (int k = 0; k < t8_eclass_num_vertices[fs]; k++)
      EQ ("face corner", t8_element_get_face_corner (c, tc, e, f, k), s->element_get_face_corner (tc, e, f, k));
    bool rb = s->element_is_root_boundary (tc, e, f);
    EQ ("root boundary", !!t8_element_is_root_boundary (c, tc, e, f), rb);
    if (l)
      EQ ("parent face", t8_element_face_get_parent_face (c, tc, e, f), s->element_face_get_parent_face (tc, e, f));
    int nb1 = -7, nb2 = -7;
    int in1 = t8_element_get_face_neighbor_inside (c, tc, e, A, f, &nb1), in2 = s->element_get_face_neighbor_inside (tc, e, B, f, &nb2);
    EQ ("neighbour inside", !!in1, !!in2);
    if (in2) {
      EQ ("dual face", nb1, nb2);
      SAME ("face neighbour", A, B);
    }
    if (rb) {
      int tf = s->element_get_tree_face (tc, e, f);
      EQ ("tree face", t8_element_get_tree_face (c, tc, e, f), tf);
      t8_eclass_t fc = (t8_eclass_t) t8_eclass_face_types[tc][tf];
      t8_element_t *x[3];
      t8_element_new (c, fc, 3, x);
      t8_element_get_boundary_face (c, tc, e, f, x[0]);
      s->element_get_boundary_face (tc, e, f, x[1]);
      EQ ("boundary element", !!t8_element_is_equal (c, fc, x[0], x[1]), 1);
      EQ ("face of the extruded element", t8_element_extrude_face (c, tc, x[0], A, tf), s->element_extrude_face (tc, x[0], B, tf));
      SAME ("extruded element", A, B);
      if (fc != T8_ECLASS_VERTEX)
        for (int o = 0; o < t8_eclass_num_vertices[fc]; o++)
          for (int sg = 0; sg < 2; sg++)
            for (int sm = 0; sm < 2; sm++) {
              t8_element_transform_face (c, fc, x[0], x[1], o, sg, sm);
              s->element_transform_face (fc, x[0], x[2], o, sg, sm);
              EQ ("transformed boundary element", !!s->element_is_equal (fc, x[1], x[2]), 1);
            }
      t8_element_destroy (c, fc, 3, x);
    }
    if (l < w.maxl) {
      int nfc = s->element_get_num_face_children (tc, e, f);
      EQ ("number of face children", t8_element_get_num_face_children (c, tc, e, f), nfc);
      int i1[8], i2[8];
      t8_element_get_children_at_face (c, tc, e, f, &w.T[2], nfc, i1);
      s->element_get_children_at_face (tc, e, f, &w.T[14], nfc, i2);
      for (int k = 0; k < nfc; k++) {
        EQ ("index of a child at a face", i1[k], i2[k]);
        SAME ("child at a face", w.T[2 + k], w.T[14 + k]);
        EQ ("face of a child at a face", t8_element_face_get_child_face (c, tc, e, f, k), s->element_face_get_child_face (tc, e, f, k));
      }
    }
    for (int k : { l, lim, w.maxl })
      for (int last = 0; last < 2; last++) {
        if (last) {
          t8_element_get_last_descendant_face (c, tc, e, f, A, k);
          s->element_get_last_descendant_face (tc, e, f, B, k);
        }
        else {
          t8_element_get_first_descendant_face (c, tc, e, f, A, k);
          s->element_get_first_descendant_face (tc, e, f, B, k);
        }
        SAME (last ? "last descendant at a face" : "first descendant at a face", A, B);
      }
  }
  if (!w.which && tc != T8_ECLASS_TET && tc != T8_ECLASS_PYRAMID && tc != T8_ECLASS_PRISM)
    for (int i = 0; i < ncor; i++)
      for (int k = 0; k < (int) t8_eclass_to_dimension[tc]; k++)
        EQ ("face at a corner", t8_element_get_corner_face (c, tc, e, i, k), s->element_get_corner_face (tc, e, i, k));
  for (int k = 0; k < ncor; k++) {
    double x[3] = { -1, -1, -1 }, y[3] = { -1, -1, -1 };
    t8_element_get_vertex_reference_coords (c, tc, e, k, x);
    s->element_get_vertex_reference_coords (tc, e, k, y);
    for (int d = 0; d < 3; d++)
      EQ ("vertex coordinate", x[d] == y[d], 1);
  }
  int dim = t8_eclass_to_dimension[tc];
  if (dim) {
    double in[6] = { 0.25, 0.125, 0.0625, 0.5, 0.375, 0.3125 }, x[6], y[6];
    double pt[6];
    int edim = dim;
    for (int i = 0; i < 2; i++)
      for (int d = 0; d < edim; d++)
        pt[i * edim + d] = in[i * 3 + d];
    for (int i = 0; i < 6; i++)
      x[i] = y[i] = -1;
    t8_element_get_reference_coords (c, tc, e, pt, 2, x);
    s->element_get_reference_coords (tc, e, pt, 2, y);
    for (int i = 0; i < 6; i++)
      EQ ("reference coordinate", x[i] == y[i], 1);
  }
  if (l <= 3) {
    /* transport as bytes: both interfaces produce the same bytes and undo each other */
    char b1[512], b2[512];
    memset (b1, 1, sizeof b1);
    memset (b2, 1, sizeof b2);
    t8_element_t *two[2] = { w.E[l], w.E[0] }, *back[2] = { A, B };
    int sz1 = -1, sz2 = -2, p1 = 0, p2 = 0;
    t8_element_MPI_Pack_size (c, tc, 2, sc_MPI_COMM_SELF, &sz1);
    s->element_MPI_Pack_size (tc, 2, sc_MPI_COMM_SELF, &sz2);
    EQ ("pack size", sz1, sz2);
    MC_CHECK (sz1 > 0 && sz1 <= 512, "pack size %d", sz1);
    t8_element_MPI_Pack (c, tc, two, 2, b1, sz1, &p1, sc_MPI_COMM_SELF);
    s->element_MPI_Pack (tc, two, 2, b2, sz2, &p2, sc_MPI_COMM_SELF);
    EQ ("packed bytes", p1, p2);
    EQ ("packed bytes", memcmp (b1, b2, p1), 0);
    int q = 0;
    t8_element_MPI_Unpack (c, tc, b2, p2, &q, back, 2, sc_MPI_COMM_SELF);
    EQ ("unpacked bytes", q, p2);
    SAME ("unpacked element", A, e);
    SAME ("second unpacked element", B, w.E[0]);
    /* life cycle: created, and initialized in memory of the caller */
    t8_element_t *x[3];
    t8_element_new (c, tc, 3, x);
    for (int i = 0; i < 3; i++)
      s->element_copy (tc, e, x[i]);
    SAME ("created element", x[2], e);
    t8_element_destroy (c, tc, 3, x);
    size_t sz = s->get_element_size (tc);
    std::vector<long double> mem ((3 * sz) / sizeof (long double) + 2);
    t8_element_t *arr = (t8_element_t *) mem.data ();
    t8_element_init (c, tc, 3, arr);
    for (int i = 0; i < 3; i++) {
      t8_element_t *y = (t8_element_t *) ((char *) arr + i * sz);
      s->element_copy (tc, e, y);
      SAME ("initialized element", y, e);
    }
    t8_element_deinit (c, tc, 3, arr);
    char s1[BUFSIZ], s2[BUFSIZ];
    memset (s1, 0, sizeof s1);
    memset (s2, 0, sizeof s2);
    t8_element_to_string (c, tc, e, s1, BUFSIZ);
    s->element_to_string (tc, e, s2, BUFSIZ);
    MC_CHECK (!strcmp (s1, s2), "text of %s is \"%s\" in C, \"%s\" in C++", w.where (l).c_str (), s1, s2);
#if T8_ENABLE_DEBUG
    EQ ("validity", !!t8_element_is_valid (c, tc, e), s->element_is_valid (tc, e));
#endif
  }
  mc::checked ("C call equals C++ call", n);
}

/* reference counting of schemes in C */
static void
refs ()
{
  int k = 1 + mc::choose (4, "references");
  int style = mc::choose (2, "creator");
  t8_scheme_c *c = style ? (t8_scheme_c *) t8_scheme_new_default () : (t8_scheme_c *) t8_scheme_new_default ();
  for (int i = 1; i < k; i++)
    t8_scheme_ref (c);
  t8_scheme_c *keep = c;
  for (int i = 0; i < k; i++) {
    MC_CHECK (c == keep, "the scheme pointer is lost after %d of %d releases", i, k);
    MC_CHECK (t8_element_get_maxlevel (c, T8_ECLASS_LINE) == keep->get_maxlevel (T8_ECLASS_LINE), "the scheme is gone early");
    t8_scheme_unref (&c);
  }
  MC_CHECK (c == nullptr, "the scheme pointer survives the last release");
  mc::checked ("scheme references", k + 1);
}

/* geometries made and released in C are the ones named and evaluate as registered */
static void
fn (t8_cmesh_t, t8_gloidx_t, const double *r, const size_t n, double *out, const void *, const void *)
{
  for (size_t i = 0; i < n; i++)
    for (int d = 0; d < 3; d++)
      out[3 * i + d] = d < 2 ? 2 * r[2 * i + d] + d : 5;
}
static void
fnj (t8_cmesh_t, t8_gloidx_t, const double *, const size_t n, double *out, const void *, const void *)
{
  for (size_t i = 0; i < 6 * n; i++)
    out[i] = (double) i;
}
static int loads;
static void
fnl (t8_cmesh_t, t8_gloidx_t, const void **)
{
  loads++;
}
static int
fnv ()
{
  return 1;
}
static int
fnc ()
{
  return 1;
}
static void
geoms ()
{
  static const struct { const char *name; t8_geometry_type_t type; } K[] = {
    { "linear", T8_GEOMETRY_TYPE_LINEAR }, { "linear axis aligned", T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED },
    { "Lagrange", T8_GEOMETRY_TYPE_LAGRANGE }, { "zero", T8_GEOMETRY_TYPE_ZERO }, { "analytic", T8_GEOMETRY_TYPE_ANALYTIC },
    { "disk", T8_GEOMETRY_TYPE_UNDEFINED }, { "triangulated sphere", T8_GEOMETRY_TYPE_UNDEFINED }, { "tessellated sphere", T8_GEOMETRY_TYPE_UNDEFINED },
    { "cubed shell", T8_GEOMETRY_TYPE_UNDEFINED }, { "prismed shell", T8_GEOMETRY_TYPE_UNDEFINED }, { "cubed sphere", T8_GEOMETRY_TYPE_UNDEFINED } };
  int k = mc::choose (11, "geometry");
  t8_geometry_c *g = nullptr;
  loads = 0;
  switch (k) {
  case 0: g = t8_geometry_linear_new (); break;
  case 1: g = t8_geometry_linear_axis_aligned_new (); break;
  case 2: g = t8_geometry_lagrange_new (); break;
  case 3: g = t8_geometry_zero_new (); break;
  case 4: g = t8_geometry_analytic_new ("mine", fn, fnj, fnl, fnv, fnc, nullptr); break;
  case 5: g = t8_geometry_quadrangulated_disk_new (); break;
  case 6: g = t8_geometry_triangulated_spherical_surface_new (); break;
  case 7: g = t8_geometry_tessellated_spherical_surface_new (); break;
  case 8: g = t8_geometry_cubed_spherical_shell_new (); break;
  case 9: g = t8_geometry_prismed_spherical_shell_new (); break;
  case 10: g = t8_geometry_cubed_sphere_new (); break;
  }
  MC_CHECK (g != nullptr, "no %s geometry", K[k].name);
  MC_CHECK (g->t8_geom_get_type () == K[k].type, "type of the %s geometry is %d", K[k].name, (int) g->t8_geom_get_type ());
  if (k == 4) {
    MC_CHECK (g->t8_geom_get_name () == "mine", "name of the analytic geometry");
    double in[4] = { 0.5, 0.25, 1, 0 }, out[6], j[12];
    g->t8_geom_evaluate (nullptr, 0, in, 2, out);
    double want[6] = { 1, 1.5, 5, 2, 1, 5 };
    for (int i = 0; i < 6; i++)
      MC_CHECK (out[i] == want[i], "analytic geometry: coordinate %d is %g", i, out[i]);
    g->t8_geom_evaluate_jacobian (nullptr, 0, in, 2, j);
    for (int i = 0; i < 12; i++)
      MC_CHECK (j[i] == i, "analytic geometry: entry %d of the Jacobian is %g", i, j[i]);
    MC_CHECK (g->t8_geom_tree_negative_volume () && g->t8_geom_check_tree_compatibility (), "analytic geometry: verdicts of the given functions");
    g->t8_geom_load_tree_data (nullptr, 0);
    MC_CHECK (loads > 0, "analytic geometry: the given function does not load the tree data");
  }
  switch (k) {
  case 0: t8_geometry_linear_destroy (&g); break;
  case 1: t8_geometry_linear_axis_aligned_destroy (&g); break;
  case 2: t8_geometry_lagrange_destroy (&g); break;
  case 3: t8_geometry_zero_destroy (&g); break;
  case 4: t8_geometry_analytic_destroy (&g); break;
  default: t8_geometry_destroy (&g);
  }
  MC_CHECK (g == nullptr, "the %s geometry survives its release", K[k].name);
  mc::checked ("geometry life cycle", 3);
}
static void
body ()
{
  switch (mc::choose (3, "part")) {
  case 0: refs (); break;
  case 1: geoms (); break;
  default: {
    EnumBounds b = { { 0, mc::q (5, 8), mc::q (3, 5), mc::q (3, 5), mc::q (2, 3), mc::q (2, 3), mc::q (2, 3), mc::q (2, 3) }, mc::q (1, 3), false };
    scheme_body (b, visit);
  }
  }
}
int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C27";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    body ();
    mc::sample (mc::describe ());
  });
}
