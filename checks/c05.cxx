/* C05, first part: the face hierarchy inside a tree (children at a face, parent and ancestor faces, face
 * descendants, boundary faces and extrusion). */
#include "scheme_enum.hxx"
typedef unsigned __int128 u128;

static bool
same_cell (const Cell &a, const Cell &b)
{
  if (a.shape != b.shape)
    return false;
  for (int i = 0; i < a.nv; i++)
    if (a.v[i] != b.v[i])
      return false;
  return true;
}

static void
visit (Walk &w, int l)
{
  const t8_scheme *s = w.s;
  t8_eclass_t tc = w.tc;
  t8_element_t *e = w.E[l];
  auto &T = w.T;
#define AT w.where (l).c_str ()
  if (tc == T8_ECLASS_VERTEX)
    return;
  Cell c = cell_of (s, tc, e), root = root_cell (tc);
  /* the element as an element of a tree face: every transform is undone by the transform seen from the other
   * side, and is the same when the element is overwritten */
  if (tc == T8_ECLASS_LINE || tc == T8_ECLASS_QUAD || (tc == T8_ECLASS_TRIANGLE && !w.which)) {
    for (int o = 0; o < NV[tc]; o++)
      for (int sign = 0; sign < 2; sign++)
        for (int smaller = 0; smaller < 2; smaller++) {
          s->element_transform_face (tc, e, T[0], o, sign, smaller);
          s->element_copy (tc, e, T[1]);
          s->element_transform_face (tc, T[1], T[1], o, sign, smaller);
          MC_CHECK (w.same (T[0], T[1]), "%s: transform (orientation %d, sign %d, smaller %d) in place differs", AT, o, sign, smaller);
          MC_CHECK (s->element_get_level (tc, T[0]) == l, "%s: transform changes the level", AT);
          s->element_transform_face (tc, T[0], T[2], o, sign, !smaller);
          MC_CHECK (w.same (T[2], e), "%s: transform (orientation %d, sign %d, smaller %d) is not undone from the other side", AT, o, sign, smaller);
        }
    mc::checked ("transform", 8 * NV[tc]);
  }
  std::vector<Cell> anc;
  for (int k = 0; k < l; k++)
    anc.push_back (cell_of (s, tc, w.E[k]));
  for (int f = 0; f < NF[c.shape]; f++) {
    std::vector<Pt> fp = face_points (c, f);
    /* parent and ancestor faces */
    for (int k = 0; k <= l; k++) {
      const Cell &a = k == l ? c : anc[k];
      int want = -1;
      for (int g = 0; g < NF[a.shape]; g++)
        if (face_subset (a, g, fp))
          want = g;
      if (k == l)
        want = f;
      int got = s->element_face_get_ancestor_face (tc, e, k, f);
      MC_CHECK (got == want, "%s: face %d in the level-%d ancestor is face %d, the query says %d", AT, f, k, want, got);
      if (k == l - 1) {
        got = s->element_face_get_parent_face (tc, e, f);
        MC_CHECK (got == want, "%s: face %d in the parent is face %d, the query says %d", AT, f, want, got);
      }
    }
    if (l == 0)
      MC_CHECK (s->element_face_get_parent_face (tc, e, f) == f, "%s: parent face of the root face %d", AT, f);
    mc::checked ("ancestor face", l + 2);
    /* children at the face */
    if (l < w.maxl) {
      int n = w.nch (l);
      std::vector<int> want_id, want_face;
      for (int i = 0; i < n; i++) {
        s->element_get_child (tc, e, i, T[0]);
        Cell ch = cell_of (s, tc, T[0]);
        for (int g = 0; g < NF[ch.shape]; g++)
          if (face_subset (c, f, face_points (ch, g))) {
            want_id.push_back (i);
            want_face.push_back (g);
          }
      }
      int m = s->element_get_num_face_children (tc, e, f);
      MC_CHECK (m == (int) want_id.size (), "%s: face %d has %d children, the query says %d", AT, f, (int) want_id.size (), m);
      t8_element_t **ch = &T[4];
      int idx[10];
      for (int pass = 0; pass < 2; pass++) {
        s->element_get_children_at_face (tc, e, f, ch, m, pass ? idx : NULL);
        for (int i = 0; i < m; i++) {
          s->element_get_child (tc, e, want_id[i], T[0]);
          MC_CHECK (w.same (T[0], ch[i]), "%s: child %d at face %d is not child %d of the element", AT, i, f, want_id[i]);
          if (pass)
            MC_CHECK (idx[i] == want_id[i], "%s: index of child %d at face %d is %d, expected %d", AT, i, f, idx[i], want_id[i]);
        }
      }
      s->element_copy (tc, e, ch[0]);
      s->element_get_children_at_face (tc, ch[0], f, ch, m, NULL);
      for (int i = 0; i < m; i++) {
        s->element_get_child (tc, e, want_id[i], T[0]);
        MC_CHECK (w.same (T[0], ch[i]), "%s: child %d at face %d differs when the children overwrite the element", AT, i, f);
      }
      for (int i = 0; i < m; i++)
        MC_CHECK (s->element_face_get_child_face (tc, e, f, i) == want_face[i], "%s: face %d of child %d at face %d expected, the query says %d", AT, want_face[i], i, f,
                  s->element_face_get_child_face (tc, e, f, i));
      mc::checked ("children at face", 3 * m);
    }
    /* first and last descendant at the face, by walking the extreme face children */
    t8_element_t *first = T[20], *last = T[21];
    s->element_copy (tc, e, first);
    s->element_copy (tc, e, last);
    int ff = f, lf = f;
    int kmax = std::min (w.maxl, 60);
    for (int k = l; k <= kmax; k++) {
      if (k > l) {
        for (int pass = 0; pass < 2; pass++) {
          t8_element_t *&cur = pass ? last : first;
          int &cf = pass ? lf : ff;
          Cell cc = cell_of (s, tc, cur);
          int n = (tc == T8_ECLASS_PYRAMID && cc.shape == T8_ECLASS_TET) ? 8 : NCH[tc];
          bool found = false;
          for (int q = 0; q < n && !found; q++) {
            int i = pass ? n - 1 - q : q;
            s->element_get_child (tc, cur, i, T[22]);
            Cell ch = cell_of (s, tc, T[22]);
            for (int g = 0; g < NF[ch.shape] && !found; g++)
              if (face_subset (cc, cf, face_points (ch, g))) {
                found = true;
                cf = g;
                s->element_copy (tc, T[22], T[23]);
              }
          }
          MC_CHECK (found, "%s: no child at face %d on level %d", AT, f, k);
          s->element_copy (tc, T[23], cur);
        }
      }
      if (k > l + 3 && k < kmax - 1 && k % 5)
        continue;
      s->element_get_first_descendant_face (tc, e, f, T[24], k);
      MC_CHECK (s->element_get_level (tc, T[24]) == k && w.same (T[24], first), "%s: first level-%d descendant at face %d: got %s, expected %s", AT, k, f, str (cell_of (s, tc, T[24])).c_str (),
                str (cell_of (s, tc, first)).c_str ());
      s->element_get_last_descendant_face (tc, e, f, T[24], k);
      MC_CHECK (s->element_get_level (tc, T[24]) == k && w.same (T[24], last), "%s: last level-%d descendant at face %d: got %s, expected %s", AT, k, f, str (cell_of (s, tc, T[24])).c_str (),
                str (cell_of (s, tc, last)).c_str ());
      mc::checked ("face descendants", 2);
    }
    /* boundary face and extrusion, on the tree boundary */
    int tf = -1;
    for (int r = 0; r < NF[tc]; r++)
      if (face_subset (root, r, fp))
        tf = r;
    if (tf < 0 || (w.which && tc != T8_ECLASS_LINE && false))
      continue;
    t8_eclass_t fc = (t8_eclass_t) FTYPE[tc][tf];
    if (l > s->get_maxlevel (fc))
      continue;
    t8_element_t *b;
    s->element_new (fc, 1, &b);
    s->element_get_boundary_face (tc, e, f, b);
    MC_CHECK (s->element_get_level (fc, b) == l, "%s: boundary element of face %d has level %d", AT, f, s->element_get_level (fc, b));
    Cell bc = cell_of (s, fc, b);
    /* embed the face class' unit cell into the tree face by its corners */
    Pt o = root.v[FV[tc][tf][0]], d1, d2;
    if (fc == T8_ECLASS_LINE || fc == T8_ECLASS_QUAD || fc == T8_ECLASS_TRIANGLE)
      d1 = root.v[FV[tc][tf][1]] - o;
    if (fc == T8_ECLASS_QUAD)
      d2 = root.v[FV[tc][tf][2]] - o;
    if (fc == T8_ECLASS_TRIANGLE)
      d2 = root.v[FV[tc][tf][2]] - root.v[FV[tc][tf][1]];
    std::vector<Pt> im;
    for (int i = 0; i < bc.nv; i++) {
      Pt p;
      for (int d = 0; d < 3; d++)
        p.x[d] = o.x[d] + (d1.x[d] / ONE) * bc.v[i].x[0] + (d2.x[d] / ONE) * bc.v[i].x[1];
      im.push_back (p);
    }
    MC_CHECK (sorted (im) == sorted (fp), "%s: boundary element of face %d lies elsewhere: %s", AT, f, str (bc).c_str ());
    int ef = s->element_extrude_face (tc, b, T[0], tf);
    MC_CHECK (same_cell (cell_of (s, tc, T[0]), c) && w.same (T[0], e), "%s: extruding the boundary element of face %d gives another element", AT, f);
    MC_CHECK (ef == f, "%s: extruding the boundary element of face %d returns face %d", AT, f, ef);
    s->element_destroy (fc, 1, &b);
    mc::checked ("boundary/extrude", 4);
  }
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C05";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    EnumBounds b = mc::thorough ()     ? EnumBounds { { 20, 12, 6, 6, 5, 5, 5, 4 }, 3, true }
                   : T8_ENABLE_DEBUG ? EnumBounds { { 8, 6, 3, 3, 3, 3, 3, 3 }, 1, false }
                                     : EnumBounds { { 8, 7, 5, 5, 4, 4, 4, 4 }, 1, false };
    scheme_body (b, visit);
    mc::sample (mc::describe ());
  });
}
