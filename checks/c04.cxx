/* C04: face neighbours inside a tree. */
#include "scheme_enum.hxx"

static void
visit (Walk &w, int l)
{
  const t8_scheme *s = w.s;
  t8_eclass_t tc = w.tc;
  t8_element_t *e = w.E[l];
  auto &T = w.T;
#define AT w.where (l).c_str ()
  if (tc == T8_ECLASS_VERTEX)
    return;
  Cell c = cell_of (s, tc, e), root = root_cell (tc);
  for (int f = 0; f < NF[c.shape]; f++) {
    std::vector<Pt> fp = face_points (c, f);
    int tf = -1;
    for (int r = 0; r < NF[tc]; r++)
      if (face_subset (root, r, fp)) {
        MC_CHECK (tf == -1, "%s: face %d in two tree faces", AT, f);
        tf = r;
      }
    bool rb = s->element_is_root_boundary (tc, e, f) != 0;
    MC_CHECK (rb == (tf >= 0), "%s: face %d %s on the tree boundary, the query says %d", AT, f, tf >= 0 ? "lies" : "does not lie", rb);
    if (tf >= 0)
      MC_CHECK (s->element_get_tree_face (tc, e, f) == tf, "%s: tree face of face %d is %d, expected %d", AT, f, s->element_get_tree_face (tc, e, f), tf);
    int nf = -77;
    bool in = s->element_get_face_neighbor_inside (tc, e, T[0], f, &nf) != 0;
    MC_CHECK (in == (tf < 0), "%s: neighbour across face %d: inside=%d", AT, f, in);
    mc::checked ("boundary", 3);
    if (!in)
      continue;
    MC_CHECK (s->element_get_level (tc, T[0]) == l, "%s: neighbour across face %d has another level", AT, f);
    Cell n = cell_of (s, tc, T[0]);
    for (int i = 0; i < n.nv; i++)
      MC_CHECK (inside (root, n.v[i]), "%s: neighbour across face %d sticks out of the tree", AT, f);
    MC_CHECK (nf >= 0 && nf < NF[n.shape], "%s: neighbour across face %d: its face number is %d", AT, f, nf);
    MC_CHECK (sorted (face_points (n, nf)) == sorted (fp), "%s: face %d: face %d of the neighbour %s is not the same face of %s", AT, f, nf, str (n).c_str (), str (c).c_str ());
    MC_CHECK (interiors_disjoint (c, n), "%s: neighbour across face %d overlaps the element", AT, f);
    int bf = -77;
    bool back = s->element_get_face_neighbor_inside (tc, T[0], T[1], nf, &bf) != 0;
    MC_CHECK (back && bf == f && w.same (T[1], e), "%s: neighbour of the neighbour across face %d is not the element", AT, f);
    /* the neighbour is an element of the refinement: it is reached by its own linear id */
    if (tc != T8_ECLASS_PYRAMID || l < 21) {
      s->element_set_linear_id (tc, T[2], l, s->element_get_linear_id (tc, T[0], l));
      MC_CHECK (w.same (T[2], T[0]), "%s: neighbour across face %d is no element of the uniform refinement", AT, f);
    }
    mc::checked ("neighbour", 6);
  }
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C04";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    EnumBounds b = mc::thorough ()     ? EnumBounds { { 20, 12, 7, 7, 5, 5, 5, 5 }, 2, true }
                   : T8_ENABLE_DEBUG ? EnumBounds { { 8, 6, 4, 4, 3, 3, 3, 3 }, 3, false }
                                     : EnumBounds { { 8, 8, 6, 6, 4, 4, 4, 4 }, 3, false };
    scheme_body (b, visit);
    mc::sample (mc::describe ());
  });
}
