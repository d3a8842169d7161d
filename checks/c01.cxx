/* C01: the refinement hierarchy is a consistent tree. */
#include "scheme_enum.hxx"

static void
visit (Walk &w, int l)
{
  const t8_scheme *s = w.s;
  t8_eclass_t tc = w.tc;
  t8_element_t *e = w.E[l];
  auto &T = w.T;
#define AT w.where (l).c_str ()
  int n = w.nch (l);
  int shape = (int) s->element_get_shape (tc, e);
  MC_CHECK (s->element_get_level (tc, e) == l, "%s: level query returns %d", AT, s->element_get_level (tc, e));
  MC_CHECK ((s->element_is_refinable (tc, e) != 0) == (l < w.maxl), "%s: refinable query wrong", AT);
  MC_CHECK (s->element_get_num_corners (tc, e) == NV[shape], "%s: corner count", AT);
  MC_CHECK (s->element_get_num_faces (tc, e) == NF[shape], "%s: face count %d", AT, s->element_get_num_faces (tc, e));
  MC_CHECK (s->element_get_max_num_faces (tc, e) >= NF[shape], "%s: max face count", AT);
  MC_CHECK (s->get_max_num_children (tc) == NCH[tc], "%s: max children", AT);
  if (l > 0) {
    int ns = w.nch (l - 1);
    MC_CHECK (s->element_get_num_siblings (tc, e) == ns, "%s: %d siblings, parent has %d children", AT, s->element_get_num_siblings (tc, e), ns);
    s->element_get_parent (tc, e, T[0]);
    MC_CHECK (w.same (T[0], w.E[l - 1]), "%s: parent is not the element it was refined from", AT);
    MC_CHECK (s->element_get_child_id (tc, e) == w.path[l - 1], "%s: child id %d", AT, s->element_get_child_id (tc, e));
    /* the default line, prism and pyramid and all standalone schemes do not implement the sibling query (they abort) */
    bool has_sibling = !w.which && !(tc == T8_ECLASS_LINE || tc == T8_ECLASS_PRISM || tc == T8_ECLASS_PYRAMID);
    for (int i = 0; has_sibling && i < ns; i++) {
      s->element_get_sibling (tc, e, i, T[0]);
      s->element_get_child (tc, w.E[l - 1], i, T[1]);
      MC_CHECK (w.same (T[0], T[1]), "%s: sibling %d differs from child %d of the parent", AT, i, i);
      /* in place, as documented */
      s->element_copy (tc, e, T[0]);
      s->element_get_sibling (tc, T[0], i, T[0]);
      MC_CHECK (w.same (T[0], T[1]), "%s: sibling %d computed in place differs", AT, i);
    }
    s->element_copy (tc, e, T[0]);
    s->element_get_parent (tc, T[0], T[0]);
    MC_CHECK (w.same (T[0], w.E[l - 1]), "%s: parent computed in place differs", AT);
    mc::checked ("parent/sibling", ns + 2);
  }
  for (int k = 1; k <= l; k++)
    MC_CHECK (s->element_get_ancestor_id (tc, e, k) == w.path[k - 1], "%s: ancestor id at level %d is %d", AT, k, s->element_get_ancestor_id (tc, e, k));
  /* copy */
  s->set_to_root (tc, T[0]);
  MC_CHECK (w.same (T[0], w.E[0]), "%s: set_to_root", AT);
  s->element_copy (tc, e, T[0]);
  MC_CHECK (w.same (T[0], e), "%s: copy differs", AT);
  s->element_copy (tc, T[0], T[0]);
  MC_CHECK (w.same (T[0], e), "%s: copied onto itself differs", AT);
  if (l > 0)
    MC_CHECK (!s->element_is_equal (tc, e, w.E[l - 1]), "%s: equal to its parent", AT);
  /* ancestors and nearest common ancestors */
  for (int k = 0; k <= l; k++) {
    MC_CHECK (s->element_is_ancestor (tc, w.E[k], e), "%s: level-%d ancestor not recognised", AT, k);
    MC_CHECK (k == l || !s->element_is_ancestor (tc, e, w.E[k]), "%s: is called ancestor of its own ancestor", AT);
    s->element_get_nca (tc, e, w.E[k], T[0]);
    MC_CHECK (w.same (T[0], w.E[k]), "%s: nca with level-%d ancestor", AT, k);
    s->element_get_nca (tc, w.E[k], e, T[0]);
    MC_CHECK (w.same (T[0], w.E[k]), "%s: nca of level-%d ancestor with element", AT, k);
    if (k == 0)
      continue;
    if (k > 3 && k < l - 3 && k % 4)
      continue;
    int ns = w.nch (k - 1);
    for (int i = 0; i < ns; i++) {
      if (i == w.path[k - 1])
        continue;
      s->element_get_child (tc, w.E[k - 1], i, T[1]);
      MC_CHECK (!s->element_is_equal (tc, T[1], w.E[k]), "%s: two children of the level-%d ancestor are equal", AT, k - 1);
      MC_CHECK (!s->element_is_ancestor (tc, T[1], e), "%s: sibling %d of the level-%d ancestor is called an ancestor", AT, i, k);
      s->element_get_nca (tc, T[1], e, T[0]);
      MC_CHECK (w.same (T[0], w.E[k - 1]), "%s: nca with sibling %d of the level-%d ancestor", AT, i, k);
      /* descendants of that sibling: on the same level as e, for pyramids through each of its children */
      int first = (tc == T8_ECLASS_PYRAMID && s->element_get_shape (tc, T[1]) == T8_ECLASS_TET) ? 8 : NCH[tc];
      bool all = tc == T8_ECLASS_PYRAMID && l - k <= 2;
      for (int c = 0; c < first; c++) {
        if (!all && k < l && c != (w.path[k] + i) % first)
          continue;
        s->element_get_child (tc, w.E[k - 1], i, T[1]);
        t8_element_t *cur = T[1], *nxt = T[2];
        for (int m = k; m < l; m++) {
          int cn = (tc == T8_ECLASS_PYRAMID && s->element_get_shape (tc, cur) == T8_ECLASS_TET) ? 8 : NCH[tc];
          s->element_get_child (tc, cur, m == k ? c : (w.path[m] + i) % cn, nxt);
          std::swap (cur, nxt);
        }
        if (cur == T[2]) {
          s->element_copy (tc, T[2], T[1]);
        }
        s->element_get_nca (tc, e, T[1], T[0]);
        MC_CHECK (w.same (T[0], w.E[k - 1]), "%s: nca with a descendant of sibling %d of the level-%d ancestor", AT, i, k);
        s->element_get_nca (tc, T[1], e, T[0]);
        MC_CHECK (w.same (T[0], w.E[k - 1]), "%s: nca of a descendant of sibling %d of the level-%d ancestor with it", AT, i, k);
        MC_CHECK (!s->element_is_ancestor (tc, T[1], e) && !s->element_is_equal (tc, T[1], e), "%s: cousin called ancestor or equal", AT);
        if (k == l)
          break;
      }
    }
    mc::checked ("nca/ancestor", ns * 4);
  }
  if (l >= w.maxl)
    return;
  MC_CHECK (s->element_get_num_children (tc, e) == n, "%s: %d children announced, shape has %d", AT, s->element_get_num_children (tc, e), n);
  t8_element_t **ch = &T[4];
  s->element_get_children (tc, e, n, ch);
  for (int i = 0; i < n; i++) {
    s->element_get_child (tc, e, i, T[0]);
    MC_CHECK (w.same (T[0], ch[i]), "%s: child %d differs between the two child queries", AT, i);
    MC_CHECK (s->element_get_level (tc, ch[i]) == l + 1, "%s: child level", AT);
    MC_CHECK (s->element_get_child_id (tc, ch[i]) == i, "%s: child %d has child id %d", AT, i, s->element_get_child_id (tc, ch[i]));
    s->element_get_parent (tc, ch[i], T[0]);
    MC_CHECK (w.same (T[0], e), "%s: parent of child %d", AT, i);
    s->element_copy (tc, e, T[0]);
    s->element_get_child (tc, T[0], i, T[0]);
    MC_CHECK (w.same (T[0], ch[i]), "%s: child %d computed in place differs", AT, i);
    for (int j = 0; j < i; j++)
      MC_CHECK (!s->element_is_equal (tc, ch[i], ch[j]), "%s: children %d and %d are equal", AT, j, i);
  }
  t8_element_t **ip = &T[16];
  s->element_copy (tc, e, ip[0]);
  s->element_get_children (tc, ip[0], n, ip);
  for (int i = 0; i < n; i++)
    MC_CHECK (w.same (ip[i], ch[i]), "%s: child %d differs when the children overwrite the element", AT, i);
  mc::checked ("in place", 2 * n);
  if (n > 1) {
    MC_CHECK (s->elements_are_family (tc, ch), "%s: its children are not recognised as a family", AT);
    /* not families: one member replaced by an element of another level, or of another parent, or duplicated */
    for (int i = 0; i < n; i++) {
      t8_element_t *save = ch[i];
      ch[i] = e;
      /* the first member decides how many members are read: keep a full array */
      if (!(tc == T8_ECLASS_PYRAMID && i == 0))
        MC_CHECK (!s->elements_are_family (tc, ch), "%s: family with member %d replaced by the parent is accepted", AT, i);
      if (l > 0) {
        for (int d = 1; d < w.nch (l - 1); d++) {
          int sib = (w.path[l - 1] + d) % w.nch (l - 1);
          s->element_get_child (tc, w.E[l - 1], sib, T[2]);
          int cn = (tc == T8_ECLASS_PYRAMID && s->element_get_shape (tc, T[2]) == T8_ECLASS_TET) ? 8 : NCH[tc];
          if (i >= cn || cn < n)
            continue;
          s->element_get_child (tc, T[2], i, T[3]);
          ch[i] = T[3];
          if (!(tc == T8_ECLASS_PYRAMID && i == 0))
            MC_CHECK (!s->elements_are_family (tc, ch), "%s: family with member %d taken from another parent is accepted", AT, i);
        }
      }
      if (l + 2 <= w.maxl) {
        int cs = (tc == T8_ECLASS_PYRAMID && s->element_get_shape (tc, save) == T8_ECLASS_TET) ? 8 : NCH[tc];
        for (int d = 0; d < cs; d += cs - 1) {
          s->element_get_child (tc, save, d, T[3]);
          ch[i] = T[3];
          if (!(tc == T8_ECLASS_PYRAMID && i == 0))
            MC_CHECK (!s->elements_are_family (tc, ch), "%s: family with member %d replaced by its child %d is accepted", AT, i, d);
        }
      }
      ch[i] = save;
      t8_element_t *dup = ch[(i + 1) % n];
      save = ch[i];
      ch[i] = dup;
      if (!(tc == T8_ECLASS_PYRAMID && i == 0))
        MC_CHECK (!s->elements_are_family (tc, ch), "%s: family with a duplicated member is accepted", AT);
      ch[i] = save;
    }
    /* not families: the first members of one family, the others of another one */
    for (int d = 1; l > 0 && d < w.nch (l - 1); d++) {
      s->element_get_child (tc, w.E[l - 1], (w.path[l - 1] + d) % w.nch (l - 1), T[2]);
      int cn = (tc == T8_ECLASS_PYRAMID && s->element_get_shape (tc, T[2]) == T8_ECLASS_TET) ? 8 : NCH[tc];
      if (cn != n)
        continue;
      s->element_get_children (tc, T[2], n, ip);
      t8_element_t *mixed[10];
      for (int k = 1; k < n; k++) {
        for (int i = 0; i < n; i++)
          mixed[i] = i < k ? ch[i] : ip[i];
        MC_CHECK (!s->elements_are_family (tc, mixed), "%s: %d members of its family and the others of another one are accepted", AT, k);
      }
      mc::checked ("mixed family", n - 1);
    }
    mc::checked ("family", 5 * n);
  }
  mc::checked ("children", n);
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C01";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    EnumBounds b = mc::thorough () ? EnumBounds { { 20, 12, 6, 6, 5, 5, 5, 4 }, 2, true } : T8_ENABLE_DEBUG ? EnumBounds { { 8, 6, 3, 3, 2, 2, 2, 2 }, 1, false } : EnumBounds { { 8, 7, 4, 4, 3, 3, 3, 3 }, 3, false };
    scheme_body (b, visit);
    mc::sample (mc::describe ());
  });
}
