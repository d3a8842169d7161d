/* C02: the linear (space-filling-curve) index is a bijection ordered like the refinement tree. */
#include "scheme_enum.hxx"
typedef unsigned __int128 u128;

/* Reference: the id on level k of the element with this path is the number of level-k elements in the
 * subtrees of all preceding siblings along the path. */
static u128
ref_id (Walk &w, int l, int k)
{
  u128 r = 0;
  for (int i = 0; i < std::min (k, l); i++) {
    if (w.tc != T8_ECLASS_PYRAMID) {
      r += leaves (w.tc, w.tc, k - i - 1) * (unsigned) w.path[i];
      continue;
    }
    for (int c = 0; c < w.path[i]; c++) {
      w.s->element_get_child (w.tc, w.E[i], c, w.T[46]);
      r += leaves (w.tc, (int) w.s->element_get_shape (w.tc, w.T[46]), k - i - 1);
    }
  }
  return r;
}
static int
sgn (long x)
{
  return (x > 0) - (x < 0);
}

static void
visit (Walk &w, int l)
{
  const t8_scheme *s = w.s;
  t8_eclass_t tc = w.tc;
  t8_element_t *e = w.E[l];
  auto &T = w.T;
#define AT w.where (l).c_str ()
  int shape = w.shp[l];
  int kmax = tc == T8_ECLASS_VERTEX ? std::min (w.maxl, 60) : w.maxl;
  for (int k = 0; k <= kmax; k++) {
    /* keep all levels near the interesting ones, and every third of the others */
    if (!mc::thorough () && k > 2 && (k < l - 1 || k > l + 2) && k < kmax - 1 && k % 3)
      continue;
    u128 want = ref_id (w, l, k), total = leaves (tc, tc, k);
    if (total > ((u128) 1 << 64))
      continue;
    t8_linearidx_t id = s->element_get_linear_id (tc, e, k);
    MC_CHECK ((u128) id == want, "%s: linear id at level %d is %llu, expected %llu", AT, k, (unsigned long long) id, (unsigned long long) want);
    s->element_set_linear_id (tc, T[0], k, id);
    if (k <= l)
      MC_CHECK (w.same (T[0], w.E[k]), "%s: element of level %d with id %llu is not the ancestor", AT, k, (unsigned long long) id);
    mc::checked ("linear id", 2);
    if (k < l)
      continue;
    u128 cnt = leaves (tc, shape, k - l);
    s->element_get_first_descendant (tc, e, T[1], k);
    MC_CHECK (s->element_get_level (tc, T[1]) == k, "%s: first descendant has level %d, asked for %d", AT, s->element_get_level (tc, T[1]), k);
    MC_CHECK (w.same (T[0], T[1]), "%s: first descendant at level %d is not the element with its id", AT, k);
    MC_CHECK ((u128) s->element_get_linear_id (tc, T[1], k) == want, "%s: first descendant at level %d has another id", AT, k);
    s->element_get_last_descendant (tc, e, T[2], k);
    MC_CHECK (s->element_get_level (tc, T[2]) == k, "%s: last descendant has level %d, asked for %d", AT, s->element_get_level (tc, T[2]), k);
    u128 last = want + cnt - 1;
    MC_CHECK ((u128) s->element_get_linear_id (tc, T[2], k) == last, "%s: last descendant at level %d has id %llu, expected %llu", AT, k,
              (unsigned long long) s->element_get_linear_id (tc, T[2], k), (unsigned long long) last);
    s->element_set_linear_id (tc, T[3], k, (t8_linearidx_t) last);
    MC_CHECK (w.same (T[2], T[3]), "%s: last descendant at level %d differs from the element with its id", AT, k);
    MC_CHECK (s->element_is_ancestor (tc, e, T[1]) && s->element_is_ancestor (tc, e, T[2]), "%s: extreme descendants of level %d are not descendants", AT, k);
    MC_CHECK (s->element_get_linear_id (tc, T[1], l) == s->element_get_linear_id (tc, e, l), "%s: id of the first descendant on the element's level", AT);
    MC_CHECK (s->element_get_linear_id (tc, T[2], l) == s->element_get_linear_id (tc, e, l), "%s: id of the last descendant on the element's level", AT);
    if (k > l && cnt > 1) {
      MC_CHECK (s->element_compare (tc, T[1], T[2]) < 0 && s->element_compare (tc, T[2], T[1]) > 0, "%s: first descendant of level %d not before the last", AT, k);
      /* walk the curve inside the element where it crosses from one child subtree into the next */
      if (k <= l + 2 || k == kmax) {
        u128 acc = 0;
        int n = w.nch (l);
        for (int c = 0; c + 1 < n; c++) {
          s->element_get_child (tc, e, c, T[5]);
          acc += leaves (tc, (int) s->element_get_shape (tc, T[5]), k - l - 1);
          s->element_get_last_descendant (tc, T[5], T[6], k);
          s->element_construct_successor (tc, T[6], T[7]);
          s->element_get_child (tc, e, c + 1, T[8]);
          s->element_get_first_descendant (tc, T[8], T[9], k);
          MC_CHECK (w.same (T[7], T[9]), "%s: successor of the last level-%d descendant of child %d is not the first one of child %d", AT, k, c, c + 1);
          MC_CHECK ((u128) s->element_get_linear_id (tc, T[7], k) == want + acc, "%s: id of the first level-%d descendant of child %d", AT, k, c + 1);
        }
        mc::checked ("successor across subtrees", n - 1);
      }
    }
    if (cnt < ((u128) 1 << 62)) {
      MC_CHECK ((u128) s->element_count_leaves (tc, e, k) == cnt, "%s: %lld leaves counted at level %d", AT, (long long) s->element_count_leaves (tc, e, k), k);
    }
    if (l == 0 && total < ((u128) 1 << 62))
      MC_CHECK ((u128) s->count_leaves_from_root (tc, k) == total, "%s: leaves from root at level %d", AT, k);
    mc::checked ("descendants/leaf count", 8);
  }
  if (l > 0) {
    MC_CHECK (s->element_count_leaves (tc, e, l - 1) == 0, "%s: leaf count on a coarser level is not 0", AT);
    /* successor on the same level */
    if (leaves (tc, tc, l) <= ((u128) 1 << 64)) {
      int i = l - 1;
      while (i >= 0 && w.path[i] == w.nch (i) - 1)
        i--;
      if (i >= 0) {
        s->element_construct_successor (tc, e, T[0]);
        s->element_get_child (tc, w.E[i], w.path[i] + 1, T[1]);
        s->element_get_first_descendant (tc, T[1], T[2], l);
        MC_CHECK (w.same (T[0], T[2]), "%s: successor is not the next element in depth-first order", AT);
        MC_CHECK (s->element_get_linear_id (tc, T[0], l) == s->element_get_linear_id (tc, e, l) + 1, "%s: successor's id", AT);
        s->element_set_linear_id (tc, T[3], l, s->element_get_linear_id (tc, e, l) + 1);
        MC_CHECK (w.same (T[0], T[3]), "%s: successor is not the element with the next id", AT);
        mc::checked ("successor", 3);
      }
    }
  }
  /* order: an ancestor precedes its descendants, siblings' subtrees are ordered by child id */
  MC_CHECK (s->element_compare (tc, e, e) == 0, "%s: not equal to itself", AT);
  for (int k = 0; k < l; k++) {
    MC_CHECK (s->element_compare (tc, w.E[k], e) < 0 && s->element_compare (tc, e, w.E[k]) > 0, "%s: order with the level-%d ancestor", AT, k);
    if (k > 3 && k < l - 3 && k % 4)
      continue;
    for (int c = 0; c < w.nch (k); c++) {
      if (c == w.path[k])
        continue;
      s->element_get_child (tc, w.E[k], c, T[1]);
      int d = sgn (c - w.path[k]);
      MC_CHECK (sgn (s->element_compare (tc, T[1], e)) == d && sgn (s->element_compare (tc, e, T[1])) == -d, "%s: order with child %d of the level-%d ancestor", AT, c, k);
      for (int ml : { l, std::min (l + 1, kmax), kmax }) {
        if (leaves (tc, tc, ml) > ((u128) 1 << 64))
          continue;
        s->element_get_last_descendant (tc, T[1], T[2], ml);
        MC_CHECK (sgn (s->element_compare (tc, T[2], e)) == d && sgn (s->element_compare (tc, e, T[2])) == -d, "%s: order with the last level-%d descendant of child %d of the level-%d ancestor", AT, ml, c, k);
        s->element_get_first_descendant (tc, T[1], T[2], ml);
        MC_CHECK (sgn (s->element_compare (tc, T[2], e)) == d && sgn (s->element_compare (tc, e, T[2])) == -d, "%s: order with the first level-%d descendant of child %d of the level-%d ancestor", AT, ml, c, k);
      }
      mc::checked ("order", 14);
    }
  }
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C02";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    EnumBounds b = mc::thorough ()     ? EnumBounds { { 20, 12, 6, 6, 5, 5, 5, 4 }, 3, true }
                   : T8_ENABLE_DEBUG ? EnumBounds { { 8, 6, 3, 3, 2, 2, 2, 2 }, 1, false }
                                     : EnumBounds { { 8, 7, 4, 4, 3, 3, 3, 3 }, 1, false };
    scheme_body (b, visit);
    mc::sample (mc::describe ());
  });
}
