/* Enumeration of elements of every scheme: all elements down to a level, and all elements down to the
 * maximum level whose path from the root deviates at most twice from a constant (or alternating) path. */
#ifndef SCHEME_ENUM_HXX
#define SCHEME_ENUM_HXX
#include "hx/hx.hxx"
using namespace hx;

struct Walk {
  const t8_scheme *s;
  t8_eclass_t tc;
  int maxl;
  int which;                       /* 0 default, 1 standalone */
  std::vector<t8_element_t *> E;   /* E[l]: the element on level l of the current path */
  std::vector<int> path;           /* path[l]: child id of E[l+1] in E[l] */
  std::vector<t8_element_t *> T;   /* scratch elements */
  std::vector<int> shp;            /* shape of E[l] */
  t8_linearidx_t lid = 0;          /* running values kept by some visitors */
  Walk (int w, int eclass, const t8_scheme *own = nullptr) : which (w)
  {
    tc = (t8_eclass_t) eclass;
    s = own ? own : scheme (w);
    maxl = s->get_maxlevel (tc);
    E.resize (maxl + 2);
    T.resize (48);
    shp.resize (maxl + 2);
    path.resize (maxl + 2);
    s->element_new (tc, (int) E.size (), E.data ());
    s->element_new (tc, (int) T.size (), T.data ());
    s->set_to_root (tc, E[0]);
    shp[0] = (int) s->element_get_shape (tc, E[0]);
  }
  ~Walk ()
  {
    s->element_destroy (tc, (int) E.size (), E.data ());
    s->element_destroy (tc, (int) T.size (), T.data ());
  }
  static const t8_scheme *
  scheme (int w)
  {
    static const t8_scheme *sc[2] = { nullptr, nullptr };
    if (!sc[w])
      sc[w] = w ? t8_scheme_new_standalone () : t8_scheme_new_default ();
    return sc[w];
  }
  int nch (int l) const { return (tc == T8_ECLASS_PYRAMID && shp[l] == T8_ECLASS_TET) ? 8 : NCH[tc]; }
  void
  down (int l, int c)
  {
    s->element_get_child (tc, E[l], c, E[l + 1]);
    path[l] = c;
    shp[l + 1] = (int) s->element_get_shape (tc, E[l + 1]);
    mc::transition ();
  }
  std::string
  where (int l) const
  {
    std::string r = which ? "standalone " : "default ";
    r += ENAME[tc];
    r += " level " + std::to_string (l) + " path";
    for (int i = 0; i < l; i++)
      r += "." + std::to_string (path[i]);
    return r;
  }
  uint64_t
  hash (int l) const
  {
    uint64_t h = which * 16 + (int) tc;
    for (int i = 0; i < l; i++)
      h = mc::mix (h, path[i] + 1);
    return mc::mix (h, l);
  }
  bool same (const t8_element_t *a, const t8_element_t *b) const
  {
    if (!s->element_is_equal (tc, a, b))
      return false;
    if (s->element_get_level (tc, a) != s->element_get_level (tc, b))
      return false;
    Cell x = cell_of (s, tc, a), y = cell_of (s, tc, b);
    if (x.shape != y.shape)
      return false;
    for (int i = 0; i < x.nv; i++)
      if (x.v[i] != y.v[i])
        return false;
    return true;
  }
};
typedef void (*Visitor) (Walk &, int level);

struct EnumBounds {
  /* per class: full enumeration down to this level */
  int full[8];
  int deep_devs;      /* 1: one deviation from the base path; 2: two anywhere; 3: two, the second within two levels of
                       * the first or of the maximum level */
  bool alternating;   /* also alternating base paths (with one deviation) */
};

static void
full_rec (Walk &w, int l, int L, Visitor v)
{
  v (w, l);
  mc::state (w.hash (l));
  if (l >= L || l >= w.maxl)
    return;
  int n = w.nch (l);
  for (int c = 0; c < n; c++) {
    w.down (l, c);
    full_rec (w, l + 1, L, v);
  }
}

static void
scheme_body (const EnumBounds &B, Visitor visit)
{
  static const int combos[12][2] = { { 0, 0 }, { 0, 1 }, { 0, 2 }, { 0, 3 }, { 0, 4 }, { 0, 5 }, { 0, 6 }, { 0, 7 },
                                     { 1, 0 }, { 1, 1 }, { 1, 2 }, { 1, 4 } };
  int cb = mc::choose (12, "scheme_class");
  Walk w (combos[cb][0], combos[cb][1]);
  int mode = mc::choose (B.alternating ? 3 : 2, "mode");
  int n0 = NCH[w.tc];
  if (mode == 0) {
    int L = std::min (B.full[w.tc], w.maxl);
    int c0 = mc::choose (n0, "child0");
    if (c0 == 0)
      visit (w, 0), mc::state (w.hash (0));
    if (L < 1)
      return;
    w.down (0, c0);
    int c1 = mc::choose (w.nch (1), "child1");
    if (c1 == 0)
      visit (w, 1), mc::state (w.hash (1));
    if (L < 2)
      return;
    w.down (1, c1);
    full_rec (w, 2, L, visit);
    return;
  }
  int M = std::min (w.maxl, 60);
  int base = mc::choose (n0, "base");
  int base2 = mode == 2 ? mc::choose (n0, "base2") : base;
  if (mode == 2 && base2 == base)
    mc::prune ();
  auto b = [&] (int l) {
    int c = (l & 1) ? base2 : base;
    return c % w.nch (l);
  };
  int p1 = mc::choose (M + 1, "dev_pos"); /* M: no deviation */
  int a1 = 0;
  if (p1 < M && n0 > 1)
    a1 = 1 + mc::choose (n0 - 1, "dev_child");
  else if (p1 < M)
    mc::prune ();
  for (int l = 0; l < p1; l++)
    w.down (l, b (l));
  if (p1 < M) {
    if (a1 >= w.nch (p1))
      mc::prune ();
    w.down (p1, (b (p1) + a1) % w.nch (p1));
  }
  int from = p1 < M ? p1 + 1 : 0;
  /* the path without a second deviation */
  for (int l = from; l < M; l++)
    w.down (l, b (l));
  for (int l = from; l <= M; l++) {
    visit (w, l);
    mc::state (w.hash (l));
  }
  if (B.deep_devs < 2 || p1 == M || mode == 2)
    return;
  for (int p2 = from; p2 < M; p2++) {
    if (B.deep_devs == 3 && p2 > from + 1 && p2 < M - 2)
      continue;
    /* restore the prefix up to p2 */
    for (int l = from; l < p2; l++)
      w.down (l, b (l));
    int nn = w.nch (p2);
    for (int a2 = 1; a2 < nn; a2++) {
      w.down (p2, (b (p2) + a2) % nn);
      for (int l = p2 + 1; l < M; l++)
        w.down (l, b (l));
      /* judge the first elements after the deviation and the deepest ones */
      for (int l = p2 + 1; l <= M; l++)
        if (l <= p2 + 3 || l >= M - 1) {
          visit (w, l);
          mc::state (w.hash (l));
        }
    }
  }
}
#endif
