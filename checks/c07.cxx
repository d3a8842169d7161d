/* C07: adaptation applies exactly the callback's verdicts. */
#include "fx.hxx"
using namespace fx;

struct Call {
  Leaf first;
  int lelement, is_family, num;
};
struct Rank {
  std::vector<Call> log;
  const Model *src;
  std::map<Leaf, int> verdict; /* by first element, default dflt */
  int dflt;
  const Model *target; /* recursive mode */
  std::set<Leaf> removed;
  int forever = 0;
};
static int
family_size_complete (const Model &M, int i, int end)
{
  const Leaf &l = M.L[i];
  if (l.path.empty () || l.path.back () != 0)
    return 0;
  Leaf par = l;
  par.path.pop_back ();
  int ns = M.nd (par).nch;
  for (int z = 0; z < ns; z++) {
    if (i + z >= end)
      return 0;
    Leaf w = par;
    w.path.push_back ((char) z);
    if (M.L[i + z] != w)
      return 0;
  }
  return ns;
}
/* the existing siblings if they are all on this level and all local, and i is the first of them */
static int
family_size_incomplete (const Model &M, int i, int begin, int end)
{
  const Leaf &l = M.L[i];
  if (l.path.empty ())
    return 0;
  Leaf par = l;
  par.path.pop_back ();
  auto r = M.range (par);
  if (r.first != i || r.second > end || r.first < begin)
    return 0;
  for (int k = r.first; k < r.second; k++)
    if (M.L[k].level () != l.level ())
      return 0;
  return r.second - r.first;
}
static void
marker ()
{
}
static int
cb (t8_forest_t forest, t8_forest_t from, t8_locidx_t ltree, const t8_eclass_t tc, t8_locidx_t lel, const t8_scheme_c *s, const int fam, const int num, t8_element_t *el[])
{
  Rank *R = (Rank *) t8_forest_get_user_data (forest);
  MC_CHECK (t8_forest_get_user_function (forest) == (t8_generic_function_pointer) marker, "the callback does not see the user function of the forest");
  Leaf l = leaf_of (from, ltree, tc, s, el[0]);
  R->log.push_back (Call { l, (int) lel, fam, num });
  if (fam) {
    MC_CHECK (num >= 1 && !l.path.empty (), "family of %d elements at %s", num, lstr (l).c_str ());
    for (int i = 1; i < num; i++) {
      Leaf k = leaf_of (from, ltree, tc, s, el[i]);
      MC_CHECK (k.level () == l.level () && k.path.substr (0, k.path.size () - 1) == l.path.substr (0, l.path.size () - 1) && l < k,
                "the family presented at %s contains %s", lstr (l).c_str (), lstr (k).c_str ());
    }
  }
  else
    MC_CHECK (num == 1, "no family but %d elements", num);
  if (R->forever) {
    /* recursive refinement of first children without end */
    for (char c : l.path)
      if (c)
        return 0;
    return 1;
  }
  if (R->target) {
    if (R->removed.count (l))
      return -2;
    if (R->target->covering (l) < 0)
      return 1;
    if (fam) {
      Leaf par = l;
      par.path.pop_back ();
      if (R->target->covering (par) >= 0)
        return -1;
    }
    return 0;
  }
  auto it = R->verdict.find (l);
  int v = it == R->verdict.end () ? R->dflt : it->second;
  if (v == -1 && !fam)
    v = 0;
  return v;
}
static t8_forest_t
adapt (t8_forest_t from, Rank *R, int recursive)
{
  t8_forest_t g;
  t8_forest_init (&g);
  t8_forest_set_user_data (g, R);
  t8_forest_set_user_function (g, (t8_generic_function_pointer) marker);
  t8_forest_set_adapt (g, from, cb, recursive);
  t8_forest_commit (g);
  return g;
}
/* apply verdicts (not recursive) to the leaves of one rank */
static bool any_removed;
static std::vector<Leaf>
apply (const Model &M, int a, int b, bool incomplete, bool first_rank, bool last_rank, Rank &R, std::vector<Call> &calls, int maxlevel, bool *tree_emptied)
{
  std::vector<Leaf> out;
  *tree_emptied = false;
  std::map<int, int> seen, kept;
  int tree_begin = a;
  for (int i = a; i < b;) {
    if (i == a || M.L[i].tree != M.L[i - 1].tree)
      tree_begin = i;
    int tend = i;
    while (tend < b && M.L[tend].tree == M.L[i].tree)
      tend++;
    int fs;
    if (!incomplete)
      fs = family_size_complete (M, i, tend);
    else {
      fs = family_size_incomplete (M, i, tree_begin, tend);
      /* near the process boundary the implementation may decline, see t8_forest_is_incomplete_family */
      const Leaf &l = M.L[i];
      int ns = l.path.empty () ? 1 : M.nd (Leaf { l.tree, l.path.substr (0, l.path.size () - 1) }).nch;
      if (i == a && !first_rank && !l.path.empty () && l.path.back () > 0)
        fs = 0;
      if (tend == b && !last_rank && i - tree_begin > tend - tree_begin - ns)
        fs = 0;
    }
    calls.push_back (Call { M.L[i], i - tree_begin, fs > 0, fs > 0 ? fs : 1 });
    auto it = R.verdict.find (M.L[i]);
    int v = it == R.verdict.end () ? R.dflt : it->second;
    seen[M.L[i].tree]++;
    if (v == -1 && fs == 0)
      v = 0;
    if (v == 1 && M.L[i].level () >= maxlevel)
      v = 0;
    if (v == 1)
      add_children (*M.m, M.L[i], out), i++, kept[out.back ().tree]++;
    else if (v == -1) {
      Leaf p = M.L[i];
      p.path.pop_back ();
      out.push_back (p);
      kept[p.tree]++;
      i += fs;
    }
    else if (v == 0)
      out.push_back (M.L[i]), kept[M.L[i].tree]++, i++;
    else
      i++, any_removed = true;
  }
  for (auto &s : seen)
    if (!kept[s.first])
      *tree_emptied = true;
  return out;
}
/* all ranks: model result and cuts; prunes if a tree would be emptied on a rank (documented as unsupported) */
static Model
apply_all (const Model &M, const Cuts &O, bool incomplete, std::vector<Rank> &R, std::vector<std::vector<Call>> &calls, Cuts &O2, int maxlevel)
{
  Model r;
  r.m = M.m;
  int P = (int) O.size () - 1;
  O2.assign (P + 1, 0);
  calls.assign (P, {});
  any_removed = false;
  for (int p = 0; p < P; p++) {
    bool te;
    auto v = apply (M, O[p], O[p + 1], incomplete, p == 0, p == P - 1, R[p], calls[p], maxlevel, &te);
    if (te)
      mc::prune ();
    r.L.insert (r.L.end (), v.begin (), v.end ());
    O2[p + 1] = (int) r.L.size ();
  }
  return r;
}
static void
check_calls (const std::vector<Call> &got, const std::vector<Call> &want, int rank)
{
  MC_CHECK (got.size () == want.size (), "rank %d: %zu callback calls, expected %zu", rank, got.size (), want.size ());
  for (size_t i = 0; i < got.size (); i++) {
    MC_CHECK (got[i].first == want[i].first, "rank %d: call %zu is for %s, expected %s", rank, i, lstr (got[i].first).c_str (), lstr (want[i].first).c_str ());
    MC_CHECK (got[i].is_family == want[i].is_family && got[i].num == want[i].num, "rank %d: call %zu at %s: family %d of %d, expected %d of %d", rank, i,
              lstr (got[i].first).c_str (), got[i].is_family, got[i].num, want[i].is_family, want[i].num);
    MC_CHECK (got[i].lelement == want[i].lelement, "rank %d: call %zu at %s: element index %d, expected %d", rank, i, lstr (got[i].first).c_str (), got[i].lelement, want[i].lelement);
  }
  mc::checked ("callback calls", got.size ());
}
/* choose up to k leaves with another verdict than the default; each set once */
static void
choose_verdicts (const Model &M, int k, bool removal, std::map<Leaf, int> &v, int &dflt)
{
  static const int D[3] = { 0, 1, -1 };
  dflt = D[mc::choose (3, "default_verdict")];
  std::vector<int> other;
  for (int x : { 0, 1, -1, -2 })
    if (x != dflt && (x != -2 || removal))
      other.push_back (x);
  int last = -1;
  for (int s = 0; s < k; s++) {
    int c = mc::choose ((int) M.size () - last - 1 + 1, "verdict_leaf");
    if (c == 0)
      break;
    last = last + c;
    v[M.L[last]] = other[mc::choose ((int) other.size (), "verdict")];
  }
}

static const std::vector<std::string> meshes
  = { "line", "line3", "quad", "quad2", "tri", "tri2_flip", "tri_quad_tri", "hex", "tet", "prism", "pyramid", "hex_pyra_tet", "sa_quad2", "sa_line2", "tet_prism", "vertex" };

static void
body_single ()
{
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  int maxbase = d == 0 ? 1 : d == 1 ? 2 : 1;
  Model M = choose_model_or_chain (m, 0, maxbase, mc::q (m.cls.size () < 2 && (d < 2 || (d == 2 && !T8_ENABLE_DEBUG)) ? 2 : 1, 2), mc::q (d == 2 ? 2 : 3, 4), m.cls.size () > 1 ? 0 : d == 1 ? 7 : d == 2 ? 4 : 3);
  int P = 1 + mc::choose (mc::q (M.size () > 16 || T8_ENABLE_DEBUG ? 2 : 3, 3), "ranks");
  Cuts O = choose_cuts ((int) M.size (), P, M.size () <= (size_t) mc::q (d == 3 ? 4 : 7, 40));
  std::vector<Rank> R (P);
  choose_verdicts (M, mc::q (M.size () <= (T8_ENABLE_DEBUG ? 5 : 7) ? 2 : 1, 2), true, R[0].verdict, R[0].dflt);
  vmpi::Config cfg = vmpi::choose_config (M.size () > 6 && !mc::thorough () ? 1 : 2);
  for (int p = 0; p < P; p++) {
    R[p].verdict = R[0].verdict;
    R[p].dflt = R[0].dflt;
    R[p].target = nullptr;
  }
  int ml = 99;
  std::vector<std::vector<Call>> want;
  Cuts O2;
  Model M2 = apply_all (M, O, false, R, want, O2, ml);
  bool removed = any_removed;
  /* a second adaptation, then of a forest with holes */
  int second = (removed || mc::thorough ()) ? mc::choose (removed ? 3 : 2, "second") : 0;
  std::vector<Rank> R2 (P);
  std::vector<std::vector<Call>> want2;
  Cuts O3;
  Model M3;
  if (second) {
    for (int p = 0; p < P; p++)
      R2[p].dflt = second == 1 ? -1 : 1, R2[p].target = nullptr;
    M3 = apply_all (M2, O2, removed, R2, want2, O3, ml);
  }
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = build_forest (M, O, rank);
    t8_forest_ref (f);
    t8_forest_t g = adapt (f, &R[rank], 0);
    check_calls (R[rank].log, want[rank], rank);
    check_forest (g, M2, O2, rank, "adapted forest");
    MC_CHECK (g->incomplete_trees == removed, "rank %d: incomplete flag %d", rank, g->incomplete_trees);
    check_forest (f, M, O, rank, "source of the adaptation");
    t8_forest_unref (&f);
    if (second) {
      t8_forest_t h = adapt (g, &R2[rank], 0);
      check_calls (R2[rank].log, want2[rank], rank);
      check_forest (h, M3, O3, rank, "forest adapted twice");
      g = h;
    }
    if (rank == 0)
      mc::state (mc::mix (mc::mix (M.hash (), M2.hash ()), mc::hash_str (cstr (O)) + second));
    t8_forest_unref (&g);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}

/* recursive adaptation of any model to any other */
static void
body_recursive ()
{
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  if (d == 0)
    mc::prune (); /* by design, families of one element are not coarsened repeatedly */
  int mb = d == 0 ? 1 : d == 1 ? 2 : 1;
  int maxl = mc::q (3, d == 3 ? 3 : 4);
  Model S = choose_model (m, 0, mb, mc::q (d == 3 || (m.cls.size () > 1 && d > 1) ? 1 : 2, 2), maxl);
  Model Tg = choose_model (m, 0, mb, mc::q (d == 3 || (m.cls.size () > 1 && d > 1) ? 1 : 2, 2), maxl);
  int P = 1 + mc::choose (mc::q (2, 3), "ranks");
  Cuts O = choose_cuts ((int) S.size (), P, false);
  /* the adaptation alone, or followed by a partition in the same commit */
  int comb = P > 1 && O == even_cuts ((int) S.size (), P) ? mc::choose (2, "combined") : 0;
  int rem = comb ? 0 : mc::choose (2, "remove"); /* remove the first new leaf below each refined one, if any */
  vmpi::Config cfg = vmpi::choose_config (1);
  std::vector<Rank> R (P);
  std::set<Leaf> removed;
  if (rem) {
    for (auto &l : Tg.L)
      if (S.covering (l) >= 0 && S.find (l) < 0) {
        removed.insert (l);
        break;
      }
    if (removed.empty ())
      mc::prune ();
  }
  /* model: refine everything, then coarsen complete local families to the fixed point */
  Model M2;
  M2.m = &m;
  Cuts O2 (P + 1, 0);
  for (int p = 0; p < P; p++) {
    std::vector<Leaf> v;
    for (int i = O[p]; i < O[p + 1]; i++) {
      if (Tg.covering (S.L[i]) >= 0)
        v.push_back (S.L[i]);
      else {
        auto r = Tg.range (S.L[i]);
        for (int k = r.first; k < r.second; k++)
          if (!removed.count (Tg.L[k]))
            v.push_back (Tg.L[k]);
      }
    }
    for (bool again = true; again;) {
      again = false;
      Model X;
      X.m = &m;
      X.L = v;
      for (int i = 0; i < (int) v.size (); i++) {
        int fs = family_size_complete (X, i, (int) v.size ());
        if (!fs)
          continue;
        Leaf par = v[i];
        par.path.pop_back ();
        if (Tg.covering (par) < 0)
          continue;
        v.erase (v.begin () + i + 1, v.begin () + i + fs);
        v[i] = par;
        again = true;
        break;
      }
    }
    M2.L.insert (M2.L.end (), v.begin (), v.end ());
    O2[p + 1] = (int) M2.L.size ();
  }
  for (int p = 0; p < P; p++) {
    R[p].target = &Tg;
    R[p].removed = removed;
    std::set<int> ta, tb;
    for (int i = O[p]; i < O[p + 1]; i++)
      ta.insert (S.L[i].tree);
    for (int i = O2[p]; i < O2[p + 1]; i++)
      tb.insert (M2.L[i].tree);
    if (ta != tb)
      mc::prune ();
  }
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = build_forest (S, O, rank);
    t8_forest_ref (f);
    t8_forest_t g;
    if (comb) {
      t8_forest_init (&g);
      t8_forest_set_user_data (g, &R[rank]);
      t8_forest_set_user_function (g, (t8_generic_function_pointer) marker);
      t8_forest_set_adapt (g, f, cb, 1);
      t8_forest_set_partition (g, nullptr, 0);
      t8_forest_commit (g);
    }
    else
      g = adapt (f, &R[rank], 1);
    check_forest (g, M2, comb ? even_cuts ((int) M2.size (), P) : O2, rank, comb ? "recursively adapted and partitioned forest" : "recursively adapted forest");
    check_forest (f, S, O, rank, "source of the recursive adaptation");
    t8_forest_unref (&f);
    t8_forest_unref (&g);
    if (rank == 0)
      mc::state (mc::mix (mc::mix (S.hash (), Tg.hash ()), mc::hash_str (cstr (O)) + rem));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}

/* refinement stops at the maximum level */
static void
body_maxlevel ()
{
  static const std::vector<std::string> ms = { "line", "quad", "tri", "hex", "tet", "prism", "pyramid", "tri_quad_tri", "hex_pyra_tet", "sa_quad2", "vertex" };
  const Mesh &m = choose_mesh (ms);
  int recursive = mc::choose (2, "recursive");
  std::vector<Rank> R (1);
  R[0].forever = 1;
  R[0].target = nullptr;
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (1, cfg, [&] (int rank) {
    t8_forest_t f = uniform_forest (m, 0);
    int ml = t8_forest_get_maxlevel (f);
    for (int k = 0; k < (recursive ? 1 : ml + 1); k++)
      f = adapt (f, &R[0], recursive);
    Model M;
    M.m = &m;
    for (size_t t = 0; t < m.cls.size (); t++) {
      /* the chain of first children down to the maximum level */
      std::vector<Leaf> v;
      for (int l = ml; l >= 0; l--) {
        Leaf a { (int) t, Path (l, 0) };
        if (l == ml)
          v.push_back (a);
        if (l < ml) {
          std::vector<Leaf> ch;
          add_children (m, a, ch);
          v.insert (v.end (), ch.begin () + 1, ch.end ());
        }
      }
      M.L.insert (M.L.end (), v.begin (), v.end ());
    }
    Cuts O = { 0, (int) M.size () };
    check_forest (f, M, O, rank, "forest refined to the maximum level");
    t8_forest_unref (&f);
    mc::state (mc::mix (M.hash (), recursive));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}

/* adaptation of a forest with holes, distributed in every way */
static void
body_incomplete ()
{
  static const std::vector<std::string> ms = { "line", "line3", "quad", "tri", "quad2", "hex", "pyramid", "sa_quad2", "tet", "prism" };
  const Mesh &m = choose_mesh (ms);
  int d = m.dim ();
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  int recursive = mc::choose (2, "recursive");
  Model S = choose_model (m, 1, d == 1 ? mc::q (3, 4) : d == 2 && m.cls.size () == 1 ? 2 : 1, mc::q (d == 3 || dbg || m.cls.size () > 1 ? 1 : 2, 2), mc::q (3, 4));
  int n = (int) S.size ();
  /* remove one to three leaves */
  std::set<int> holes;
  int k = mc::q (n <= 8 && !dbg ? 3 : n <= 16 && !dbg ? 2 : 1, 3), last = -1;
  for (int i = 0; i < k; i++) {
    int c = mc::choose (n - last - 1 + (i > 0), "hole");
    if (i && !c)
      break;
    last += c + (i == 0);
    holes.insert (last);
  }
  Model H;
  H.m = &m;
  std::map<int, int> left;
  for (int i = 0; i < n; i++)
    if (!holes.count (i)) {
      H.L.push_back (S.L[i]);
      left[S.L[i].tree]++;
    }
  if (left.size () != m.cls.size ())
    mc::prune ();
  int h = (int) H.size ();
  int P = 2 + mc::choose (mc::q (h <= 6 ? 2 : 1, 3), "ranks");
  Cuts O = choose_cuts (h, P, h <= mc::q (6, 20) || P == 2);
  int down = mc::choose (2, "coarsest");
  std::vector<Rank> R0 (P), R (P);
  Model Tg;
  Tg.m = &m;
  for (size_t t = 0; t < m.cls.size (); t++) {
    Leaf root { (int) t, "" };
    if (down)
      Tg.L.push_back (root);
    else
      add_children (m, root, Tg.L);
  }
  for (int p = 0; p < P; p++) {
    R0[p].target = nullptr;
    R0[p].dflt = 0;
    for (int i : holes)
      R0[p].verdict[S.L[i]] = -2;
    R[p].target = recursive ? &Tg : nullptr;
    R[p].dflt = down ? -1 : 1;
  }
  std::vector<std::vector<Call>> want;
  Cuts O2;
  Model M2;
  if (!recursive)
    M2 = apply_all (H, O, true, R, want, O2, 99);
  Cuts one (P + 1, n);
  one[0] = 0;
  std::vector<std::vector<Leaf>> got (P);
  vmpi::Config cfg;
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = build_forest (S, one, rank);
    f = adapt (f, &R0[rank], 0);
    f = repartition (f, O, rank);
    check_forest (f, H, O, rank, "partitioned forest with holes");
    t8_forest_ref (f);
    t8_forest_t g = adapt (f, &R[rank], recursive);
    check_forest (f, H, O, rank, "source of the adaptation");
    if (!recursive) {
      check_calls (R[rank].log, want[rank], rank);
      check_forest (g, M2, O2, rank, "adapted forest with holes");
    }
    got[rank] = local_leaves (g);
    MC_CHECK (g->incomplete_trees == 1, "rank %d: incomplete flag %d", rank, g->incomplete_trees);
    t8_forest_unref (&f);
    t8_forest_unref (&g);
    if (rank == 0)
      mc::state (mc::mix (mc::mix (S.hash (), H.hash ()), mc::hash_str (cstr (O)) + recursive * 2 + down));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  if (!recursive)
    return;
  /* every old leaf is covered by exactly one new leaf, on its own process; new leaves are ordered and contain only
   * existing leaves; nothing is coarser than asked for; no complete local family that may be coarsened is left */
  for (int p = 0; p < P; p++) {
    int i = O[p];
    for (size_t j = 0; j < got[p].size (); j++) {
      auto r = H.range (got[p][j]);
      MC_CHECK (r.first == i && r.second > r.first && r.second <= O[p + 1], "rank %d: the new leaf %s covers the old leaves %d..%d of %s distributed %s, expected to begin with %d", p,
                lstr (got[p][j]).c_str (), r.first, r.second - 1, H.str ().c_str (), cstr (O).c_str (), i);
      MC_CHECK (Tg.covering (got[p][j]) >= 0, "rank %d: the new leaf %s is coarser than asked for", p, lstr (got[p][j]).c_str ());
      i = r.second;
    }
    MC_CHECK (i == O[p + 1], "rank %d: old leaves from %d on are not covered", p, i);
    Model X;
    X.m = &m;
    X.L = got[p];
    for (int j = 0; j < (int) X.size (); j++)
      if (family_size_complete (X, j, (int) X.size ())) {
        Leaf par = X.L[j];
        par.path.pop_back ();
        MC_CHECK (Tg.covering (par) < 0, "rank %d: the complete family below %s is not coarsened: %s from %s distributed %s", p, lstr (par).c_str (), X.str ().c_str (), H.str ().c_str (), cstr (O).c_str ());
      }
    mc::checked ("new leaves", got[p].size ());
  }
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C07";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    switch (mc::choose (4, "part")) {
    case 0:
      body_single ();
      break;
    case 1:
      body_recursive ();
      break;
    case 2:
      body_incomplete ();
      break;
    default:
      body_maxlevel ();
    }
    mc::sample (mc::describe ());
  });
}
