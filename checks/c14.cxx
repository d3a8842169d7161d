/* C14: searches, face iteration and replace iteration visit exactly what they promise. */
#include "fx.hxx"
#include <t8_forest/t8_forest_iterate.h>
#include <t8_forest/t8_forest_search/t8_forest_search.hxx>
#include <t8_forest/t8_forest_search/t8_forest_search.h>
#include <t8_data/t8_containers.h>
using namespace fx;

/* ------------------------------------------------------------------------------------------------ events */
struct Ev {
  Leaf e;
  int leaf;             /* is_leaf */
  int first, count;     /* tree-local index of the first leaf, number of leaves */
  int kind;             /* 0: element callback, 1: query callback, 2: face callback */
  int face;
  std::vector<int> q;   /* the queries that are asked */
  bool
  operator== (const Ev &o) const
  {
    return e == o.e && leaf == o.leaf && first == o.first && count == o.count && kind == o.kind && face == o.face && q == o.q;
  }
  bool
  operator< (const Ev &o) const
  {
    return std::tie (e.tree, e.path, leaf, first, count, kind, face, q) < std::tie (o.e.tree, o.e.path, o.leaf, o.first, o.count, o.kind, o.face, o.q);
  }
};
static std::string
estr (const Ev &v)
{
  char b[96];
  snprintf (b, sizeof b, "%s %s leaf=%d first=%d count=%d face=%d q=", v.kind == 1 ? "query" : "element", lstr (v.e).c_str (), v.leaf, v.first, v.count, v.face);
  std::string r = b;
  for (int x : v.q)
    r += std::to_string (x);
  return r;
}
/* verdicts: which nodes the element callback rejects, at which node each query is dropped */
struct Verdict {
  std::set<Leaf> reject;
  std::set<Leaf> drop[3];
};
struct Run {
  const Verdict *v;
  std::vector<Ev> log;
  const void *expect_user; /* user pointer the callbacks must get */
  std::vector<int> *queries;
  bool all_at_leaf = false;
};
static Run *cur[16];
static int cur_rank;
/* what the callbacks are given is checked here against the forest itself */
static Ev
record (t8_forest_t f, t8_locidx_t lt, const t8_element_t *e, int leaf, const t8_element_array_t *arr, t8_locidx_t first, int kind, int face)
{
  const t8_scheme *s = t8_forest_get_scheme (f);
  t8_locidx_t nl = t8_forest_get_num_local_trees (f);
  t8_eclass_t tc = t8_forest_get_tree_class (f, lt);
  Ev v;
  v.e = Leaf { (int) t8_forest_global_tree_id (f, lt), path_of (s, tc, e) };
  v.leaf = leaf ? 1 : 0;
  v.first = first;
  v.count = (int) t8_element_array_get_count (arr);
  v.kind = kind;
  v.face = face;
  t8_element_array_t *all = lt < nl ? t8_forest_tree_get_leaf_elements (f, lt) : t8_forest_ghost_get_tree_leaf_elements (f, lt - nl);
  for (int i = 0; i < v.count; i++) {
    MC_CHECK (first >= 0 && first + i < (int) t8_element_array_get_count (all), "%s: leaf index beyond the tree", estr (v).c_str ());
    const t8_element_t *x = t8_element_array_index_locidx (arr, i), *y = t8_element_array_index_locidx (all, first + i);
    MC_CHECK (s->element_is_equal (tc, x, y), "%s: leaf %d of the callback is not leaf %d of the tree", estr (v).c_str (), i, first + i);
  }
  return v;
}
static bool
keeps (const Run &r, int q, const Leaf &e)
{
  return !r.v->drop[q].count (e);
}
/* C interface */
static int
c_search (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *arr, const t8_locidx_t first)
{
  Run *r = cur[cur_rank];
  Ev v = record (f, lt, e, leaf, arr, first, 0, -1);
  r->log.push_back (v);
  MC_CHECK (t8_forest_get_user_data (f) == r->expect_user, "user data of the forest changed");
  return !r->v->reject.count (v.e);
}
static void
c_query (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *arr, const t8_locidx_t first,
         sc_array_t *queries, sc_array_t *idx, int *match, const size_t nact)
{
  Run *r = cur[cur_rank];
  Ev v = record (f, lt, e, leaf, arr, first, 1, -1);
  MC_CHECK (queries->elem_count == r->queries->size () && queries->array == (char *) r->queries->data (), "wrong queries");
  MC_CHECK (idx->elem_count == nact, "%zu query indices, %zu active queries", idx->elem_count, nact);
  for (size_t i = 0; i < nact; i++) {
    size_t q = *(size_t *) sc_array_index (idx, i);
    MC_CHECK (q < r->queries->size (), "query index %zu", q);
    v.q.push_back ((int) q);
    if (!leaf)
      match[i] = keeps (*r, (int) q, v.e) ? (i % 2 ? 1 : -7) : 0; /* any nonzero value means a match */
  }
  r->log.push_back (v);
}
/* the C wrappers of the search objects */
static int
w_search (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *arr, const t8_locidx_t first, void *u)
{
  Run *r = cur[cur_rank];
  MC_CHECK (u == r->expect_user, "the element callback of the C search object gets other user data than were set");
  Ev v = record (f, lt, e, leaf, arr, first, 0, -1);
  r->log.push_back (v);
  return r->v->reject.count (v.e) ? 0 : 4; /* any nonzero value means yes */
}
static int
w_query (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *arr, const t8_locidx_t first, void *query, void *u)
{
  Run *r = cur[cur_rank];
  MC_CHECK (u == r->expect_user, "the query callback of the C search object gets other user data than were set");
  Ev v = record (f, lt, e, leaf, arr, first, 1, -1);
  int q = -1;
  for (int i = 0; i < (int) r->queries->size (); i++)
    if (query == &(*r->queries)[i])
      q = i;
  MC_CHECK (q >= 0, "%s: not a query that was set", estr (v).c_str ());
  v.q = { q };
  r->log.push_back (v);
  return keeps (*r, q, v.e) ? 2 : 0;
}
static void
w_batch (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *arr, const t8_locidx_t first, const void *queries,
         const size_t *active, int *match, void *u)
{
  Run *r = cur[cur_rank];
  MC_CHECK (u == r->expect_user, "the query callback of the C search object gets other user data than were set");
  Ev v = record (f, lt, e, leaf, arr, first, 1, -1);
  void *const *qs = (void *const *) queries;
  for (int i = 0; i < (int) r->queries->size (); i++)
    MC_CHECK (qs[i] == &(*r->queries)[i], "%s: query %d is not the one that was set", estr (v).c_str (), i);
  /* the callback is not told how many queries are active: only patterns are used in which the active ones come first and
   * in which their number follows from the element */
  for (int i = 0; i < (int) r->queries->size (); i++) {
    bool act = true;
    for (size_t k = 0; k < v.e.path.size (); k++)
      act = act && keeps (*r, i, Leaf { v.e.tree, v.e.path.substr (0, k) });
    if (!act)
      break;
    MC_CHECK (active[i] == (size_t) i, "%s: active query %d is %zu", estr (v).c_str (), i, active[i]);
    v.q.push_back (i);
    match[i] = keeps (*r, i, v.e) ? 3 : 0;
  }
  r->log.push_back (v);
}
static int
face_cb (const t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int face, const int leaf, const t8_element_array_t *arr, const t8_locidx_t first, void *u)
{
  Run *r = (Run *) u;
  Ev v = record (f, lt, e, leaf, arr, first, 2, face);
  r->log.push_back (v);
  return !r->v->reject.count (v.e);
}

/* ------------------------------------------------------------------------------------------------ expectations */
struct Tree {
  int gid, ltree;
  std::vector<Path> leaves; /* of this process (or this ghost tree) */
};
static std::pair<int, int>
below (const Tree &t, const Path &p)
{
  int a = (int) (std::lower_bound (t.leaves.begin (), t.leaves.end (), p) - t.leaves.begin ()), b = a;
  while (b < (int) t.leaves.size () && is_prefix (p, t.leaves[b]))
    b++;
  return { a, b };
}
static void
expect_search (const Mesh &m, const Tree &t, const Path &p, const Verdict &v, bool queries, int mode, const std::vector<int> &active, std::vector<Ev> &out)
{
  auto r = below (t, p);
  if (r.first == r.second || (queries && active.empty ()))
    return;
  Ev e;
  e.e = Leaf { t.gid, p };
  e.leaf = r.second - r.first == 1 && t.leaves[r.first] == p;
  e.first = r.first;
  e.count = r.second - r.first;
  e.kind = 0;
  e.face = -1;
  out.push_back (e);
  if (v.reject.count (e.e))
    return;
  std::vector<int> na;
  if (queries) {
    Ev q = e;
    q.kind = 1;
    if (mode == 1) /* one call per query */
      for (int x : active) {
        q.q = { x };
        out.push_back (q);
      }
    else {
      q.q = active;
      out.push_back (q);
    }
    for (int x : active)
      if (!v.drop[x].count (e.e))
        na.push_back (x);
  }
  if (e.leaf)
    return;
  int n = node (m.which, m.cls[t.gid], p).nch;
  for (int c = 0; c < n; c++)
    expect_search (m, t, p + std::string (1, (char) c), v, queries, mode, na, out);
}
static void
expect_faces (const Mesh &m, const Tree &t, const Path &p, int face, const Verdict &v, std::vector<Ev> &out)
{
  auto r = below (t, p);
  if (r.first == r.second)
    return;
  Ev e;
  e.e = Leaf { t.gid, p };
  e.leaf = r.second - r.first == 1 && t.leaves[r.first] == p;
  e.first = r.first;
  e.count = r.second - r.first;
  e.kind = 2;
  e.face = face;
  out.push_back (e);
  if (v.reject.count (e.e) || e.leaf)
    return;
  int n = node (m.which, m.cls[t.gid], p).nch;
  for (int c = 0; c < n; c++) {
    Path q = p + std::string (1, (char) c);
    const Node &ch = node (m.which, m.cls[t.gid], q);
    for (int f = 0; f < NF[ch.c.shape]; f++)
      if (ch.pf[f] == face)
        expect_faces (m, t, q, f, v, out);
  }
}
static void
compare (const std::vector<Ev> &got, const std::vector<Ev> &want, const char *what, const std::string &ctx)
{
  for (size_t i = 0; i < got.size () || i < want.size (); i++) {
    MC_CHECK (i < got.size (), "%s: call %zu is missing: %s, %s", what, i, estr (want[i]).c_str (), ctx.c_str ());
    MC_CHECK (i < want.size (), "%s: call %zu is too many: %s, %s", what, i, estr (got[i]).c_str (), ctx.c_str ());
    MC_CHECK (got[i] == want[i], "%s: call %zu is %s, expected %s, %s", what, i, estr (got[i]).c_str (), estr (want[i]).c_str (), ctx.c_str ());
  }
  mc::checked (what, want.size () + 1);
}
static std::vector<Tree>
trees_of (t8_forest_t f, bool ghosts)
{
  std::vector<Tree> r;
  const t8_scheme *s = t8_forest_get_scheme (f);
  t8_locidx_t nl = t8_forest_get_num_local_trees (f), ng = ghosts ? t8_forest_get_num_ghost_trees (f) : 0;
  for (t8_locidx_t t = 0; t < nl + ng; t++) {
    Tree x;
    x.gid = (int) t8_forest_global_tree_id (f, t);
    x.ltree = t;
    t8_eclass_t tc = t8_forest_get_tree_class (f, t);
    t8_element_array_t *a = t < nl ? t8_forest_tree_get_leaf_elements (f, t) : t8_forest_ghost_get_tree_leaf_elements (f, t - nl);
    for (size_t i = 0; i < t8_element_array_get_count (a); i++)
      x.leaves.push_back (path_of (s, tc, t8_element_array_index_locidx (a, i)));
    r.push_back (x);
  }
  return r;
}
static Path
common (const Tree &t)
{
  Path p = t.leaves.front (), q = t.leaves.back ();
  size_t i = 0;
  while (i < p.size () && i < q.size () && p[i] == q[i])
    i++;
  return p.substr (0, i);
}
/* all elements that contain leaves, from the common ancestor (or the root) down to the leaves */
static std::vector<Leaf>
nodes_of (const Tree &t, bool root)
{
  std::set<Path> s;
  size_t top = root ? 0 : common (t).size ();
  for (auto &l : t.leaves)
    for (size_t k = top; k <= l.size (); k++)
      s.insert (l.substr (0, k));
  std::vector<Leaf> r;
  for (auto &p : s)
    r.push_back (Leaf { t.gid, p });
  return r;
}

/* ------------------------------------------------------------------------------------------------ one search */
enum { C_PLAIN, C_QUERY, CXX_PLAIN, CXX_QUERY, CXX_BATCH, W_PLAIN, W_QUERY, W_BATCH, NAPI };
static const char *api_name[] = { "t8_forest_search", "t8_forest_search with queries", "t8_search", "t8_search_with_queries", "t8_search_with_batched_queries", "t8_forest_init_search",
                                  "t8_forest_init_search_with_queries", "t8_forest_init_search_with_batched_queries" };
/* overwrite the dead part of the stack */
static void __attribute__ ((noinline))
scribble ()
{
  volatile unsigned char dead[4096];
  for (int i = 0; i < 4096; i++)
    dead[i] = 0x5a;
}
static t8_forest_t other_forest[16];
static int
refs (t8_forest_t f)
{
  return f == nullptr ? 0 : f->rc.refcount;
}
static void
one_search (t8_forest_t f, const Mesh &m, int rank, const std::vector<Tree> &T, const Verdict &v, int api, int nq, const std::string &ctx)
{
  std::vector<int> queries (nq), all;
  for (int i = 0; i < nq; i++) {
    queries[i] = 100 + i;
    all.push_back (i);
  }
  Run r;
  r.v = &v;
  r.queries = &queries;
  int token = 0;
  r.expect_user = t8_forest_get_user_data (f);
  bool withq = api == C_QUERY || api == CXX_QUERY || api == CXX_BATCH || api == W_QUERY || api == W_BATCH;
  std::vector<Ev> want;
  for (auto &t : T)
    expect_search (m, t, common (t), v, withq, api == CXX_QUERY || api == W_QUERY, all, want);
  cur[rank] = &r;
  cur_rank = rank;
  /* none of the searches communicates, so that no other process runs in between */
  auto elem = [&] (const t8_forest_t g, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *arr, const t8_locidx_t first, int *u) {
    MC_CHECK (g == f && u == r.expect_user, "%s: wrong forest or user data", api_name[api]);
    Ev x = record (g, lt, e, leaf, arr, first, 0, -1);
    r.log.push_back (x);
    return !v.reject.count (x.e);
  };
  switch (api) {
  case C_PLAIN:
    t8_forest_search (f, c_search, NULL, NULL);
    break;
  case C_QUERY: {
    sc_array_t arr;
    sc_array_init_data (&arr, queries.data (), sizeof (int), queries.size ());
    t8_forest_search (f, c_search, c_query, &arr);
    break;
  }
  case CXX_PLAIN: {
    /* with and without user data; without, the callback gets none: the object lies in memory that is not zero */
    bool user = v.reject.size () % 2;
    alignas (t8_search<int>) unsigned char mem[sizeof (t8_search<int>)];
    memset (mem, 0xa5, sizeof mem);
    r.expect_user = user ? &token : nullptr;
    /* set up for this forest, or for another one or none that is replaced */
    t8_forest_t g = v.reject.size () < 2 ? f : v.reject.size () % 4 < 2 ? other_forest[rank] : nullptr;
    int rf = refs (f), rg = refs (g);
    t8_search<int> *s = user ? new (mem) t8_search<int> (elem, g, &token) : new (mem) t8_search<int> (elem, g);
    if (g != f)
      s->update_forest (f);
    s->do_search ();
    s->~t8_search<int> ();
    MC_CHECK (refs (f) == rf && refs (g) == rg, "t8_search: %d references of the forest before and %d after, %d and %d of the forest set first", rf, refs (f), rg, refs (g));
    break;
  }
  case CXX_QUERY: {
    /* queries given at once, or set afterwards in place of others */
    const bool later = v.drop[0].size () % 2 || (v.reject.empty () && v.drop[1].empty ());
    std::vector<int> others (v.drop[1].empty () ? 3 : 1, 77);
    auto qf = [&] (const t8_forest_t g, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *arr, const t8_locidx_t first,
                   const int &q, int *u) {
      MC_CHECK (g == f && u == &token, "%s: wrong forest or user data", api_name[api]);
      Ev x = record (g, lt, e, leaf, arr, first, 1, -1);
      MC_CHECK (q >= 100 && q < 100 + nq && (later || &q == &queries[q - 100]), "wrong query %d", q);
      x.q = { q - 100 };
      r.log.push_back (x);
      return keeps (r, q - 100, x.e);
    };
    r.expect_user = &token;
    t8_search_with_queries<int, int> s (elem, qf, later ? others : queries);
    s.update_forest (f);
    s.update_user_data (&token);
    if (later)
      s.update_queries (queries);
    MC_CHECK ((int) queries.size () == nq && std::all_of (queries.begin (), queries.end (), [&] (int &q) { return q == 100 + (int) (&q - queries.data ()); }), "setting the queries changed them");
    s.do_search ();
    std::vector<Ev> once = r.log;
    r.log.clear ();
    s.do_search (); /* a search object can be used again */
    compare (r.log, once, "repeated search", ctx);
    break;
  }
  case CXX_BATCH: {
    const bool later = v.drop[1].size () % 2 || (v.reject.empty () && v.drop[0].empty ());
    std::vector<int> others (v.drop[0].empty () ? 3 : 1, 77);
    auto qf = [&] (const t8_forest_t g, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *arr, const t8_locidx_t first,
                   const std::vector<int> &qs, const std::vector<size_t> &act, std::vector<bool> &match, int *u) {
      MC_CHECK (g == f && u == &token && (later ? qs == queries : &qs == &queries), "%s: wrong forest, queries or user data", api_name[api]);
      Ev x = record (g, lt, e, leaf, arr, first, 1, -1);
      MC_CHECK (match.size () == queries.size (), "size of the matches");
      for (size_t q : act) {
        MC_CHECK (q < queries.size (), "query index %zu", q);
        x.q.push_back ((int) q);
        match[q] = keeps (r, (int) q, x.e);
      }
      /* an answer for a query that is not active must not count */
      for (size_t q = 0; q < queries.size (); q++)
        if (std::find (act.begin (), act.end (), q) == act.end ())
          match[q] = true;
      r.log.push_back (x);
    };
    r.expect_user = &token;
    t8_search_with_batched_queries<int, int> s (elem, qf, later ? others : queries, f, &token);
    if (later)
      s.update_queries (queries);
    s.do_search ();
    std::vector<Ev> once = r.log;
    r.log.clear ();
    s.do_search ();
    compare (r.log, once, "repeated search", ctx);
    break;
  }
  case W_PLAIN:
  case W_QUERY:
  case W_BATCH: {
    /* the contexts are opaque: the memory for them is more than any of them needs */
    alignas (16) unsigned char mem[256];
    memset (mem, 0xa5, sizeof mem);
    std::vector<void *> first (nq + 1, &token), qs (nq + 1);
    for (int i = 0; i < nq; i++)
      qs[i] = &queries[i];
    r.expect_user = &token;
    scribble ();
    if (api == W_PLAIN) {
      auto s = (t8_forest_search_c_wrapper) mem;
      t8_forest_init_search (s, w_search, f);
      t8_forest_search_update_user_data (s, &token);
      t8_forest_search_update_forest (s, f);
      scribble ();
      t8_forest_search_do_search (s);
      t8_forest_search_destroy (s);
    }
    else if (api == W_QUERY) {
      auto s = (t8_forest_search_with_queries_c_wrapper) mem;
      /* queries given at once, or set afterwards */
      bool later = v.drop[0].size () % 2;
      t8_forest_init_search_with_queries (s, w_search, w_query, later ? first.data () : qs.data (), nq, f);
      t8_forest_search_with_queries_update_user_data (s, &token);
      t8_forest_search_with_queries_update_forest (s, f);
      if (later)
        t8_forest_search_with_queries_update_queries (s, qs.data (), nq);
      std::fill (qs.begin (), qs.end (), nullptr);
      scribble ();
      t8_forest_search_with_queries_do_search (s);
      t8_forest_search_with_queries_destroy (s);
    }
    else {
      auto s = (t8_forest_search_with_batched_queries_c_wrapper) mem;
      bool later = v.drop[1].size () % 2;
      t8_forest_init_search_with_batched_queries (s, w_search, w_batch, later ? first.data () : qs.data (), nq, f);
      t8_forest_search_with_batched_queries_update_user_data (s, &token);
      t8_forest_search_with_batched_queries_update_forest (s, f);
      if (later)
        t8_forest_search_with_batched_queries_update_queries (s, qs.data (), nq);
      std::fill (qs.begin (), qs.end (), nullptr);
      scribble ();
      t8_forest_search_with_batched_queries_do_search (s);
      t8_forest_search_with_batched_queries_destroy (s);
    }
    break;
  }
  }
  compare (r.log, want, api_name[api], ctx);
}
static void
all_searches (t8_forest_t f, const Mesh &m, int rank, const std::string &ctx)
{
  std::vector<Tree> T = trees_of (f, false);
  std::vector<Leaf> N;
  for (auto &t : T) {
    auto x = nodes_of (t, false);
    N.insert (N.end (), x.begin (), x.end ());
  }
  int n = (int) N.size ();
  Verdict none;
  t8_forest_init (&other_forest[rank]);
  t8_forest_ref (f);
  t8_forest_set_copy (other_forest[rank], f);
  t8_forest_commit (other_forest[rank]);
  for (int api = 0; api < NAPI; api++) {
    one_search (f, m, rank, T, none, api, 2, ctx);
    if (api == C_QUERY || api == CXX_QUERY || api == CXX_BATCH || api >= W_QUERY)
      one_search (f, m, rank, T, none, api, 0, ctx);
  }
  /* every set of rejected nodes of small trees, every pair of larger ones */
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  if (n <= mc::q (dbg ? 5 : 7, 10)) {
    for (int set = 1; set < (1 << n); set++) {
      Verdict v;
      for (int i = 0; i < n; i++)
        if (set >> i & 1)
          v.reject.insert (N[i]);
      one_search (f, m, rank, T, v, set % 3 == 2 ? W_PLAIN : set % 3 ? C_PLAIN : CXX_PLAIN, 0, ctx);
    }
  }
  else
    for (int i = 0; i < n; i++)
      for (int j = mc::thorough () ? 0 : i; j < (mc::thorough () ? n : i + 1); j++) {
        Verdict v;
        v.reject = { N[i], N[j] };
        one_search (f, m, rank, T, v, C_PLAIN, 0, ctx);
        one_search (f, m, rank, T, v, CXX_PLAIN, 0, ctx);
        one_search (f, m, rank, T, v, W_PLAIN, 0, ctx);
      }
  /* up to two of: one rejected node, one node at which query 0 (1) is dropped; at most three in thorough */
  for (int a = 0; a <= n; a++)
    for (int b = 0; b <= n; b++)
      for (int c = 0; c <= n; c++) {
        if ((a > 0) + (b > 0) + (c > 0) > (n <= mc::q (dbg ? 3 : 5, 12) ? 3 : 2))
          continue;
        if (!mc::thorough () && n > (dbg ? 6 : 9) && (a > 0) + (b > 0) + (c > 0) > 1 && !(b == c && !a) && !(a && c && b == 0 && (a + c) % 8 == 0))
          continue;
        if (!b && !c)
          continue;
        Verdict v;
        if (a)
          v.reject.insert (N[a - 1]);
        if (b)
          v.drop[0].insert (N[b - 1]);
        if (c)
          v.drop[1].insert (N[c - 1]);
        int w = (a + b + c) % 3;
        if ((!a || !b || !c) && (n <= 4 || (a + 3 * b + 5 * c) % 7 == 0)) {
          one_search (f, m, rank, T, v, W_QUERY, 2, ctx);
          if (!b)
            one_search (f, m, rank, T, v, W_BATCH, 2, ctx);
        }
        if (mc::thorough () || n <= 10)
          for (int api : { C_QUERY, CXX_QUERY, CXX_BATCH })
            one_search (f, m, rank, T, v, api, 2, ctx);
        else
          one_search (f, m, rank, T, v, w == 0 ? C_QUERY : w == 1 ? CXX_QUERY : CXX_BATCH, 2, ctx);
      }
  t8_forest_unref (&other_forest[rank]);
}
static void
all_face_iterations (t8_forest_t f, const Mesh &m, const std::string &ctx)
{
  const t8_scheme *s = t8_forest_get_scheme (f);
  std::vector<Tree> T = trees_of (f, true);
  t8_locidx_t nl = t8_forest_get_num_local_trees (f);
  for (auto &t : T) {
    t8_eclass_t tc = (t8_eclass_t) m.cls[t.gid];
    t8_element_array_t *all = t.ltree < nl ? t8_forest_tree_get_leaf_elements (f, t.ltree) : t8_forest_ghost_get_tree_leaf_elements (f, t.ltree - nl);
    for (auto &nd : nodes_of (t, true)) {
      auto r = below (t, nd.path);
      t8_element_t *e = make_element (s, tc, nd.path);
      const Node &x = node (m.which, m.cls[t.gid], nd.path);
      /* split array */
      if (t.leaves[r.first] != nd.path) {
        std::vector<size_t> off (x.nch + 1, 77);
        t8_element_array_t view;
        t8_element_array_init_view (&view, all, r.first, r.second - r.first);
        t8_forest_split_array (e, &view, off.data ());
        for (int c = 0; c < x.nch; c++) {
          int w = 0;
          for (int i = r.first; i < r.second; i++)
            w += t.leaves[i][nd.path.size ()] < c;
          MC_CHECK ((int) off[c] == w, "split array of %s: offset %d is %zu, expected %d, %s", lstr (nd).c_str (), c, off[c], w, ctx.c_str ());
        }
        MC_CHECK ((int) off[x.nch] == r.second - r.first, "split array of %s: last offset %zu, %s", lstr (nd).c_str (), off[x.nch], ctx.c_str ());
        mc::checked ("split array", x.nch + 1);
      }
      for (int fc = 0; fc < NF[x.c.shape]; fc++) {
        std::vector<Leaf> rej = { Leaf { -1, "" } };
        std::vector<Ev> full;
        for (int k = 0; k < (int) rej.size (); k++) {
          Verdict v;
          v.reject = { rej[k] };
          t8_element_array_t view;
          t8_element_array_init_view (&view, all, r.first, r.second - r.first);
          Run run;
          run.v = &v;
          std::vector<Ev> want, got;
          expect_faces (m, t, nd.path, fc, v, want);
          t8_forest_iterate_faces (f, t.ltree, e, fc, &view, r.first, face_cb, &run);
          got = run.log;
          /* an element is visited before its descendants */
          for (size_t i = 0; i < got.size (); i++)
            for (size_t j = i + 1; j < got.size (); j++)
              MC_CHECK (!is_prefix (got[j].e.path, got[i].e.path), "%s visited before %s, %s", lstr (got[i].e).c_str (), lstr (got[j].e).c_str (), ctx.c_str ());
          std::sort (got.begin (), got.end ());
          std::sort (want.begin (), want.end ());
          compare (got, want, "t8_forest_iterate_faces", ctx);
          if (k == 0)
            for (auto &w : want)
              if (!w.leaf && rej.size () < 8)
                rej.push_back (w.e);
        }
      }
      s->element_destroy (tc, 1, &e);
    }
  }
}
static const std::vector<std::string> meshes = { "line", "line3", "quad", "tri", "hex", "tet", "prism", "pyramid", "quad2", "tri_quad_tri", "hex_pyra_tet", "tet_prism", "sa_quad2", "sa_hex2", "sa_line2", "vertex", "pyra2_tri", "disconnected" };
/* forests of every shape: searches and face iteration */
static Model
with_holes (const Model &S, int k)
{
  Model H;
  H.m = S.m;
  int n = (int) S.size (), last = -1;
  std::set<int> holes;
  for (int i = 0; i < k; i++) {
    int c = mc::choose (n - last - 1 + (i > 0), "hole");
    if (i && !c)
      break;
    last += c + (i == 0);
    holes.insert (last);
  }
  std::set<int> trees;
  for (int i = 0; i < n; i++)
    if (!holes.count (i)) {
      H.L.push_back (S.L[i]);
      trees.insert (S.L[i].tree);
    }
  if (trees.size () != S.m->cls.size ())
    mc::prune ();
  return H;
}
static int
remove_outside (t8_forest_t forest, t8_forest_t from, t8_locidx_t lt, const t8_eclass_t tc, t8_locidx_t, const t8_scheme_c *s, const int, const int, t8_element_t *el[])
{
  AdaptCtx *c = (AdaptCtx *) t8_forest_get_user_data (forest);
  return c->target->find (leaf_of (from, lt, tc, s, el[0])) < 0 ? -2 : 0;
}
/* the forest with leaves H (part of the complete model S) distributed by o */
static t8_forest_t
build_holes (const Model &S, const Model &H, const Cuts &o, int rank)
{
  int P = (int) o.size () - 1;
  Cuts one (P + 1, (int) S.size ());
  one[0] = 0;
  t8_forest_t f = build_forest (S, one, rank), g;
  AdaptCtx c { &H };
  t8_forest_init (&g);
  t8_forest_set_adapt (g, f, remove_outside, 0);
  t8_forest_set_user_data (g, &c);
  t8_forest_commit (g);
  t8_forest_set_user_data (g, nullptr);
  return repartition (g, o, rank);
}
static void
body_search (bool holes)
{
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  const Mesh &m = choose_mesh (meshes);
  int d = m.dim ();
  if (holes && d == 0)
    mc::prune ();
  int k = d <= 1 ? mc::q (dbg ? 1 : m.cls.size () > 1 ? 2 : 3, 4) : d == 2 ? mc::q (dbg || m.cls.size () > 1 ? 1 : 2, 3) : mc::q (1, 2);
  Model S = choose_model_or_chain (m, holes ? 1 : 0, d == 0 ? 1 : d == 1 ? (m.cls.size () > 1 ? mc::q (1, 2) : 2) : d == 2 && m.cls.size () == 1 && !(holes && !mc::thorough ()) ? 2 : 1, holes ? std::min (k, 1) : k, d == 1 ? 4 : 3, holes || (m.cls.size () > 1 && d > 1) ? 0 : d == 1 ? 7 : d == 2 ? 5 : 3);
  Model M = holes ? with_holes (S, mc::q (d == 3 || dbg ? 1 : 2, 3)) : S;
  int n = (int) M.size ();
  int P = 1 + mc::choose (mc::q (d == 3 && dbg ? 1 : 2, 3), "ranks");
  Cuts O = choose_cuts (n, P, n <= mc::q (dbg ? 4 : 7, 12));
  int ghost = !holes && P > 1 && d > 0;
  vmpi::Config cfg;
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = holes ? build_holes (S, M, O, rank) : build_forest (M, O, rank);
    if (ghost) {
      t8_forest_t g;
      t8_forest_init (&g);
      t8_forest_set_copy (g, f);
      t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
      t8_forest_commit (g);
      f = g;
    }
    check_forest (f, M, O, rank, "forest");
    std::string ctx = "rank " + std::to_string (rank) + ", " + M.str () + " distributed " + cstr (O);
    int dummy;
    t8_forest_set_user_data (f, &dummy);
    all_searches (f, m, rank, ctx);
    if (d > 0)
      all_face_iterations (f, m, ctx);
    t8_forest_unref (&f);
    if (rank == 0)
      mc::state (mc::mix (mc::mix (M.hash (), mc::hash_str (cstr (O))), holes));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}

/* ------------------------------------------------------------------------------------------------ replace */
struct Rep {
  int ltree, refine, nold, old, nnew, nw;
  bool operator== (const Rep &o) const { return std::tie (ltree, refine, nold, old, nnew, nw) == std::tie (o.ltree, o.refine, o.nold, o.old, o.nnew, o.nw); }
};
static std::string
rstr (const Rep &r)
{
  char b[120];
  snprintf (b, sizeof b, "(tree %d, verdict %d, old %d+%d, new %d+%d)", r.ltree, r.refine, r.old, r.nold, r.nw, r.nnew);
  return b;
}
struct RepCtx {
  std::vector<Rep> log;
  t8_forest_t old, nw;
};
static void
replace_cb (t8_forest_t fo, t8_forest_t fn, t8_locidx_t lt, const t8_eclass_t tc, const t8_scheme *s, const int refine, const int nold, const t8_locidx_t old, const int nnew,
            const t8_locidx_t nw)
{
  RepCtx *c = (RepCtx *) t8_forest_get_user_data (fn);
  MC_CHECK (fo == c->old && fn == c->nw && tc == t8_forest_get_tree_class (fo, lt) && s == t8_forest_get_scheme (fo), "replace callback: wrong forests, class or scheme");
  c->log.push_back (Rep { lt, refine, nold, old, nnew, nw });
}
struct Act {
  std::map<Leaf, int> verdict; /* first member of a family for -1 */
};
static int
adapt_act (t8_forest_t forest, t8_forest_t from, t8_locidx_t lt, const t8_eclass_t tc, t8_locidx_t, const t8_scheme_c *s, const int is_family, const int, t8_element_t *el[])
{
  Act *c = (Act *) t8_forest_get_user_data (forest);
  auto it = c->verdict.find (leaf_of (from, lt, tc, s, el[0]));
  if (it == c->verdict.end ())
    return 0;
  return it->second == -1 && !is_family ? 0 : it->second;
}
static void
body_replace ()
{
  bool dbg = T8_ENABLE_DEBUG && !mc::thorough ();
  static const std::vector<std::string> ms = { "line", "line3", "quad", "tri", "hex", "tet", "prism", "pyramid", "quad2", "sa_quad2", "tri_quad_tri", "hex_pyra_tet" };
  const Mesh &m = choose_mesh (ms);
  int d = m.dim ();
  int holes = mc::choose (2, "holes");
  Model S = choose_model (m, holes ? 1 : 0, d == 1 ? (m.cls.size () > 1 ? mc::q (1, 2) : 2) : 1, d == 1 ? (m.cls.size () > 1 || !mc::thorough () ? 1 : 2) : holes && m.cls.size () > 1 ? mc::q (0, 1) : 1, 3);
  Model M = holes ? with_holes (S, mc::q (dbg || d > 1 ? 1 : 2, 2)) : S;
  int n = (int) M.size ();
  int P = 1 + mc::choose (mc::q (d == 3 && !holes ? 1 : 2, 3), "ranks");
  Cuts O = choose_cuts (n, P, n <= mc::q (dbg ? 4 : 6, 10));
  /* actions in order: on leaf i: refine, remove, coarsen with its family if it is the first */
  Act act;
  int kinds[3] = { 1, -2, -1 }, na = mc::q (n <= 4 && !dbg ? 3 : n <= 7 && !dbg ? 2 : n <= 4 ? 2 : 1, 3), last = 0;
  std::map<int, int> left;
  for (auto &l : M.L)
    left[l.tree]++;
  for (int i = 0; i < na; i++) {
    int c = mc::choose (3 * n - last + 1, "action");
    if (!c)
      break;
    last += c;
    int leaf = (last - 1) / 3, kind = kinds[(last - 1) % 3];
    if (act.verdict.count (M.L[leaf]))
      mc::prune ();
    if (kind == -1) {
      if (M.L[leaf].path.empty ())
        mc::prune ();
      Leaf par = M.L[leaf];
      par.path.pop_back ();
      if (M.range (par).first != leaf)
        mc::prune ();
    }
    act.verdict[M.L[leaf]] = kind;
  }
  /* no process may lose all its elements of a tree */
  for (int p = 0; p < P; p++) {
    std::map<int, int> rest;
    for (int i = O[p]; i < O[p + 1]; i++) {
      auto it = act.verdict.find (M.L[i]);
      rest[M.L[i].tree] += !(it != act.verdict.end () && it->second == -2);
    }
    for (auto &x : rest)
      if (!x.second)
        mc::prune ();
  }
  vmpi::Config cfg;
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = holes ? build_holes (S, M, O, rank) : build_forest (M, O, rank), g;
    t8_forest_ref (f);
    t8_forest_init (&g);
    t8_forest_set_adapt (g, f, adapt_act, 0);
    t8_forest_set_user_data (g, &act);
    t8_forest_commit (g);
    RepCtx c;
    c.old = f;
    c.nw = g;
    t8_forest_set_user_data (g, &c);
    t8_forest_iterate_replace (g, f, replace_cb);
    /* what it must report follows from the two leaf lists */
    std::vector<Tree> A = trees_of (f, false), B = trees_of (g, false);
    std::vector<Rep> want;
    MC_CHECK (A.size () == B.size (), "rank %d: %zu trees before, %zu after", rank, A.size (), B.size ());
    for (size_t t = 0; t < A.size (); t++) {
      auto &a = A[t].leaves, &b = B[t].leaves;
      size_t i = 0, j = 0;
      while (i < a.size ()) {
        if (j < b.size () && a[i] == b[j]) {
          want.push_back (Rep { (int) t, 0, 1, (int) i, 1, (int) j });
          i++, j++;
        }
        else if (j < b.size () && is_prefix (a[i], b[j])) {
          size_t k = j;
          while (k < b.size () && is_prefix (a[i], b[k]))
            k++;
          want.push_back (Rep { (int) t, 1, 1, (int) i, (int) (k - j), (int) j });
          i++, j = k;
        }
        else if (j < b.size () && is_prefix (b[j], a[i])) {
          size_t k = i;
          while (k < a.size () && is_prefix (b[j], a[k]))
            k++;
          want.push_back (Rep { (int) t, -1, (int) (k - i), (int) i, 1, (int) j });
          i = k, j++;
        }
        else {
          want.push_back (Rep { (int) t, -2, 1, (int) i, 0, -1 });
          i++;
        }
      }
      MC_CHECK (j == b.size (), "rank %d: the adapted forest has leaves nobody was asked for", rank);
    }
    auto ctx = [&] () {
      std::string r = "rank " + std::to_string (rank) + ", " + M.str () + " distributed " + cstr (O) + " with";
      for (auto &v : act.verdict)
        r += " " + lstr (v.first) + ":" + std::to_string (v.second);
      return r;
    };
    for (size_t i = 0; i < want.size () || i < c.log.size (); i++)
      MC_CHECK (i < want.size () && i < c.log.size () && want[i] == c.log[i], "replace call %zu is %s, expected %s, %s", i, i < c.log.size () ? rstr (c.log[i]).c_str () : "missing",
                i < want.size () ? rstr (want[i]).c_str () : "none", ctx ().c_str ());
    mc::checked ("replace iteration", want.size () + 1);
    t8_forest_unref (&f);
    t8_forest_unref (&g);
    if (rank == 0) {
      uint64_t h = mc::mix (M.hash (), mc::hash_str (cstr (O)));
      for (auto &v : act.verdict)
        h = mc::mix (mc::mix (h, mc::hash_str (lstr (v.first))), v.second + 9);
      mc::state (h);
    }
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C14";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    switch (mc::choose (3, "part")) {
    case 0:
      body_search (false);
      break;
    case 1:
      body_search (true);
      break;
    default:
      body_replace ();
    }
    mc::sample (mc::describe ());
  });
}
