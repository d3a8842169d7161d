/* C22: packed elements and data survive the journey; element arrays return what was stored. */
#include "scheme_enum.hxx"
#include <t8_data/t8_containers.h>
#include <t8_data/t8_element_array_iterator.hxx>
#include <t8_data/t8_vector_handler.hxx>
#include <t8_forest/t8_forest_private.h>
static const sc_MPI_Comm COMM = sc_MPI_COMM_WORLD;

/* ---- part 0: packing of elements ---- */
static void
pack_chunks (Walk &w, const std::vector<const t8_element_t *> &seq, unsigned in_chunks, unsigned out_chunks, int before, int l)
{
#define AT w.where (l).c_str ()
  const t8_scheme *s = w.s;
  const t8_eclass_t tc = w.tc;
  const int n = (int) seq.size ();
  /* bit i of a chunk mask: a new call starts behind item i */
  int announced = 0, total = before;
  s->element_MPI_Pack_size (tc, n, COMM, &announced);
  int by_chunk = 0;
  std::vector<std::pair<int, int>> in, out;
  for (int k = 0; k < 2; k++) {
    unsigned m = k ? out_chunks : in_chunks;
    auto &v = k ? out : in;
    int from = 0;
    for (int i = 0; i < n; i++)
      if (i == n - 1 || (m >> i & 1)) {
        v.push_back ({ from, i + 1 - from });
        from = i + 1;
      }
  }
  for (auto &c : in) {
    int z = 0;
    s->element_MPI_Pack_size (tc, c.second, COMM, &z);
    by_chunk += z;
  }
  total += std::max (announced, by_chunk);
  std::vector<unsigned char> buf (total + 32, 0xA7);
  int pos = before;
  for (auto &c : in) {
    int z = 0, p0 = pos;
    s->element_MPI_Pack_size (tc, c.second, COMM, &z);
    std::vector<t8_element_t *> p;
    for (int i = 0; i < c.second; i++)
      p.push_back ((t8_element_t *) seq[c.first + i]);
    s->element_MPI_Pack (tc, p.data (), c.second, buf.data (), total, &pos, COMM);
    MC_CHECK (pos - p0 <= z, "%s: packing %d elements took %d bytes, announced were %d", AT, c.second, pos - p0, z);
  }
  MC_CHECK (pos - before <= announced, "%s: packing %d elements took %d bytes, announced were %d", AT, n, pos - before, announced);
  for (int i = 0; i < before; i++)
    MC_CHECK (buf[i] == 0xA7, "%s: byte %d before the packed elements was changed", AT, i);
  for (int i = pos; i < total + 32; i++)
    MC_CHECK (buf[i] == 0xA7, "%s: byte %d behind the packed elements was changed", AT, i - pos);
  int written = pos;
  pos = before;
  for (auto &c : out) {
    s->element_MPI_Unpack (tc, buf.data (), total, &pos, w.T.data () + c.first, c.second, COMM);
  }
  MC_CHECK (pos == written, "%s: unpacking %d elements read %d of %d bytes", AT, n, pos - before, written - before);
  for (int i = 0; i < n; i++) {
    MC_CHECK (w.same (w.T[i], seq[i]), "%s: element %d of %d is another one after unpacking", AT, i, n);
    int lv = s->element_get_level (tc, seq[i]);
    MC_CHECK (s->element_get_child_id (tc, w.T[i]) == s->element_get_child_id (tc, seq[i]), "%s: element %d of %d has another child number after unpacking", AT, i, n);
    if (lv > 0) {
      s->element_get_parent (tc, w.T[i], w.T[20]);
      s->element_get_parent (tc, seq[i], w.T[21]);
      MC_CHECK (w.same (w.T[20], w.T[21]), "%s: element %d of %d has another parent after unpacking", AT, i, n);
    }
    mc::checked ("unpacked");
  }
}
static void
visit_pack (Walk &w, int l)
{
  const t8_scheme *s = w.s;
  const t8_eclass_t tc = w.tc;
  std::vector<const t8_element_t *> seq = { w.E[l], w.E[l > 0 ? l - 1 : 0], w.E[l / 2], w.E[l] };
  /* the targets hold other elements before */
  auto dirty = [&] () {
    for (int i = 0; i < 4; i++)
      s->element_copy (tc, w.E[(l + i) % 2 ? 0 : l], w.T[i]);
  };
  dirty ();
  pack_chunks (w, seq, 0, 7, 0, l);
  dirty ();
  pack_chunks (w, seq, 7, 0, 5, l);
  dirty ();
  pack_chunks (w, { w.E[l] }, 0, 0, 3, l);
  if (l <= 2)
    for (unsigned a = 0; a < 8; a++)
      for (unsigned b = 0; b < 8; b++) {
        dirty ();
        pack_chunks (w, seq, a, b, a & 1, l);
      }
}
#undef AT
/* ---- part 1: histories of element arrays ---- */
struct Arr {
  t8_element_array_t *a;
  std::vector<int> m; /* numbers into the pool */
};
static void
verify (const t8_scheme *s, t8_eclass_t tc, const t8_element_array_t *a, const std::vector<int> &m, const std::vector<t8_element_t *> &pool, const char *what)
{
  const size_t n = m.size ();
  MC_CHECK (t8_element_array_get_count (a) == n, "%s: %zu elements, expected %zu", what, t8_element_array_get_count (a), n);
  MC_CHECK (t8_element_array_get_size (a) == s->get_element_size (tc), "%s: element size", what);
  MC_CHECK (t8_element_array_get_scheme (a) == s && t8_element_array_get_tree_class (a) == tc, "%s: scheme or class", what);
  const char *d = (const char *) t8_element_array_get_data (a);
  MC_CHECK ((d == nullptr) == (n == 0), "%s: data pointer", what);
  MC_CHECK (t8_element_array_get_array (a)->elem_count == n, "%s: underlying array", what);
  auto b = t8_element_array_begin (a), e = t8_element_array_end (a);
  MC_CHECK (e - b == (ptrdiff_t) n && (b == e) == (n == 0) && (b != e) == (n != 0) && b <= e && e >= b && (b < e) == (n > 0) && (e > b) == (n > 0), "%s: begin and end", what);
  auto it = b;
  auto back = e;
  for (size_t i = 0; i < n; i++) {
    const t8_element_t *want = pool[m[i]], *got = t8_element_array_index_locidx (a, (t8_locidx_t) i);
    MC_CHECK (s->element_is_equal (tc, want, got), "%s: element %zu of %zu is another one than stored", what, i, n);
    MC_CHECK (got == t8_element_array_index_int (a, (int) i) && (const char *) got == d + i * s->get_element_size (tc), "%s: element %zu: the ways to get it disagree", what, i);
    MC_CHECK (*it == got && it.get_current_index () == (t8_locidx_t) i && b[i] == got, "%s: iterator at %zu", what, i);
    auto jump = b + (ptrdiff_t) i, jump2 = (ptrdiff_t) i + b;
    MC_CHECK (*jump == got && jump == it && jump2 == it && jump - b == (ptrdiff_t) i, "%s: iterator jump to %zu", what, i);
    auto rev = e - (ptrdiff_t) (n - i);
    MC_CHECK (*rev == got && rev == it, "%s: iterator jump back to %zu", what, i);
    if (i % 2) {
      auto old = it++;
      MC_CHECK (*old == got, "%s: iterator increment", what);
    }
    else
      ++it;
    const t8_element_t *last = t8_element_array_index_locidx (a, (t8_locidx_t) (n - 1 - i));
    if (i % 2)
      back--;
    else
      --back;
    MC_CHECK (*back == last, "%s: iterator decrement", what);
  }
  MC_CHECK (it == e && back == b, "%s: iterator ends", what);
  mc::checked ("array contents", n + 4);
}
static void
arrays ()
{
  static const int combos[12][2] = { { 0, 0 }, { 0, 1 }, { 0, 2 }, { 0, 3 }, { 0, 4 }, { 0, 5 }, { 0, 6 }, { 0, 7 },
                                     { 1, 0 }, { 1, 1 }, { 1, 2 }, { 1, 4 } };
  int cb = mc::choose (12, "scheme_class");
  const t8_scheme *s = Walk::scheme (combos[cb][0]);
  const t8_eclass_t tc = (t8_eclass_t) combos[cb][1];
  std::vector<t8_element_t *> pool (7);
  s->element_new (tc, 7, pool.data ());
  long mem = mem_balance ();
  s->set_to_root (tc, pool[0]);
  for (int i = 1; i < 7; i++)
    s->element_get_child (tc, pool[i - 1], s->element_get_num_children (tc, pool[i - 1]) - 1 - (i % 2 && NCH[tc] > 1), pool[i]);
  int next = 0;
  Arr A[2];
  static const int START[] = { 0, 1, 3 };
  auto fill = [&] (Arr &x, size_t from) {
    for (size_t i = from; i < x.m.size (); i++) {
      x.m[i] = next++ % 7;
      s->element_copy (tc, pool[x.m[i]], t8_element_array_index_locidx_mutable (x.a, (t8_locidx_t) i));
    }
  };
  for (int k = 0; k < 2; k++) {
    int n = START[mc::choose (3, "start")];
    if (k == 0 && n == 0)
      A[k].a = t8_element_array_new (s, tc);
    else
      A[k].a = t8_element_array_new_count (s, tc, n);
    A[k].m.resize (n);
    fill (A[k], 0);
  }
  auto both_ok = [&] (const char *what) {
    for (int k = 0; k < 2; k++)
      verify (s, tc, A[k].a, A[k].m, pool, what);
    mc::transition ();
  };
  both_ok ("after creation");
  static const char *OP[] = { "push", "push_count 2", "push_count 0", "resize by 2 more", "resize by one less", "resize to the same", "resize to 0", "truncate", "reset", "copy from the other", "view", "data view", "init_copy from the other", "write", "init_size" };
  const int NOP = 15, H = mc::q (T8_ENABLE_DEBUG ? 3 : 4, T8_ENABLE_DEBUG ? 4 : 5);
  const int depth = mc::choose (2, "both_arrays") ? H - 1 : H;
  for (int h = 0; h < depth; h++) {
    int op = mc::choose (NOP, "op");
    /* on the first array only for the full depth; on either one for one operation less */
    int which = depth == H ? 0 : mc::choose (2, "array");
    Arr &x = A[which], &y = A[1 - which];
    size_t n = x.m.size ();
    switch (op) {
    case 0: {
      t8_element_t *e = t8_element_array_push (x.a);
      x.m.push_back (0);
      MC_CHECK (e == t8_element_array_index_locidx_mutable (x.a, (t8_locidx_t) n), "push does not return the new last element");
      fill (x, n);
      break;
    }
    case 1: {
      t8_element_t *e = t8_element_array_push_count (x.a, 2);
      x.m.resize (n + 2);
      MC_CHECK (e == t8_element_array_index_int_mutable (x.a, (int) n), "push_count does not return the first new element");
      fill (x, n);
      break;
    }
    case 2:
      t8_element_array_push_count (x.a, 0);
      break;
    case 3:
      t8_element_array_resize (x.a, n + 2);
      x.m.resize (n + 2);
      fill (x, n);
      break;
    case 4:
      if (n == 0)
        mc::prune ();
      t8_element_array_resize (x.a, n - 1);
      x.m.resize (n - 1);
      break;
    case 5:
      t8_element_array_resize (x.a, n);
      break;
    case 6:
      t8_element_array_resize (x.a, 0);
      x.m.clear ();
      break;
    case 7:
      t8_element_array_truncate (x.a);
      x.m.clear ();
      break;
    case 8:
      t8_element_array_reset (x.a);
      x.m.clear ();
      break;
    case 9:
      t8_element_array_copy (x.a, y.a);
      x.m = y.m;
      break;
    case 10: { /* every view; one write through it */
      for (size_t off = 0; off < n; off++)
        for (size_t len = 1; off + len <= n; len++) {
          t8_element_array_t v;
          t8_element_array_init_view (&v, x.a, off, len);
          verify (s, tc, &v, std::vector<int> (x.m.begin () + off, x.m.begin () + off + len), pool, "view");
          if (off == 0 && len == n) {
            x.m[n - 1] = next++ % 7;
            s->element_copy (tc, pool[x.m[n - 1]], t8_element_array_index_locidx_mutable (&v, (t8_locidx_t) (n - 1)));
          }
        }
      break;
    }
    case 11: {
      if (n == 0)
        mc::prune ();
      t8_element_array_t v;
      t8_element_array_init_data (&v, t8_element_array_get_data (x.a), s, tc, n);
      verify (s, tc, &v, x.m, pool, "data view");
      x.m[0] = next++ % 7;
      s->element_copy (tc, pool[x.m[0]], t8_element_array_get_data_mutable (&v));
      break;
    }
    case 12:
      if (y.m.empty ())
        mc::prune ();
      t8_element_array_reset (x.a);
      t8_element_array_init_copy (x.a, s, tc, t8_element_array_get_data (y.a), y.m.size ());
      x.m = y.m;
      break;
    case 13:
      if (n == 0)
        mc::prune ();
      x.m[n / 2] = next++ % 7;
      s->element_copy (tc, pool[x.m[n / 2]], t8_element_array_index_locidx_mutable (x.a, (t8_locidx_t) (n / 2)));
      break;
    case 14:
      t8_element_array_reset (x.a);
      t8_element_array_init_size (x.a, s, tc, 2);
      x.m.assign (2, 0);
      fill (x, 0);
      break;
    }
    both_ok (OP[op]);
  }
  uint64_t st = cb;
  for (int k = 0; k < 2; k++) {
    for (int i : A[k].m)
      st = mc::mix (st, i + 1);
    st = mc::mix (st, 99);
    t8_element_array_reset (A[k].a);
    T8_FREE (A[k].a);
  }
  mc::state (st);
  MC_CHECK (mem_balance () == mem, "element arrays leave %ld allocations behind", mem_balance () - mem);
  s->element_destroy (tc, 7, pool.data ());
}
/* ---- part 2: searches in sorted arrays ---- */
static void
searches ()
{
  static const int combos[11][2] = { { 0, 1 }, { 0, 2 }, { 0, 3 }, { 0, 4 }, { 0, 5 }, { 0, 6 }, { 0, 7 }, { 1, 1 }, { 1, 2 }, { 1, 4 }, { 0, 0 } };
  int cb = mc::choose (11, "scheme_class");
  const t8_scheme *s = Walk::scheme (combos[cb][0]);
  const t8_eclass_t tc = (t8_eclass_t) combos[cb][1];
  int D = tc <= 1 ? 3 : 2, QL = D + 1;
  if (tc == T8_ECLASS_VERTEX)
    D = 1;
  /* leaves: every refinement of at most R elements, of depth at most D */
  int R = mc::choose (mc::q (tc == T8_ECLASS_LINE ? 5 : 3, tc == T8_ECLASS_LINE ? 7 : 4), "refinements");
  std::vector<t8_element_t *> leaf (1);
  s->element_new (tc, 1, leaf.data ());
  s->set_to_root (tc, leaf[0]);
  std::vector<t8_element_t *> all = leaf;
  size_t from = 0; /* refinements go from left to right, so that each pattern comes up once */
  for (int r = 0; r < R; r++) {
    size_t i = from + (size_t) mc::choose ((int) (leaf.size () - from), "refine");
    if (s->element_get_level (tc, leaf[i]) >= D)
      mc::prune ();
    int n = s->element_get_num_children (tc, leaf[i]);
    std::vector<t8_element_t *> ch (n);
    s->element_new (tc, n, ch.data ());
    s->element_get_children (tc, leaf[i], n, ch.data ());
    all.insert (all.end (), ch.begin (), ch.end ());
    leaf.erase (leaf.begin () + i);
    leaf.insert (leaf.begin () + i, ch.begin (), ch.end ());
    from = i;
  }
  /* a part of them */
  std::vector<t8_element_t *> part;
  int n = (int) leaf.size ();
  if (n <= 5) {
    unsigned m = (unsigned) mc::choose (1 << n, "subset");
    for (int i = 0; i < n; i++)
      if (m >> i & 1)
        part.push_back (leaf[i]);
  }
  else {
    int a = mc::choose (n + 1, "first"), b = mc::choose (n + 1, "last"), hole = mc::choose (2, "hole");
    if (a > b)
      mc::prune ();
    for (int i = a; i < b; i++)
      if (!hole || (i - a) % 3 != 1)
        part.push_back (leaf[i]);
  }
  t8_element_array_t *a = t8_element_array_new (s, tc);
  for (t8_element_t *e : part)
    s->element_copy (tc, e, t8_element_array_push (a));
  const int N = (int) part.size ();
  std::vector<t8_element_t *> q (1);
  s->element_new (tc, 1, q.data ());
  for (int l = 0; l <= QL; l++) {
    t8_linearidx_t num = s->count_leaves_from_root (tc, l);
    t8_linearidx_t step = num > 600 ? 3 : 1;
    for (t8_linearidx_t id = 0; id < num; id += step) {
      s->element_set_linear_id (tc, q[0], l, id);
      int lower = -1, upper = -1, equal = -1, rel = -1;
      for (int i = 0; i < N; i++) {
        t8_linearidx_t x = s->element_get_linear_id (tc, part[i], l);
        if (x <= id)
          lower = i;
        if (x >= id && upper < 0)
          upper = i;
        if (s->element_is_equal (tc, part[i], q[0]))
          equal = i;
        if (rel < 0 && (s->element_is_ancestor (tc, part[i], q[0]) || s->element_is_ancestor (tc, q[0], part[i])))
          rel = i;
      }
      int r = t8_element_array_find (a, q[0]);
      MC_CHECK (r == equal, "find of element %d of level %d among %d: %d, expected %d", (int) id, l, N, r, equal);
      r = t8_forest_bin_search_lower (a, id, l);
      MC_CHECK (r == lower, "lower search for id %d of level %d among %d: %d, expected %d", (int) id, l, N, r, lower);
      r = t8_forest_bin_search_upper (a, id, l);
      MC_CHECK (r == upper, "upper search for id %d of level %d among %d: %d, expected %d", (int) id, l, N, r, upper);
      const t8_element_t *found = (const t8_element_t *) &lower;
      r = t8_forest_bin_search_first_descendant_ancestor (a, q[0], &found);
      MC_CHECK (r == rel, "search for relatives of element %d of level %d among %d: %d, expected %d", (int) id, l, N, r, rel);
      MC_CHECK (found == (rel < 0 ? nullptr : t8_element_array_index_locidx (a, rel)), "search for relatives returns another element than its position");
      mc::checked ("searches", 5);
      mc::transition (4);
    }
  }
  uint64_t st = cb;
  for (t8_element_t *e : part)
    st = mc::mix (mc::mix (st, s->element_get_level (tc, e)), s->element_get_linear_id (tc, e, s->element_get_level (tc, e)));
  mc::state (st);
  t8_element_array_reset (a);
  T8_FREE (a);
  s->element_destroy (tc, 1, q.data ());
  s->element_destroy (tc, (int) all.size (), all.data ());
}
/* ---- part 3: vectors of user data between processes ---- */
struct Item {
  double d = 0;
  int check = 0;
  bool operator== (const Item &o) const { return d == o.d && check == o.check; }
};
typedef std::vector<int> Var;
template <> int t8_data_handler<int>::size (const int &, sc_MPI_Comm c) { int z; sc_MPI_Pack_size (1, sc_MPI_INT, c, &z); return z; }
template <> void t8_data_handler<int>::pack (const int &d, int &pos, void *b, const int n, sc_MPI_Comm c) { sc_MPI_Pack (&d, 1, sc_MPI_INT, b, n, &pos, c); }
template <> void t8_data_handler<int>::unpack (const void *b, const int n, int &pos, int &d, sc_MPI_Comm c) { sc_MPI_Unpack (b, n, &pos, &d, 1, sc_MPI_INT, c); }
template <> t8_data_handler_type t8_data_handler<int>::type () { return t8_data_handler_type (7); }
template <> int t8_data_handler<Item>::size (const Item &, sc_MPI_Comm c) { int z, y; sc_MPI_Pack_size (1, sc_MPI_DOUBLE, c, &z); sc_MPI_Pack_size (1, sc_MPI_INT, c, &y); return z + y; }
template <> void t8_data_handler<Item>::pack (const Item &d, int &pos, void *b, const int n, sc_MPI_Comm c) { sc_MPI_Pack (&d.d, 1, sc_MPI_DOUBLE, b, n, &pos, c); sc_MPI_Pack (&d.check, 1, sc_MPI_INT, b, n, &pos, c); }
template <> void t8_data_handler<Item>::unpack (const void *b, const int n, int &pos, Item &d, sc_MPI_Comm c) { sc_MPI_Unpack (b, n, &pos, &d.d, 1, sc_MPI_DOUBLE, c); sc_MPI_Unpack (b, n, &pos, &d.check, 1, sc_MPI_INT, c); }
template <> t8_data_handler_type t8_data_handler<Item>::type () { return t8_data_handler_type (8); }
template <> int t8_data_handler<Var>::size (const Var &v, sc_MPI_Comm c) { int z; sc_MPI_Pack_size (1 + (int) v.size (), sc_MPI_INT, c, &z); return z; }
template <> void t8_data_handler<Var>::pack (const Var &v, int &pos, void *b, const int n, sc_MPI_Comm c) { int k = (int) v.size (); sc_MPI_Pack (&k, 1, sc_MPI_INT, b, n, &pos, c); if (k) sc_MPI_Pack (v.data (), k, sc_MPI_INT, b, n, &pos, c); }
template <> void t8_data_handler<Var>::unpack (const void *b, const int n, int &pos, Var &v, sc_MPI_Comm c) { int k; sc_MPI_Unpack (b, n, &pos, &k, 1, sc_MPI_INT, c); v.resize (k); if (k) sc_MPI_Unpack (b, n, &pos, v.data (), k, sc_MPI_INT, c); }
template <> t8_data_handler_type t8_data_handler<Var>::type () { return t8_data_handler_type (9); }
static int value (int p, int i, int *) { return p * 1000 + i * 7 - 3; }
static Item value (int p, int i, Item *) { Item x; x.d = p + i / 8.; x.check = -p * 10 - i; return x; }
static Var value (int p, int i, Var *) { Var v; for (int k = 0; k < (p + i) % 4; k++) v.push_back (p * 100 + i * 10 + k); return v; }

template <class T>
static void
pack_local (t8_vector_handler<T> &h, const std::vector<T> &m)
{
  /* three vectors one after another in one buffer */
  std::vector<T> other = m;
  std::reverse (other.begin (), other.end ());
  other.push_back (value (9, 2, (T *) nullptr));
  t8_vector_handler<T> o (other);
  t8_abstract_vector_handler *hs[3] = { &h, &o, &h };
  int z = 0;
  for (auto *x : hs)
    z += x->buffer_size (COMM);
  std::vector<char> buf (z + 8, 0x5A);
  int pos = 0;
  for (auto *x : hs) {
    int p0 = pos;
    x->pack_vector_prefix (buf.data (), z, pos, COMM);
    MC_CHECK (pos - p0 <= x->buffer_size (COMM), "a vector took %d bytes, announced were %d", pos - p0, x->buffer_size (COMM));
  }
  for (int i = pos; i < z + 8; i++)
    MC_CHECK (buf[i] == 0x5A, "the bytes behind the packed vectors were changed");
  MC_CHECK (*h.get_data () == m && *o.get_data () == other, "packing changed the data");
  int end = pos;
  pos = 0;
  t8_vector_handler<T> fresh, used (other), used2 (m);
  t8_abstract_vector_handler *rs[3] = { &fresh, &used2, &used };
  const std::vector<T> *want[3] = { &m, &other, &m };
  for (int i = 0; i < 3; i++) {
    int cnt = -5;
    rs[i]->unpack_vector_prefix (buf.data (), z, pos, cnt, COMM);
    MC_CHECK (cnt == (int) want[i]->size (), "unpacking vector %d: %d items, expected %d", i, cnt, (int) want[i]->size ());
    MC_CHECK (*((t8_vector_handler<T> *) rs[i])->get_data () == *want[i], "unpacking vector %d: other items than packed", i);
    mc::checked ("vectors", 2);
  }
  MC_CHECK (pos == end, "unpacking read %d of %d bytes", pos, end);
}
template <class T>
static void
vectors (int typenr)
{
  const int P = 1 + mc::choose (mc::q (3, 4), "P");
  vmpi::Config cfg;
  int k = mc::choose (P > 1 ? 8 : 1, "behaviour");
  cfg.rendezvous = k & 1;
  cfg.lazy_recv = k & 2;
  cfg.descending = k & 4;
  const int seed = mc::choose (3, "counts");
  const int H = mc::q (P > 2 ? 2 : 3, P > 3 ? 2 : 3);
  /* operations: a -> b for every pair, an exchange along every permutation (4 processes: the rotations), packing at home */
  std::vector<std::vector<int>> perms;
  std::vector<int> pm (P);
  for (int i = 0; i < P; i++)
    pm[i] = i;
  do {
    bool rot = true;
    for (int i = 0; i < P; i++)
      rot &= pm[i] == (pm[0] + i) % P;
    if (P < 4 || rot)
      perms.push_back (pm);
  } while (std::next_permutation (pm.begin (), pm.end ()));
  const int NE = P * (P - 1), NOP = NE + (int) perms.size () + 1;
  std::vector<int> ops;
  for (int h = 0; h < H; h++)
    ops.push_back (mc::choose (NOP, "op"));
  std::vector<std::vector<T>> init (P);
  for (int p = 0; p < P; p++)
    for (int i = 0; i < (p * 2 + seed * (p + 1)) % 5; i++)
      init[p].push_back (value (p, i, (T *) nullptr));
  vmpi::run (P, cfg, [&] (int rank) {
    std::vector<std::vector<T>> m = init;
    t8_vector_handler<T> h (m[rank]);
    MC_CHECK (h.type () == t8_data_handler_type (7 + typenr), "type");
    for (int step = 0; step < H; step++) {
      int op = ops[step], tag = 100 + step;
      if (op < NE) {
        int a = op / (P - 1), b = op % (P - 1);
        b += b >= a;
        if (rank == a)
          MC_CHECK (h.send (b, tag, COMM) == sc_MPI_SUCCESS, "send reports an error");
        if (rank == b) {
          sc_MPI_Status st;
          int cnt = -3;
          MC_CHECK (h.recv (a, tag, COMM, &st, cnt) == sc_MPI_SUCCESS, "recv reports an error");
          MC_CHECK (cnt == (int) m[a].size (), "%d items received from process %d, sent were %d", cnt, a, (int) m[a].size ());
          MC_CHECK (st.MPI_SOURCE == a && st.MPI_TAG == tag, "status of a received vector");
        }
        m[b] = m[a];
      }
      else if (op < NOP - 1) {
        const std::vector<int> &pp = perms[op - NE];
        int src = (int) (std::find (pp.begin (), pp.end (), rank) - pp.begin ());
        sc_MPI_Status st;
        int cnt = -3;
        MC_CHECK (h.sendrecv (pp[rank], src, tag, COMM, &st, cnt) == sc_MPI_SUCCESS, "sendrecv reports an error");
        MC_CHECK (cnt == (int) m[src].size (), "%d items received from process %d, sent were %d", cnt, src, (int) m[src].size ());
        MC_CHECK (st.MPI_SOURCE == src && st.MPI_TAG == tag, "status of an exchanged vector");
        std::vector<std::vector<T>> o = m;
        for (int p = 0; p < P; p++)
          m[pp[p]] = o[p];
      }
      else
        pack_local<T> (h, m[rank]);
      MC_CHECK (h.get_data () && *h.get_data () == m[rank], "process %d holds other items than were sent to it (step %d)", rank, step);
      mc::checked ("vectors");
      mc::transition ();
    }
  });
  mc::state (mc::hash_str (mc::describe ()));
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C22";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    switch (mc::choose (6, "part")) {
    case 0: {
      EnumBounds b = mc::thorough ()   ? EnumBounds { { 20, 12, 7, 7, 5, 5, 5, 5 }, 2, true }
                     : T8_ENABLE_DEBUG ? EnumBounds { { 8, 5, 3, 3, 2, 2, 2, 2 }, 1, false }
                                       : EnumBounds { { 8, 7, 5, 5, 3, 3, 3, 3 }, 3, false };
      scheme_body (b, visit_pack);
      break;
    }
    case 1:
      arrays ();
      break;
    case 2:
      searches ();
      break;
    case 3:
      vectors<int> (0);
      break;
    case 4:
      vectors<Item> (1);
      break;
    case 5:
      vectors<Var> (2);
      break;
    }
    mc::sample (mc::describe ());
  });
}
