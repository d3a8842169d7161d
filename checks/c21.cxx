/* C21: shared arrays agree with plain arrays, tree-offset queries with their definition. */
#include "cx.hxx"
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
#include <sc_shmem.h>
using namespace cx;
int cx::PKG[2];
static const sc_MPI_Comm COMM = sc_MPI_COMM_WORLD;
static const sc_shmem_type_t TYPES[] = { SC_SHMEM_WINDOW, SC_SHMEM_BASIC, SC_SHMEM_PRESCAN, SC_SHMEM_WINDOW_PRESCAN };
static const char *TYPENAME[] = { "window", "basic", "prescan", "window_prescan" };

static vmpi::Config
choose_cfg (int P, bool full)
{
  vmpi::Config cfg;
  static const int PPN[] = { 0, 1, 2, 3 };
  cfg.ppn = PPN[mc::choose (P > 1 ? 4 : 1, "ppn")];
  if (cfg.ppn > 1 && (P % cfg.ppn || cfg.ppn >= P)) /* libsc: nodes of equal size */
    mc::prune ();
  if (full) {
    int k = mc::choose (4, "behaviour");
    cfg.nonsync = k & 1;
    cfg.descending = k & 2;
  }
  return cfg;
}
/* ---- histories of operations on two arrays of global indices ---- */
static t8_gloidx_t
val (int step, int i)
{
  t8_gloidx_t v = (t8_gloidx_t) (i + 1) * 1000003 + step * 17;
  return (i + step) % 3 == 1 ? -v : (i + step) % 3 == 2 ? v << 30 : v;
}
static void
compare (t8_shmem_array_t a, const std::vector<t8_gloidx_t> &e, const char *what)
{
  MC_CHECK (t8_shmem_array_get_elem_count (a) == e.size () && t8_shmem_array_get_elem_size (a) == sizeof (t8_gloidx_t) && t8_shmem_array_get_comm (a) == COMM, "%s: size or communicator", what);
  const t8_gloidx_t *p = t8_shmem_array_get_gloidx_array (a);
  MC_CHECK ((const void *) p == t8_shmem_array_get_array (a), "%s: pointers", what);
  for (size_t i = 0; i < e.size (); i++) {
    MC_CHECK (p[i] == e[i] && t8_shmem_array_get_gloidx (a, (int) i) == e[i] && *(const t8_gloidx_t *) t8_shmem_array_index (a, i) == e[i], "%s: entry %zu is %lld, expected %lld", what, i, (long long) p[i], (long long) e[i]);
    mc::checked ("entries");
  }
}
static const char *OPNAME[] = { "set_gloidx", "index_for_writing", "array_for_writing", "allgather", "allgatherv", "prefix sum", "copy", "write nothing" };
static const int NOPS = 8;
static void
apply (t8_shmem_array_t *arr, std::vector<t8_gloidx_t> *mod, int op, int to, int step, int rank, int P, int k)
{
  t8_shmem_array_t a = arr[to];
  std::vector<t8_gloidx_t> &m = mod[to];
  int n = (int) m.size ();
  auto mine = [&] (int p, int i) { return val (step, p * 5 + i); };
  switch (op) {
  case 0:
    if (t8_shmem_array_start_writing (a))
      for (int i = 0; i < n; i++)
        t8_shmem_array_set_gloidx (a, i, val (step, i));
    t8_shmem_array_end_writing (a);
    for (int i = 0; i < n; i++)
      m[i] = val (step, i);
    break;
  case 1: { /* a single entry */
    int i = (step * 7 + 1) % n;
    if (t8_shmem_array_start_writing (a))
      *(t8_gloidx_t *) t8_shmem_array_index_for_writing (a, i) = 42 + step;
    t8_shmem_array_end_writing (a);
    m[i] = 42 + step;
    break;
  }
  case 2:
    if (t8_shmem_array_start_writing (a))
      t8_shmem_array_get_gloidx_array_for_writing (a)[n - 1] = -step - 5;
    t8_shmem_array_end_writing (a);
    m[n - 1] = -step - 5;
    break;
  case 3: {
    std::vector<t8_gloidx_t> s (k);
    for (int i = 0; i < k; i++)
      s[i] = mine (rank, i);
    t8_shmem_array_allgather (s.data (), k, T8_MPI_GLOIDX, a, k, T8_MPI_GLOIDX);
    for (int p = 0; p < P; p++)
      for (int i = 0; i < k; i++)
        m[p * k + i] = mine (p, i);
    break;
  }
  case 4: {
    auto cnt = [&] (int p) { return (p * 3 + step) % (k + 1); };
    std::vector<t8_gloidx_t> s (cnt (rank) + 1);
    for (int i = 0; i < cnt (rank); i++)
      s[i] = mine (rank, i);
    t8_shmem_array_allgatherv (s.data (), cnt (rank), T8_MPI_GLOIDX, a, T8_MPI_GLOIDX, COMM);
    for (int p = 0, o = 0; p < P; p++)
      for (int i = 0; i < cnt (p); i++)
        m[o++] = mine (p, i);
    break;
  }
  case 5: { /* libsc supports sums only */
    std::vector<t8_gloidx_t> s (k), acc (k, 0);
    for (int i = 0; i < k; i++)
      s[i] = mine (rank, i) / 3;
    t8_shmem_array_prefix (s.data (), a, k, T8_MPI_GLOIDX, sc_MPI_SUM, COMM);
    for (int p = 0; p <= P; p++)
      for (int i = 0; i < k; i++) {
        m[p * k + i] = acc[i];
        if (p < P) {
          t8_gloidx_t x = mine (p, i) / 3;
          acc[i] += x;
        }
      }
    break;
  }
  case 6:
    t8_shmem_array_copy (a, arr[1 - to]);
    m = mod[1 - to];
    break;
  default:
    t8_shmem_array_start_writing (a);
    t8_shmem_array_end_writing (a);
  }
}
static void
histories (bool delayed)
{
  int maxP = mc::thorough () ? 6 : 4, len = delayed ? 2 : mc::thorough () ? 4 : 3;
  int P = (delayed ? 2 : 1) + mc::choose (delayed ? 3 : maxP, "procs");
  vmpi::Config cfg = choose_cfg (P, !delayed);
  cfg.delays = delayed; /* one process at a time falls behind the others */
  int ty = mc::choose (4, "type"), k = 1 + (delayed ? 0 : mc::choose (3, "count")), extra = delayed ? 0 : mc::choose (2, "extra");
  const int n = (P + 1) * k + extra;
  std::vector<int> ops, to;
  for (int i = 0; i < len; i++) {
    ops.push_back (mc::choose (NOPS, "op"));
    to.push_back (i == 0 ? 0 : mc::choose (2, "to"));
  }
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    int r = t8_shmem_init (COMM);
    MC_CHECK (r > 0, "no shared memory");
    t8_shmem_set_type (COMM, TYPES[ty]);
    t8_shmem_array_t a[2];
    std::vector<t8_gloidx_t> m[2];
    for (int j = 0; j < 2; j++) {
      t8_shmem_array_init (&a[j], sizeof (t8_gloidx_t), n, COMM);
      m[j].assign (n, 0);
      apply (a, m, 0, j, 100 + j, rank, P, k);
    }
    for (size_t i = 0; i < ops.size (); i++) {
      apply (a, m, ops[i], to[i], (int) i, rank, P, k);
      char w[100];
      for (int j = 0; j < 2; j++) {
        snprintf (w, 100, "%s: rank %d, array %d after step %zu (%s)", TYPENAME[ty], rank, j, i, OPNAME[ops[i]]);
        compare (a[j], m[j], w);
      }
      bool eq = m[0] == m[1];
      MC_CHECK (!t8_shmem_array_is_equal (a[0], a[1]) == !eq && !t8_shmem_array_is_equal (a[1], a[0]) == !eq && t8_shmem_array_is_equal (a[0], a[0]), "%s: equality", w);
      /* nobody writes while others still read */
      sc_MPI_Barrier (COMM);
      if (rank == 0)
        mc::transition ();
    }
    t8_shmem_array_destroy (&a[0]);
    MC_CHECK (a[0] == nullptr, "pointer not cleared");
    compare (a[1], m[1], "after the release of the other array");
    t8_shmem_array_destroy (&a[1]);
    t8_shmem_finalize (COMM);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
}
/* ---- element types, counts including zero, and the entries behind the result ---- */
struct TypeInfo {
  sc_MPI_Datatype t;
  int size;
};
static void
types ()
{
  static const TypeInfo TI[] = { { sc_MPI_BYTE, 1 }, { sc_MPI_CHAR, 1 }, { sc_MPI_SHORT, 2 }, { sc_MPI_INT, 4 }, { sc_MPI_LONG_LONG_INT, 8 }, { sc_MPI_DOUBLE, 8 }, { sc_MPI_FLOAT, 4 }, { sc_MPI_UNSIGNED, 4 } };
  int P = 1 + mc::choose (mc::thorough () ? 6 : 4, "procs");
  vmpi::Config cfg = choose_cfg (P, false);
  int ty = mc::choose (4, "type"), dt = mc::choose (8, "datatype"), v = mc::choose (3, "call");
  int lim = P <= 2 ? 4 : P == 3 ? 3 : P == 4 ? 3 : 2;
  std::vector<int> cnt (P);
  if (v == 0) {
    for (auto &c : cnt)
      c = mc::choose (lim + 1, "count");
  }
  else
    cnt.assign (P, v == 1 ? mc::choose (4, "count") : 1 + mc::choose (3, "count"));
  if (v == 2 && TI[dt].size < 4)
    mc::prune ();
  if (v == 2 && (dt == 6 || dt == 7))
    mc::prune ();
  int total = v == 2 ? cnt[0] : 0, tail = 1 + mc::choose (2, "tail");
  for (int c : cnt)
    total += c;
  const size_t S = TI[dt].size, bytes_total = total * S, bytes_all = (total + tail) * S;
  auto item = [&] (int p, int i, int b) { return (char) (1 + (p * 53 + i * 19 + b * 7) % 120); };
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_shmem_init (COMM);
    t8_shmem_set_type (COMM, TYPES[ty]);
    t8_shmem_array_t a;
    t8_shmem_array_init (&a, S, total + tail, COMM);
    if (t8_shmem_array_start_writing (a))
      for (int i = 0; i < total + tail; i++)
        memset (t8_shmem_array_index_for_writing (a, i), 0x5a, S);
    t8_shmem_array_end_writing (a);
    std::string e;
    if (v < 2) {
      std::string s;
      for (int i = 0; i < cnt[rank]; i++)
        for (size_t b = 0; b < S; b++)
          s.push_back (item (rank, i, (int) b));
      void *buf = cnt[rank] ? (void *) s.data () : rank % 2 ? nullptr : (void *) s.data ();
      if (v == 0)
        t8_shmem_array_allgatherv (buf, cnt[rank], TI[dt].t, a, TI[dt].t, COMM);
      else
        t8_shmem_array_allgather (cnt[rank] ? buf : (void *) s.data (), cnt[rank], TI[dt].t, a, cnt[rank], TI[dt].t);
      for (int p = 0; p < P; p++)
        for (int i = 0; i < cnt[p]; i++)
          for (size_t b = 0; b < S; b++)
            e.push_back (item (p, i, (int) b));
    }
    else {
      std::vector<double> d (cnt[0]), accd (cnt[0]);
      std::vector<int> n (cnt[0]), accn (cnt[0]);
      std::vector<long long> l (cnt[0]), accl (cnt[0]);
      auto num = [] (int p, int i) { return (p * 7 + i * 3) % 5 - 1 + p; };
      for (int i = 0; i < cnt[0]; i++)
        l[i] = n[i] = (int) (d[i] = num (rank, i));
      t8_shmem_array_prefix (dt == 3 ? (void *) n.data () : dt == 4 ? (void *) l.data () : (void *) d.data (), a, cnt[0], TI[dt].t, sc_MPI_SUM, COMM);
      for (int p = 0; p <= P; p++)
        for (int i = 0; i < cnt[0]; i++) {
          e.append (dt == 3 ? (char *) &accn[i] : dt == 4 ? (char *) &accl[i] : (char *) &accd[i], S);
          if (p < P) {
            accn[i] += num (p, i);
            accl[i] += num (p, i);
            accd[i] += num (p, i);
          }
        }
    }
    MC_CHECK (e.size () == bytes_total, "internal");
    e.append (bytes_all - bytes_total, (char) 0x5a);
    MC_CHECK (!memcmp (e.data (), t8_shmem_array_get_array (a), e.size ()), "%s: rank %d: the array differs from the gathered contributions", TYPENAME[ty], rank);
    for (int i = 0; i < total + tail; i++) {
      MC_CHECK (!memcmp (t8_shmem_array_index (a, i), e.data () + i * S, S), "%s: rank %d: entry %d", TYPENAME[ty], rank, i);
      mc::checked ("entries");
    }
    sc_MPI_Barrier (COMM);
    t8_shmem_array_destroy (&a);
    t8_shmem_finalize (COMM);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
}
/* ---- set-up, elements of any size, copies and equality ---- */
static void
plain ()
{
  static const std::vector<int> SZ = { 1, 2, 3, 4, 7, 8, 12, 24, 40 };
  int P = 1 + mc::choose (mc::thorough () ? 6 : 4, "procs");
  vmpi::Config cfg = choose_cfg (P, false);
  int ty = mc::choose (4, "type"), S = mc::pick (SZ, "element size"), n = 1 + mc::choose (4, "count"), S2 = mc::pick (SZ, "other size"), n2 = 1 + mc::choose (3, "other count");
  auto byte = [&] (int i) { return (char) (1 + i * 37 % 101); };
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    int node = cfg.ppn ? std::min (cfg.ppn, P - rank / cfg.ppn * cfg.ppn) : P;
    for (int again = 0; again < 2; again++) {
      int r = t8_shmem_init (COMM);
      sc_MPI_Comm intra, inter;
      sc_mpi_comm_get_node_comms (COMM, &intra, &inter);
      MC_CHECK (r == node, "call %d of the set-up returns %d, %d processes share the node", again, r, node);
      MC_CHECK (intra != sc_MPI_COMM_NULL && inter != sc_MPI_COMM_NULL, "no node communicators");
    }
    t8_shmem_set_type (COMM, TYPES[ty]);
    t8_shmem_array_t a, b, c;
    t8_shmem_array_init (&a, S, n, COMM);
    t8_shmem_array_init (&b, S, n, COMM);
    t8_shmem_array_init (&c, S2, n2, COMM);
    auto fill = [&] (t8_shmem_array_t x, bool zero) {
      if (t8_shmem_array_start_writing (x))
        for (size_t i = 0; i < t8_shmem_array_get_elem_count (x); i++)
          for (size_t k = 0; k < t8_shmem_array_get_elem_size (x); k++)
            ((char *) t8_shmem_array_index_for_writing (x, i))[k] = zero ? 0 : byte ((int) (i * t8_shmem_array_get_elem_size (x) + k));
      t8_shmem_array_end_writing (x);
    };
    fill (a, false);
    fill (b, true);
    fill (c, false);
    MC_CHECK (!t8_shmem_array_is_equal (a, b), "different arrays are reported equal");
    MC_CHECK (!t8_shmem_array_is_equal (a, c) == (S != S2 || n != n2), "rank %d: %d elements of size %d and %d of size %d: equality", rank, n, S, n2, S2);
    sc_MPI_Barrier (COMM);
    t8_shmem_array_copy (b, a);
    for (int i = 0; i < n * S; i++) {
      MC_CHECK (((const char *) t8_shmem_array_get_array (b))[i] == byte (i), "%s: rank %d: byte %d of the copy of %d elements of size %d", TYPENAME[ty], rank, i, n, S);
      mc::checked ("entries");
    }
    for (int i = 0; i < n; i++)
      MC_CHECK ((const char *) t8_shmem_array_index (b, i) == (const char *) t8_shmem_array_get_array (b) + i * S, "address of element %d", i);
    MC_CHECK (t8_shmem_array_is_equal (a, b) && t8_shmem_array_is_equal (b, a), "an array and its copy are reported different");
    sc_MPI_Barrier (COMM);
    /* any byte changed */
    for (int i = 0; i < n * S; i += 1 + n * S / 5) {
      if (t8_shmem_array_start_writing (b))
        ((char *) t8_shmem_array_index_for_writing (b, i / S))[i % S] ^= 64;
      t8_shmem_array_end_writing (b);
      MC_CHECK (!t8_shmem_array_is_equal (a, b), "arrays that differ in byte %d of %d are reported equal", i, n * S);
      sc_MPI_Barrier (COMM);
      if (t8_shmem_array_start_writing (b))
        ((char *) t8_shmem_array_index_for_writing (b, i / S))[i % S] ^= 64;
      t8_shmem_array_end_writing (b);
    }
    MC_CHECK (t8_shmem_array_is_equal (a, b), "restored arrays are reported different");
    sc_MPI_Barrier (COMM);
    t8_shmem_array_destroy (&a);
    t8_shmem_array_destroy (&b);
    t8_shmem_array_destroy (&c);
    t8_shmem_finalize (COMM);
    sc_MPI_Comm intra, inter;
    sc_mpi_comm_get_node_comms (COMM, &intra, &inter);
    MC_CHECK (intra == sc_MPI_COMM_NULL && inter == sc_MPI_COMM_NULL, "rank %d: the node communicators are still attached", rank);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
}
/* ---- binary search ---- */
static int calls, limit;
static int
find (t8_shmem_array_t a, const int guess, const t8_gloidx_t value)
{
  MC_CHECK (0 <= guess && guess < limit, "the search looks at entry %d of %d", guess, limit);
  MC_CHECK (++calls < 100, "the search does not end");
  t8_gloidx_t g = t8_shmem_array_get_gloidx (a, guess);
  return value == g ? 0 : value < g ? -1 : 1;
}
static void
searches ()
{
  int n = 1 + mc::choose (mc::thorough () ? 200 : 70, "length"), step = 1 + mc::choose (3, "step"), dup = mc::choose (3, "repeated"), part = mc::choose (2, "part");
  vmpi::run (1, vmpi::Config (), [&] (int) {
    t8_shmem_init (COMM);
    t8_shmem_set_type (COMM, T8_SHMEM_BEST_TYPE);
    t8_shmem_array_t a;
    t8_shmem_array_init (&a, sizeof (t8_gloidx_t), n, COMM);
    if (t8_shmem_array_start_writing (a))
      for (int i = 0; i < n; i++)
        t8_shmem_array_set_gloidx (a, i, (i / (dup + 1)) * step * 2 - n);
    t8_shmem_array_end_writing (a);
    limit = part ? (n + 1) / 2 : n; /* also only a first part of the array */
    for (t8_gloidx_t v = -n - 2; v <= 2 * n * step + 2; v++) {
      calls = 0;
      int r = t8_shmem_array_binary_search (a, v, limit, find);
      bool in = false;
      for (int i = 0; i < limit; i++)
        in |= t8_shmem_array_get_gloidx (a, i) == v;
      MC_CHECK (in ? r >= 0 && r < limit && t8_shmem_array_get_gloidx (a, r) == v : r == -1, "search for %lld in %d entries returns %d", (long long) v, limit, r);
      mc::checked ("searches");
    }
    t8_shmem_array_destroy (&a);
    t8_shmem_finalize (COMM);
  });
  mc::state (mc::hash_str (mc::describe ()));
}
/* ---- offsets ---- */
static std::vector<t8_gloidx_t>
table (const Ranges &R, int T)
{
  std::vector<t8_gloidx_t> o;
  for (int p = 0; p <= (int) R.size (); p++)
    o.push_back (entry (R, p, T));
  return o;
}
static std::vector<int>
owners (const Ranges &R, int t)
{
  std::vector<int> o;
  for (size_t p = 0; p < R.size (); p++)
    if (R[p].has (t))
      o.push_back ((int) p);
  return o;
}
static void
single (const Ranges &R, int T)
{
  const int P = (int) R.size ();
  auto tab = table (R, T);
  /* exact length: an access behind the table is visible to the sanitizer */
  std::unique_ptr<t8_gloidx_t[]> mem (new t8_gloidx_t[P + 1]);
  t8_gloidx_t *o = mem.get ();
  std::copy (tab.begin (), tab.end (), o);
  const std::string w = rstr (R);
#define OCHECK(cond, name) MC_CHECK (cond, "%s of %s", name, w.c_str ())
  for (int p = 0; p < P; p++) {
    OCHECK (t8_offset_num_trees (p, o) == R[p].n && !t8_offset_empty (p, o) == (R[p].n > 0), "number of trees");
    OCHECK (t8_offset_first (p, o) == R[p].first && t8_offset_last (p, o) == R[p].first + R[p].n - 1, "first and last tree");
    OCHECK (t8_offset_first_tree_to_entry (R[p].first, R[p].n && R[p].shared) == o[p], "entry");
    int nx = p + 1;
    while (nx < P && !R[nx].n)
      nx++;
    OCHECK (t8_offset_next_nonempty_rank (p, P, o) == nx, "next nonempty rank");
    for (int t = -1; t <= T; t++)
      OCHECK (!t8_offset_in_range (t, p, o) == !R[p].has (t), "in range");
    mc::checked ("offset entries");
  }
  for (int t = 0; t < T; t++) {
    auto own = owners (R, t);
    auto is_owner = [&] (int q) { return std::find (own.begin (), own.end (), q) != own.end (); };
    OCHECK (is_owner (t8_offset_any_owner_of_tree (P, t, o)), "some owner");
    for (int s = 0; s < P; s++)
      OCHECK (is_owner (t8_offset_any_owner_of_tree_ext (P, s, t, o)), "some owner from a start");
    int some = -1;
    OCHECK (t8_offset_first_owner_of_tree (P, t, o, &some) == own.front () && is_owner (some), "first owner");
    some = -1;
    OCHECK (t8_offset_last_owner_of_tree (P, t, o, &some) == own.back () && is_owner (some), "last owner");
    for (size_t i = 0; i < own.size (); i++) {
      int q = own[i];
      some = q;
      OCHECK (t8_offset_first_owner_of_tree (P, t, o, &some) == own.front () && some == q, "first owner with a hint");
      OCHECK (t8_offset_last_owner_of_tree (P, t, o, &some) == own.back () && some == q, "last owner with a hint");
      OCHECK (t8_offset_next_owner_of_tree (P, t, o, q) == (i + 1 < own.size () ? own[i + 1] : -1), "next owner");
      OCHECK (t8_offset_prev_owner_of_tree (P, t, o, q) == (i ? own[i - 1] : -1), "previous owner");
    }
    sc_array_t l;
    sc_array_init (&l, sizeof (int));
    t8_offset_all_owners_of_tree (P, t, o, &l);
    bool ok = l.elem_count == own.size ();
    for (size_t i = 0; ok && i < own.size (); i++)
      ok = *(int *) sc_array_index (&l, i) == own[i];
    sc_array_reset (&l);
    OCHECK (ok, "all owners");
    mc::checked ("trees");
  }
}
/* which process sends which tree to whom: a process that has a tree keeps it, any other new owner gets it from the
 * smallest old owner */
static void
pairs (const Ranges &A, const Ranges &B, int T)
{
  const int P = (int) A.size ();
  auto ta = table (A, T), tb = table (B, T);
  std::unique_ptr<t8_gloidx_t[]> ma (new t8_gloidx_t[P + 1]), mb (new t8_gloidx_t[P + 1]);
  std::copy (ta.begin (), ta.end (), ma.get ());
  std::copy (tb.begin (), tb.end (), mb.get ());
  const t8_gloidx_t *a = ma.get (), *b = mb.get ();
  std::vector<std::vector<int>> to (P, std::vector<int> (P, 0));
  for (int t = 0; t < T; t++)
    for (int q = 0; q < P; q++) {
      int from = !B[q].has (t) ? -1 : A[q].has (t) ? q : owners (A, t).front ();
      if (from >= 0)
        to[from][q]++;
      for (int p = 0; p < P; p++) {
        MC_CHECK (!t8_offset_sendstree (p, q, t, a, b) == (from != p), "from %s to %s: tree %d is sent by %d to %d, reported for %d", rstr (A).c_str (), rstr (B).c_str (), t, from, q, p);
        mc::checked ("sends");
      }
    }
  for (int p = 0; p < P; p++) {
    bool any = false;
    for (int q = 0; q < P; q++) {
      any |= to[p][q] > 0;
      MC_CHECK (!t8_offset_sendsto (p, q, a, b) == !to[p][q], "from %s to %s: %d sends %d trees to %d, reported: %d", rstr (A).c_str (), rstr (B).c_str (), p, to[p][q], q, t8_offset_sendsto (p, q, a, b));
    }
    MC_CHECK (!t8_offset_nosend (p, P, a, b) == any, "from %s to %s: %d sends %s", rstr (A).c_str (), rstr (B).c_str (), p, any ? "something, but nothing is reported" : "nothing");
    for (int s = 0; s < P; s++)
      for (int e = s - 1; e < P; e++) {
        int n = 0;
        for (int i = s; i <= e; i++)
          n += to[i][p] > 0;
        MC_CHECK (t8_offset_range_send (s, e, p, a, b) == n, "from %s to %s: senders %d..%d to %d", rstr (A).c_str (), rstr (B).c_str (), s, e, p);
      }
  }
}
static void
offsets ()
{
  int P = 1 + mc::choose (mc::thorough () ? 6 : 5, "procs"), T = mc::choose (mc::thorough () ? 6 : 5, "trees");
  int TT = T + 1, lim = mc::thorough () ? 9 : 8;
  if (P + TT > lim)
    mc::prune ();
  auto &all = all_ranges (TT, P);
  const Ranges &A = choose_ranges (TT, P);
  single (A, TT);
  for (auto &B : all) {
    pairs (A, B, TT);
    mc::transition ();
  }
  mc::state (mc::hash_str (mc::describe ()));
}
/* a table made at random: every sequence of random numbers */
static std::vector<int> rnd;
static std::map<int, size_t> rnd_pos;
static bool rnd_on = false;
extern "C" void
srand (unsigned)
{
  rnd_pos[vmpi::rank ()] = 0;
}
extern "C" int
rand ()
{
  static unsigned long seq = 1;
  if (!rnd_on)
    return (int) ((seq = seq * 6364136223846793005ul + 1442695040888963407ul) >> 33);
  size_t &i = rnd_pos[vmpi::rank ()];
  if (i == rnd.size ())
    rnd.push_back (mc::choose (12, "random number")); /* all residues modulo 1, 2, 3, 4 and 6 */
  return rnd[i++];
}
static void
made_random ()
{
  static const int PT[][2] = { { 1, 1 }, { 1, 3 }, { 2, 1 }, { 2, 2 }, { 2, 3 }, { 2, 4 }, { 3, 1 }, { 3, 2 }, { 3, 3 }, { 3, 5 }, { 3, 6 }, { 4, 2 }, { 4, 5 } };
  auto pt = PT[mc::choose (mc::thorough () ? 13 : 11, "procs and trees")];
  int P = pt[0], T = pt[1], shared = mc::choose (2, "shared");
  vmpi::Config cfg;
  cfg.ppn = mc::choose (2, "nodes") ? P : 1;
  rnd.clear ();
  rnd_on = true;
  vmpi::run (P, cfg, [&] (int rank) {
    t8_shmem_init (COMM);
    t8_shmem_set_type (COMM, T8_SHMEM_BEST_TYPE);
    t8_shmem_array_t o = t8_cmesh_offset_random (COMM, T, shared, 17);
    MC_CHECK ((int) t8_shmem_array_get_elem_count (o) == P + 1, "length of the table");
    bool valid = false;
    for (auto &R : all_ranges (T, P, shared)) {
      bool eq = true;
      for (int p = 0; p <= P; p++)
        eq = eq && t8_shmem_array_get_gloidx (o, p) == entry (R, p, T);
      valid = valid || eq;
    }
    std::string txt;
    for (int p = 0; p <= P; p++)
      txt += " " + std::to_string (t8_shmem_array_get_gloidx (o, p));
    MC_CHECK (valid, "rank %d: the random table%s is not valid for %d trees", rank, txt.c_str (), T);
    mc::checked ("random table");
    t8_shmem_array_destroy (&o);
    t8_shmem_finalize (COMM);
  });
  rnd_on = false;
  mc::state (mc::hash_str (mc::describe ()));
}
/* tables made by the library, and the report that a table is valid */
static void
made ()
{
  int P = 1 + mc::choose (5, "procs"), T = 1 + mc::choose (5, "trees"), p0 = mc::choose (P, "owner");
  vmpi::Config cfg = choose_cfg (P, true);
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_shmem_init (COMM);
    t8_shmem_set_type (COMM, T8_SHMEM_BEST_TYPE);
    t8_shmem_array_t o = t8_cmesh_offset_concentrate (p0, COMM, T);
    MC_CHECK ((int) t8_shmem_array_get_elem_count (o) == P + 1, "length of the table");
    for (int p = 0; p <= P; p++)
      MC_CHECK (t8_shmem_array_get_gloidx (o, p) == (p > p0 ? T : 0), "rank %d: entry %d of the concentrated table is %lld", rank, p, (long long) t8_shmem_array_get_gloidx (o, p));
#if T8_ENABLE_DEBUG
    MC_CHECK (t8_offset_consistent (P, o, T), "the concentrated table is reported invalid");
    sc_MPI_Barrier (COMM);
    if (P + T <= 6)
      for (auto &R : all_ranges (T, P)) {
        if (t8_shmem_array_start_writing (o))
          for (int p = 0; p <= P; p++)
            t8_shmem_array_set_gloidx (o, p, entry (R, p, T));
        t8_shmem_array_end_writing (o);
        MC_CHECK (t8_offset_consistent (P, o, T), "%s is reported invalid", rstr (R).c_str ());
        MC_CHECK (!t8_offset_consistent (P, o, T + 1), "%s is reported valid for %d trees", rstr (R).c_str (), T + 1);
        sc_MPI_Barrier (COMM);
      }
#endif
    t8_shmem_array_destroy (&o);
    t8_shmem_finalize (COMM);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
}
static void
body ()
{
  switch (mc::choose (7, "part")) {
  case 0:
    histories (false);
    break;
  case 6:
    plain ();
    break;
  case 5:
    histories (true);
    break;
  case 1:
    types ();
    break;
  case 2:
    searches ();
    break;
  case 3:
    offsets ();
    break;
  default:
    if (mc::choose (2, "random"))
      made_random ();
    else
      made ();
  }
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  cx::init_packages ();
  mc::Options o;
  o.property = "C21";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
