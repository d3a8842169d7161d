/* C18: a committed coarse mesh is exactly what was specified. */
#include "cx.hxx"
#include <t8_cmesh/t8_cmesh_helpers.h>
using namespace cx;
int cx::PKG[2];

static Spec
spec_of (const Mesh &m)
{
  Spec s;
  s.m = m;
  s.at.resize (m.cls.size ());
  return s;
}
/* every order of the specifying calls */
static void
orders ()
{
  static const std::vector<std::string> names = { "quad2_flip", "tri_quad_tri", "tet2_rot", "hex_prism", "quad_periodic", "line3", "disconnected", "pyra2_tri" };
  Spec s = spec_of (choose_mesh (names));
  int T = s.T ();
  int variant = mc::choose (3, "attributes");
  bool persist = mc::choose (2, "persist");
  s.vertices = variant == 1;
  if (variant == 2)
    s.at[T - 1] = attr_set (T - 1, 3);
  else if (variant == 0)
    s.at[0] = attr_set (0, 4);
  struct Op {
    int kind, a, b;
  };
  std::vector<Op> ops;
  for (int t = 0; t < T; t++)
    ops.push_back ({ 0, t, 0 });
  for (size_t j = 0; j < s.m.joins.size (); j++)
    ops.push_back ({ 1, (int) j, 0 });
  for (int t = 0; t < T; t++)
    for (size_t k = 0; k < s.at[t].size (); k++)
      ops.push_back ({ 2, t, (int) k });
  if (s.vertices)
    for (int t = 0; t < std::min (T, 2); t++)
      ops.push_back ({ 3, t, 0 });
  if (s.vertices)
    for (int t = 2; t < T; t++)
      mc::prune ();
  size_t lim = (size_t) mc::q (7, 8);
  bool fixed = ops.size () > lim; /* then the first calls are given in order */
  std::vector<Op> seq;
  if (fixed) {
    seq.assign (ops.begin (), ops.begin () + (ops.size () - lim));
    ops.erase (ops.begin (), ops.begin () + (ops.size () - lim));
  }
  bool swap = mc::choose (2, "swap_joins");
  long bal = mem_balance ();
  t8_cmesh_t cm;
  t8_cmesh_init (&cm);
  auto run_op = [&] (const Op &o) {
    if (o.kind == 0)
      set_class (cm, s, o.a);
    else if (o.kind == 1)
      set_join (cm, s.m.joins[o.a], swap);
    else if (o.kind == 2)
      set_attr (cm, o.a, s.at[o.a][o.b], persist);
    else
      set_vertices (cm, s, o.a);
    mc::transition ();
  };
  for (auto &o : seq)
    run_op (o);
  while (!ops.empty ()) {
    int i = mc::choose ((int) ops.size (), "next");
    run_op (ops[i]);
    ops.erase (ops.begin () + i);
  }
  t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
  check_cmesh (cm, s, {}, 0, "specified in some order");
  t8_cmesh_destroy (&cm);
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}
/* every gluing of one or two trees */
static void
gluings ()
{
  int ca = 1 + mc::choose (7, "class_a"), cb = 1 + mc::choose (7, "class_b");
  if (DIM[ca] != DIM[cb])
    mc::prune ();
  bool self = ca == cb && mc::choose (2, "self");
  int fa = mc::choose (NF[ca], "face_a"), fb = mc::choose (NF[cb], "face_b");
  if (NFV[ca][fa] != NFV[cb][fb] || (self && fa == fb))
    mc::prune ();
  int o = mc::choose (NFV[ca][fa], "orient");
  Spec s = spec_of (self ? mk ("self", { ca }, { { 0, 0, fa, fb, o } }) : mk ("pair", { ca, cb }, { { 0, 1, fa, fb, o } }));
  int order = mc::choose (4, "order");
  long bal = mem_balance ();
  t8_cmesh_t cm;
  t8_cmesh_init (&cm);
  specify (cm, s, order);
  t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
  check_cmesh (cm, s, {}, 0, "gluing");
  t8_cmesh_destroy (&cm);
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}
/* attribute sets on every tree; strings and index arrays */
static void
attributes ()
{
  static const std::vector<std::string> names = { "line", "quad2_flip", "tri_quad_tri", "hex_pyra_tet", "disconnected" };
  Spec s = spec_of (choose_mesh (names));
  s.vertices = mc::choose (2, "vertices");
  int order = mc::choose (4, "order");
  bool persist = mc::choose (2, "persist");
  for (int t = 0; t < s.T (); t++)
    s.at[t] = attr_set (t, mc::choose (NATTR, "set"));
  bool special = mc::choose (2, "strings");
  std::vector<t8_gloidx_t> arr { 5, -7, 1ll << 40 };
  long bal = mem_balance ();
  t8_cmesh_t cm;
  t8_cmesh_init (&cm);
  specify (cm, s, order, persist);
  if (special) {
    char str[] = "a string attribute";
    t8_cmesh_set_attribute_string (cm, s.T () - 1, PKG[1], 77, str);
    memset (str, 'x', sizeof (str) - 1);
    std::vector<t8_gloidx_t> tmp = arr;
    t8_cmesh_set_attribute_gloidx_array (cm, 0, PKG[0], 78, persist ? arr.data () : tmp.data (), 3, persist);
    tmp.assign (3, 0);
  }
  t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
  check_cmesh (cm, s, {}, 0, "attributes");
  if (special) {
    const char *str = (const char *) t8_cmesh_get_attribute (cm, PKG[1], 77, s.T () - 1);
    MC_CHECK (str && !strcmp (str, "a string attribute"), "string attribute is '%s'", str ? str : "(null)");
    t8_gloidx_t *g = t8_cmesh_get_attribute_gloidx_array (cm, PKG[0], 78, 0, 3);
    MC_CHECK (g && g[0] == arr[0] && g[1] == arr[1] && g[2] == arr[2], "index array attribute");
  }
  t8_cmesh_destroy (&cm);
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}
/* a mesh that is partitioned from the start, given by its range or by the table, each rank telling all or only what it must */
static void
partitioned ()
{
  static const std::vector<std::string> names = { "line3", "quad2_flip", "tri_quad_tri", "quad3_L", "hex_pyra_tet", "quad4_ring", "disconnected", "line_ring2", "quad_periodic", "tri3_fan" };
  Spec s = spec_of (choose_mesh (names));
  int T = s.T ();
  int P = 1 + mc::choose (mc::q (T > 3 ? 3 : 4, 5), "ranks");
  Ranges R = choose_ranges (T, P);
  int how = mc::choose (4, "given"); /* range, range with the face knowledge kept, table, range with empty processes as far back as possible */
  bool minimal = mc::choose (2, "minimal");
  int order = mc::choose (P == 1 ? 4 : 2, "order") * (P == 1 ? 1 : 3);
  s.vertices = mc::choose (2, "vertices");
  int na = mc::q (T > 3 ? 3 : P > 2 ? 4 : 5, 6);
  for (int t = 0; t < T; t++)
    s.at[t] = attr_set (t, mc::choose (t == 0 || (t == 1 && T < 4) ? na : mc::q (2, 3), "set"));
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    std::set<int> keep;
    if (minimal) {
      keep = ghosts_of (s.m, R[rank]);
      for (int t = R[rank].first; t < R[rank].first + R[rank].n; t++)
        keep.insert (t);
      if (keep.empty ())
        keep.insert (-1);
    }
    specify (cm, s, order, false, keep);
    if (how != 2)
      t8_cmesh_set_partition_range (cm, how == 1 ? -1 : 3, entry (R, rank, T), how == 3 && R[rank].n == 0 ? -1 : R[rank].first + R[rank].n - 1);
    else
      t8_cmesh_set_partition_offsets (cm, make_offsets (R, T));
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    check_cmesh (cm, s, R, rank, "partitioned from the start");
    t8_cmesh_destroy (&cm);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
}
/* joining trees by their vertex coordinates */
static void
by_vertices ()
{
  int src = mc::choose (2, "source");
  Mesh m;
  if (src == 0) {
    int ca = 1 + mc::choose (7, "class_a"), cb = 1 + mc::choose (7, "class_b");
    if (DIM[ca] != DIM[cb])
      mc::prune ();
    int fa = mc::choose (NF[ca], "face_a"), fb = mc::choose (NF[cb], "face_b");
    if (NFV[ca][fa] != NFV[cb][fb])
      mc::prune ();
    m = mk ("pair", { ca, cb }, { { 0, 1, fa, fb, mc::choose (NFV[ca][fa], "orient") } });
  }
  else {
    int i = mc::choose ((int) catalogue ().size (), "mesh");
    m = catalogue ()[i];
    if (m.dim () == 0)
      mc::prune ();
  }
  int T = (int) m.cls.size ();
  int layout = mc::choose (6, "coordinates"), both = mc::choose (2, "both"), api = mc::choose (3, "interface");
  int neg = mc::choose (2, "negative");
  /* corners that are identified by the gluing */
  std::vector<int> uf (8 * T);
  for (int i = 0; i < 8 * T; i++)
    uf[i] = i;
  std::function<int (int)> find = [&] (int x) { return uf[x] == x ? x : uf[x] = find (uf[x]); };
  for (int t = 0; t < T; t++)
    for (int f = 0; f < NF[m.cls[t]]; f++)
      if (m.nb[t][f].t >= 0)
        for (int i = 0; i < NFV[m.cls[t]][f]; i++) {
          int u = m.nb[t][f].t, g = m.nb[t][f].f;
          uf[find (8 * t + FV[m.cls[t]][f][i])] = find (8 * u + FV[m.cls[u]][g][m.nb[t][f].map[i]]);
        }
  for (int t = 0; t < T; t++) {
    std::set<int> c;
    for (int i = 0; i < NV[m.cls[t]]; i++)
      c.insert (find (8 * t + i));
    if ((int) c.size () != NV[m.cls[t]])
      mc::prune (); /* a cell that meets itself (periodic): not detected by this function */
  }
  /* expected connections: faces with the same set of corners */
  std::map<std::set<int>, std::vector<std::pair<int, int>>> F;
  for (int t = 0; t < T; t++)
    for (int f = 0; f < NF[m.cls[t]]; f++) {
      std::set<int> c;
      for (int i = 0; i < NFV[m.cls[t]][f]; i++)
        c.insert (find (8 * t + FV[m.cls[t]][f][i]));
      F[c].push_back ({ t, f });
    }
  Spec s = spec_of (mk ("expected", m.cls, {}));
  std::vector<Join> J;
  for (auto &[c, v] : F) {
    if (v.size () > 2)
      mc::prune ();
    if (v.size () < 2)
      continue;
    auto [t, f] = v[0];
    auto [u, g] = v[1];
    bool amain = class_rank (m.cls[t]) < class_rank (m.cls[u]) || (m.cls[t] == m.cls[u] && f <= g);
    int at = amain ? t : u, af = amain ? f : g, bt = amain ? u : t, bf = amain ? g : f;
    int o = -1;
    for (int i = 0; i < NFV[m.cls[bt]][bf]; i++)
      if (find (8 * at + FV[m.cls[at]][af][0]) == find (8 * bt + FV[m.cls[bt]][bf][i]))
        o = i;
    J.push_back ({ t, u, f, g, o });
  }
  s.m.joins = J;
  s.m.nb.assign (T, {});
  for (auto &j : J) {
    s.m.nb[j.t0][j.f0].t = j.t1, s.m.nb[j.t0][j.f0].f = j.f1;
    s.m.nb[j.t1][j.f1].t = j.t0, s.m.nb[j.t1][j.f1].f = j.f0;
  }
  /* a coordinate for every corner class */
  std::vector<double> V (T * T8_ECLASS_MAX_CORNERS * 3, 0.);
  std::map<int, int> num;
  for (int t = 0; t < T; t++)
    for (int i = 0; i < NV[m.cls[t]]; i++) {
      int c = num.insert ({ find (8 * t + i), (int) num.size () }).first->second;
      double x[3] = { (double) (c % 3), (double) (c / 3 % 3), (double) (c / 9) };
      switch (layout) {
      case 0: /* a grid; many faces have equal coordinate sums */
        break;
      case 1: /* only the last coordinate differs */
        x[0] = x[1] = 0;
        x[2] = c;
        break;
      case 2: /* a tiny mesh far away from the origin */
        for (auto &y : x)
          y = 1000 + y / 1024;
        break;
      case 3: /* thirds: not representable exactly */
        for (auto &y : x)
          y /= 3;
        break;
      case 5: /* the grid, with coinciding corners that differ by rounding from tree to tree */
        for (auto &y : x)
          if (y > 0 && t % 2)
            y = std::nextafter (y, neg ? 1e9 : 0.);
        break;
      default: /* only the second coordinate differs, large values */
        x[0] = 1e6;
        x[1] = 1e6 * c;
        x[2] = -1e6;
      }
      for (int d = 0; d < 3; d++)
        V[3 * (T8_ECLASS_MAX_CORNERS * t + i) + d] = neg ? -x[d] : x[d];
    }
  long bal = mem_balance ();
  std::vector<t8_eclass_t> ec;
  for (int c : m.cls)
    ec.push_back ((t8_eclass_t) c);
  t8_cmesh_t cm = nullptr;
  int *conn = nullptr;
  if (api != 0) {
    t8_cmesh_init (&cm);
    t8_cmesh_disable_negative_volume_check (cm);
    for (int i = 0; i < T; i++) {
      int t = api == 2 ? T - 1 - i : i;
      t8_cmesh_set_tree_class (cm, t, ec[t]);
      if (api == 2)
        t8_cmesh_set_tree_vertices (cm, t, &V[3 * T8_ECLASS_MAX_CORNERS * t], NV[m.cls[t]]);
    }
  }
  if (api == 2)
    t8_cmesh_set_join_by_stash (cm, both ? &conn : nullptr, both);
  else
    t8_cmesh_set_join_by_vertices (cm, T, ec.data (), V.data (), api == 0 || both ? &conn : nullptr, both);
  if (conn) {
    for (int t = 0; t < T; t++)
      for (int f = 0; f < T8_ECLASS_MAX_FACES; f++) {
        int *c = conn + 3 * (T8_ECLASS_MAX_FACES * t + f);
        const Nb *b = f < NF[m.cls[t]] ? &s.m.nb[t][f] : nullptr;
        bool is = b && b->t >= 0;
        if (is && !both && c[0] < 0) { /* known from the other side only */
          int *o = conn + 3 * (T8_ECLASS_MAX_FACES * b->t + b->f);
          MC_CHECK (o[0] == t && o[1] == f, "join by vertices: tree %d face %d: connection to tree %d face %d not found", t, f, b->t, b->f);
          continue;
        }
        MC_CHECK (is ? c[0] == b->t && c[1] == b->f && c[2] == orient_of (s.m, t, f) : c[0] == -1, "join by vertices: tree %d face %d: found tree %d face %d orientation %d, expected %d %d %d", t, f, c[0], c[1],
                  c[2], is ? b->t : -1, is ? b->f : -1, is ? orient_of (s.m, t, f) : -1);
        mc::checked ("joins by vertices");
      }
    T8_FREE (conn);
  }
  if (cm) {
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    for (int t = 0; t < T; t++)
      for (int f = 0; f < NF[m.cls[t]]; f++) {
        int df = -1, o = -1, n = t8_cmesh_get_face_neighbor (cm, t, f, &df, &o);
        const Nb &b = s.m.nb[t][f];
        MC_CHECK (b.t < 0 ? n < 0 : n == b.t && df == b.f && o == orient_of (s.m, t, f), "mesh joined by vertices: tree %d face %d: neighbour %d face %d orientation %d, expected %d %d %d", t, f, n, df, o, b.t, b.f,
                  orient_of (s.m, t, f));
      }
    t8_cmesh_destroy (&cm);
  }
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}
/* faces with different numbers of corners whose coordinates add up to the same key (integer coordinates between
 * 0 and 1e9): they must neither be joined nor hide the face that does match */
static void
join_mixed_faces ()
{
  int place = mc::choose (3, "place"), both = mc::choose (2, "both"), shift = mc::choose (24, "sum"), wit = mc::choose (2, "witness");
  std::vector<std::array<double, 3>> A, B, T;
  for (int i = 0; i < 8; i++) {
    A.push_back ({ (double) (i & 1), (double) (i >> 1 & 1), (double) (i >> 2) });
    B.push_back ({ i & 1 ? 1e9 : 1., (double) (i >> 1 & 1), (double) (i >> 2) });
  }
  /* the triangle opposite to the last corner (face 3) has the sum of coordinates shift + 2 */
  T = { { shift + 1., 0, 0 }, { 0, 1, 0 }, { 0, 0, 0 }, { 0, 3, 1e8 } };
  if (wit)
    T = { { 0, 2, (double) shift + 1 }, { 0, 0, 0 }, { 7, 0, 0 }, { 0, shift + 1., 0 } };
  struct El
  {
    t8_eclass_t c;
    std::vector<std::array<double, 3>> v;
    int hex;
  };
  std::vector<El> E = { { T8_ECLASS_HEX, A, 0 }, { T8_ECLASS_HEX, B, 1 } };
  E.insert (E.begin () + place, { T8_ECLASS_TET, T, -1 });
  std::vector<double> V (3 * 8 * 3, 0.);
  std::vector<t8_eclass_t> ec;
  int a = -1, b = -1;
  for (int t = 0; t < 3; t++) {
    ec.push_back (E[t].c);
    if (E[t].hex >= 0)
      (E[t].hex ? b : a) = t;
    for (size_t i = 0; i < E[t].v.size (); i++)
      for (int d = 0; d < 3; d++)
        V[3 * (8 * t + i) + d] = E[t].v[i][d];
  }
  int *conn = nullptr;
  t8_cmesh_set_join_by_vertices (nullptr, 3, ec.data (), V.data (), &conn, both);
  for (int t = 0; t < 3; t++)
    for (int f = 0; f < NF[ec[t]]; f++) {
      int *c = conn + 3 * (T8_ECLASS_MAX_FACES * t + f);
      bool first = t == a && f == 1, second = t == b && f == 0;
      int et = first ? b : second ? a : -1, ef = first ? 0 : 1;
      bool open = !first && !second;
      if (!open && !both && t == std::min (a, b))
        open = true; /* reported by the other side only */
      MC_CHECK (open ? c[0] == -1 : c[0] == et && c[1] == ef && c[2] == 0, "join by vertices, faces with 3 and 4 corners and equal sums: tree %d face %d: found tree %d face %d orientation %d, expected tree %d", t,
                f, c[0], c[1], c[2], open ? -1 : et);
      mc::checked ("joins by vertices");
    }
  T8_FREE (conn);
}
/* the equality test: specifications that agree in everything, or differ in one place */
static void
equality ()
{
  static const std::vector<std::string> names = { "quad2_flip", "tri_quad_tri", "hex2_rot", "tet_prism" };
  Spec a = spec_of (choose_mesh (names));
  int base = mc::choose (NATTR, "set");
  a.at[a.T () - 1] = attr_set (a.T () - 1, base);
  int diff = mc::choose (5, "difference");
  Spec b = a;
  switch (diff) {
  case 0:
    break;
  case 1: /* another orientation */
    b.m.joins[0].orient = (b.m.joins[0].orient + 1) % NFV[b.m.cls[b.m.joins[0].t0]][b.m.joins[0].f0];
    break;
  case 2: /* a missing connection */
    b.m.joins.erase (b.m.joins.begin ());
    break;
  case 3: /* one more tree */
    b.m.cls.push_back (b.m.cls[0]);
    b.at.push_back ({});
    break;
  case 4: /* a tree without connections of another class */
    for (auto *x : { &a, &b }) {
      x->m.cls.push_back (a.m.dim () == 2 ? T : E);
      x->at.push_back ({});
    }
    b.m.cls.back () = a.m.dim () == 2 ? Q : H;
  }
  bool committed = true, swap = mc::choose (2, "swap"); /* before commit the library has not defined equality */
  long bal = mem_balance ();
  t8_cmesh_t A, B;
  t8_cmesh_init (&A);
  t8_cmesh_init (&B);
  specify (A, a, 0, true);
  specify (B, b, committed ? mc::choose (4, "order") : 0, false);
  if (committed) {
    t8_cmesh_commit (A, sc_MPI_COMM_WORLD);
    t8_cmesh_commit (B, sc_MPI_COMM_WORLD);
  }
  int eq = swap ? t8_cmesh_is_equal (B, A) : t8_cmesh_is_equal (A, B);
  MC_CHECK (!!eq == (diff == 0), "equality of %s meshes that %s: %d", committed ? "committed" : "uncommitted", diff ? "differ" : "agree", eq);
  MC_CHECK (t8_cmesh_is_equal (A, A), "a mesh differs from itself");
  t8_cmesh_destroy (&A);
  t8_cmesh_destroy (&B);
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
}
static void
body ()
{
  switch (mc::choose (7, "part")) {
  case 0:
    orders ();
    break;
  case 1:
    gluings ();
    break;
  case 2:
    attributes ();
    break;
  case 3:
    partitioned ();
    break;
  case 4:
    by_vertices ();
    break;
  case 5:
    equality ();
    break;
  default:
    join_mixed_faces ();
  }
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  cx::init_packages ();
  mc::Options o;
  o.property = "C18";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
