/* C20: the maps between trees and global vertices are inverse to each other. */
#include "cx.hxx"
#include <t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.h>
#include <t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.hxx>
using namespace cx;
int cx::PKG[2];

typedef std::vector<std::vector<t8_gloidx_t>> Numbering; /* per tree and corner */
typedef std::map<t8_gloidx_t, std::vector<std::pair<int, int>>> Inverse;

static const std::vector<std::vector<int>> &
shapes ()
{
  static std::vector<std::vector<int>> s = { { V }, { V, V, V }, { V, V, V, V, V, V }, { L }, { L, L }, { L, L, L }, { L, L, L, L }, { Q }, { T }, { T, T }, { T, Q }, { Q, Q }, { H }, { E }, { E, E }, { P }, { Y } };
  if (mc::thorough () && s.size () == 17)
    for (auto &x : std::vector<std::vector<int>> { { T, T, T }, { E, Y }, { Y, E }, { L, L, L, L, L }, { E, P }, { Q, T, T }, { V, V, V, V, V, V, V, V } })
      s.push_back (x);
  return s;
}
static const int NVALUES = 6;
/* vertex numbers: any injective choice of non-negative numbers is allowed */
static t8_gloidx_t
value (int how, int i, int n)
{
  switch (how) {
  case 0:
    return i;
  case 1:
    return n - i + 3;
  case 2:
    return 7 * (t8_gloidx_t) i + 100;
  case 3:
    return (t8_gloidx_t) i << 33; /* agree in the lower half */
  case 4:
    return std::numeric_limits<t8_gloidx_t>::max () - i;
  default:
    return ((t8_gloidx_t) (i % 2) << 32) + (i / 2) * 13; /* differ in the upper half only */
  }
}
static Numbering
choose_numbering (const std::vector<int> &cls, int how)
{
  int n = 0, used = 0;
  for (int c : cls)
    n += NV[c];
  Numbering N (cls.size ());
  for (size_t t = 0; t < cls.size (); t++)
    for (int v = 0; v < NV[cls[t]]; v++) {
      int k = mc::choose (used + 1, "vertex");
      used = std::max (used, k + 1);
      N[t].push_back (value (how, k, n));
    }
  return N;
}
static Inverse
invert (const Numbering &N)
{
  Inverse I;
  for (size_t t = 0; t < N.size (); t++)
    for (size_t v = 0; v < N[t].size (); v++)
      I[N[t][v]].push_back ({ (int) t, (int) v });
  return I;
}
template <class C>
static void
check_inverse (const C &c, const Inverse &I, const char *what)
{
  size_t n = 0;
  for (auto &[g, l] : c) {
    auto it = I.find (g);
    MC_CHECK (it != I.end (), "%s: vertex %lld is listed and belongs to no corner", what, (long long) g);
    MC_CHECK (l.size () == it->second.size (), "%s: vertex %lld has %zu corners, expected %zu", what, (long long) g, l.size (), it->second.size ());
    for (size_t i = 0; i < l.size (); i++)
      MC_CHECK (l[i].first == it->second[i].first && l[i].second == it->second[i].second, "%s: vertex %lld: corner %zu is (%d,%d), expected (%d,%d)", what, (long long) g, i, (int) l[i].first, l[i].second,
                it->second[i].first, it->second[i].second);
    n++;
    mc::checked ("vertices");
  }
  MC_CHECK (n == I.size (), "%s: %zu vertices are listed, expected %zu", what, n, I.size ());
}
static void
check_mesh (t8_cmesh_t cm, const Numbering &N, const Inverse &I)
{
  MC_CHECK (t8_cmesh_uses_vertex_connectivity (cm), "the mesh has no vertex connectivity");
  MC_CHECK (t8_cmesh_get_num_global_vertices (cm) == (t8_gloidx_t) I.size () && t8_cmesh_get_num_local_vertices (cm) == (t8_locidx_t) I.size (), "%lld global and %d local vertices, expected %zu",
            (long long) t8_cmesh_get_num_global_vertices (cm), t8_cmesh_get_num_local_vertices (cm), I.size ());
  auto *c = cm->vertex_connectivity;
  MC_CHECK (c->get_state () == t8_cmesh_vertex_connectivity::state::VALID, "state of the connectivity");
  MC_CHECK (c->get_global_number_of_vertices () == (t8_gloidx_t) I.size () && c->get_local_number_of_vertices () == (t8_gloidx_t) I.size (), "numbers of the connectivity");
  for (size_t t = 0; t < N.size (); t++) {
    int n = -1;
    const t8_gloidx_t *g = t8_cmesh_get_global_vertices_of_tree (cm, (int) t, &n);
    MC_CHECK (n == (int) N[t].size () && g == t8_cmesh_get_global_vertices_of_tree (cm, (int) t, nullptr), "tree %zu has %d vertices", t, n);
    auto s1 = c->tree_to_vertices ((int) t), s2 = c->get_global_vertices_of_tree ((int) t);
    MC_CHECK (s1.size () == N[t].size () && s2.size () == N[t].size (), "tree %zu: %zu, %zu vertices", t, s1.size (), s2.size ());
    for (int v = 0; v < n; v++) {
      t8_gloidx_t e = N[t][v];
      MC_CHECK (g[v] == e && s1[v] == e && s2[v] == e && t8_cmesh_get_global_vertex_of_tree (cm, (int) t, v) == e && c->treevertex_to_vertex ((int) t, v) == e && c->get_global_vertex_of_tree ((int) t, v) == e,
                "tree %zu corner %d: vertex %lld, expected %lld", t, v, (long long) g[v], (long long) e);
      mc::checked ("corners");
    }
  }
  for (auto &[v, l] : I) {
    MC_CHECK (t8_cmesh_get_num_trees_at_vertex (cm, v) == (int) l.size () && c->get_num_trees_at_vertex (v) == (int) l.size (), "vertex %lld has %d corners, expected %zu", (long long) v,
              t8_cmesh_get_num_trees_at_vertex (cm, v), l.size ());
    auto &a = c->vertex_to_trees (v);
    auto &b = c->get_tree_list_of_vertex (v);
    MC_CHECK (&a == &b && a.size () == l.size (), "lists of vertex %lld", (long long) v);
  }
  check_inverse (*c, I, "vertex connectivity of the mesh");
}
static t8_cmesh_t
make (const std::vector<int> &cls, const Numbering *N, int order)
{
  t8_cmesh_t cm;
  int T = (int) cls.size ();
  t8_cmesh_init (&cm);
  for (int i = 0; i < T; i++) {
    int t = order & 1 ? T - 1 - i : i;
    if (!(order & 2))
      t8_cmesh_set_tree_class (cm, t, (t8_eclass_t) cls[t]);
    if (N) {
      std::vector<t8_gloidx_t> c = (*N)[t];
      t8_cmesh_set_global_vertices_of_tree (cm, t, c.data (), (int) c.size ());
      std::fill (c.begin (), c.end (), -1);
    }
    if (order & 2)
      t8_cmesh_set_tree_class (cm, t, (t8_eclass_t) cls[t]);
    if (order & 4) {
      double d[3] = { t + .5, 1, 2 };
      t8_cmesh_set_attribute (cm, t, PKG[t % 2], 5, d, sizeof (d), 0);
    }
  }
  return cm;
}
/* many trees, regular numberings: long lists, many vertices */
static void
large ()
{
  static const int TS[] = { 5, 17, 64, 1, 16, 33, 100 }, MS[] = { 1, 7, 1000, 2, 3, 50, 101 };
  const bool small = T8_ENABLE_DEBUG && !mc::thorough ();
  int c = mc::choose (8, "class"), T = TS[mc::choose (small ? 3 : 7, "trees")], a = mc::choose (5, "step"), b = mc::choose (4, "corner_step"), M = MS[mc::choose (small ? 3 : 7, "modulus")];
  int how = mc::choose (NVALUES, "values");
  Numbering N (T);
  for (int t = 0; t < T; t++)
    for (int v = 0; v < NV[c]; v++)
      N[t].push_back (value (how, (t * a + v * b) % M, M));
  Inverse I = invert (N);
  std::vector<int> cls (T, c);
  long bal = mem_balance ();
  t8_cmesh_t cm = make (cls, &N, 0);
  t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
  check_mesh (cm, N, I);
  t8_cmesh_destroy (&cm);
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
}
static void
body ()
{
  if (mc::choose (2, "size")) {
    large ();
    return;
  }
  const auto &cls = shapes ()[mc::choose ((int) shapes ().size (), "trees")];
  int how = mc::choose (mc::q (NVALUES, NVALUES), "values");
  int part = mc::choose (3, "part");
  int T = (int) cls.size (), n = 0;
  for (int c : cls)
    n += NV[c];
  if (n > 7 && part != 0 && how > 1 && !mc::thorough ())
    mc::prune ();
  Numbering N = choose_numbering (cls, how);
  Inverse I = invert (N);
  long bal = mem_balance ();
  if (part == 0) {
    t8_cmesh_t cm = make (cls, &N, mc::choose (n > 6 && !mc::thorough () ? 4 : 8, "order"));
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    check_mesh (cm, N, I);
    t8_cmesh_destroy (&cm);
  }
  else {
    /* the two classes on their own: corners added in any order; then back to the map from trees */
    t8_cmesh_t cm = make (cls, nullptr, 0), dm;
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    MC_CHECK (!t8_cmesh_uses_vertex_connectivity (cm), "a mesh without vertex numbers claims to have them");
    {
      t8_cmesh_vertex_conn_vertex_to_tree vtt, again;
      std::vector<std::pair<int, int>> all;
      for (int t = 0; t < T; t++)
        for (int v = 0; v < NV[cls[t]]; v++)
          all.push_back ({ t, v });
      auto rest = all;
      if (part == 1) { /* every order of up to 4 (5) corners that are added last, the others in reverse before them */
        size_t free = std::min<size_t> (rest.size (), mc::q (n > 6 ? 2 : 4, n > 6 ? 4 : 5));
        while (rest.size () > free) {
          auto x = rest.back ();
          rest.pop_back ();
          vtt.add_vertex_to_tree (cm, N[x.first][x.second], x.first, x.second);
        }
        while (!rest.empty ()) {
          int i = mc::choose ((int) rest.size (), "next");
          auto x = rest[i];
          rest.erase (rest.begin () + i);
          vtt.add_vertex_to_tree (cm, N[x.first][x.second], x.first, x.second);
          mc::transition ();
        }
      }
      else
        for (int stride = 0; stride < 3; stride++)
          for (size_t i = stride; i < all.size (); i += 3)
            vtt.add_vertex_to_tree (cm, N[all[i].first][all[i].second], all[i].first, all[i].second);
      MC_CHECK (!vtt.is_committed (), "committed too early");
      vtt.commit (cm);
      MC_CHECK (vtt.is_committed (), "not committed");
      check_inverse (vtt, I, "map built corner by corner");
      for (auto &x : all)
        again.add_vertex_to_tree (cm, N[x.first][x.second], x.first, x.second);
      MC_CHECK (!(again == vtt), "an uncommitted map equals a committed one");
      again.commit (cm);
      MC_CHECK (again == vtt && vtt == again, "the maps of the same numbering differ");
      dm = make (cls, nullptr, 0);
      t8_cmesh_vertex_conn_tree_to_vertex ttv (cm, dm, vtt);
      t8_cmesh_commit (dm, sc_MPI_COMM_WORLD);
      for (int t = 0; t < T; t++) {
        auto s = ttv.get_global_vertices (dm, t);
        MC_CHECK (s.size () == N[t].size (), "tree %d: %zu vertices", t, s.size ());
        for (size_t v = 0; v < s.size (); v++)
          MC_CHECK (s[v] == N[t][v] && ttv.get_global_vertex (dm, t, (int) v) == N[t][v], "inverted back: tree %d corner %zu has vertex %lld, expected %lld", t, v, (long long) s[v], (long long) N[t][v]);
      }
      t8_cmesh_vertex_conn_vertex_to_tree back;
      back.build_from_ttv (dm, ttv);
      check_inverse (back, I, "inverted twice");
      if (part == 2) { /* another numbering is recognised */
        t8_cmesh_vertex_conn_vertex_to_tree other;
        auto x = all[mc::choose ((int) all.size (), "changed")];
        for (auto &y : all)
          other.add_vertex_to_tree (cm, y == x ? N[y.first][y.second] / 2 + 1000003 : N[y.first][y.second], y.first, y.second);
        other.commit (cm);
        MC_CHECK (!(other == vtt), "maps of different numberings are equal");
      }
    }
    t8_cmesh_destroy (&cm);
    t8_cmesh_destroy (&dm);
  }
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  cx::init_packages ();
  mc::Options o;
  o.property = "C20";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
