/* C19: the partition of a coarse mesh, copies and broadcasts preserve trees, attributes and connectivity. */
#include "cx.hxx"
using namespace cx;
int cx::PKG[2];

static const Mesh &
extra (int i)
{
  static const std::vector<Mesh> v = {
    /* one tree with four neighbours, one of them twice removed */
    mk ("star5", { Q, Q, T, Q, Q }, { { 2, 0, 0, 1, 0 }, { 2, 1, 1, 3, 1 }, { 2, 3, 2, 0, 1 }, { 3, 4, 1, 0, 0 } }),
    /* a chain out of order, closed */
    mk ("line_ring4", { L, L, L, L }, { { 0, 2, 1, 0, 0 }, { 2, 1, 1, 0, 0 }, { 1, 3, 1, 1, 0 }, { 3, 0, 0, 0, 0 } }),
    mk ("line_chain5", { L, L, L, L, L }, { { 0, 4, 1, 0, 0 }, { 4, 1, 1, 0, 0 }, { 1, 3, 1, 0, 0 }, { 3, 2, 1, 1, 0 } }),
    mk ("hybrid4", { E, P, Y, H }, { { 0, 1, 2, 4, 1 }, { 1, 2, 0, 4, 2 }, { 0, 2, 0, 1, 1 }, { 1, 3, 1, 2, 3 } }),
    mk ("double2", { Q, Q }, { { 0, 1, 0, 1, 0 }, { 0, 1, 1, 0, 1 }, { 0, 1, 2, 3, 0 } }),
  };
  return v[i];
}
static const int NEXTRA = 5;
static void
give_attributes (Spec &s, int pattern)
{
  s.at.assign (s.T (), {});
  s.vertices = pattern == 1 || pattern == 3;
  for (int t = 0; t < s.T (); t++)
    switch (pattern) {
    case 0: /* none */
    case 1: /* vertices only */
      break;
    case 2: /* every tree other attributes, the last one none */
      s.at[t] = attr_set (t, t + 1 == s.T () ? 0 : (3 * t + 3) % NATTR);
      break;
    case 3: /* the first trees none, all with vertices */
      s.at[t] = attr_set (t, t == 0 ? 0 : (2 * t + 2) % NATTR);
      break;
    default: /* only empty data in front, large in the back */
      s.at[t] = attr_set (t, t == 0 ? 6 : t + 1 == s.T () ? 8 : 7);
    }
}
enum { OFFSETS, COPY, UNIFORM, RANGE };
struct Step {
  int kind, level = 0;
  Ranges R;
};
static Step
choose_step (const Mesh &m, int P, const Ranges &now, int maxlevel, bool with_range, int only = -1)
{
  int T = (int) m.cls.size ();
  Step s;
  s.kind = only >= 0 ? only : mc::choose (with_range ? 4 : 3, "step");
  switch (s.kind) {
  case OFFSETS:
  case RANGE:
    s.R = choose_ranges (T, P, "to");
    break;
  case UNIFORM:
    s.level = mc::choose (maxlevel + 1, "level");
    s.R = uniform_ranges (m, s.level, P);
    break;
  case COPY:
    s.R = now;
  }
  return s;
}
static t8_cmesh_t
derive (t8_cmesh_t from, const Mesh &m, const Step &st, int rank)
{
  t8_cmesh_t c;
  int T = (int) m.cls.size ();
  t8_cmesh_init (&c);
  t8_cmesh_set_derive (c, from);
  switch (st.kind) {
  case OFFSETS:
    t8_cmesh_set_partition_offsets (c, make_offsets (st.R, T));
    break;
  case RANGE:
    t8_cmesh_set_partition_range (c, 3, entry (st.R, rank, T), st.R[rank].first + st.R[rank].n - 1);
    break;
  case UNIFORM:
    t8_cmesh_set_partition_uniform (c, st.level, new_scheme (m));
  }
  t8_cmesh_commit (c, sc_MPI_COMM_WORLD);
  return c;
}
static void
run_history (Spec &s, int P, bool replicated, const Ranges &R0, const std::vector<Step> &steps, bool keep, const vmpi::Config &cfg)
{
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    specify (cm, s);
    if (!replicated)
      t8_cmesh_set_partition_range (cm, 3, entry (R0, rank, s.T ()), R0[rank].first + R0[rank].n - 1);
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    Ranges now = replicated ? Ranges () : R0;
    check_cmesh (cm, s, now, rank, "start");
    for (auto &st : steps) {
      static const char *N[] = { "partitioned by offsets", "copied", "partitioned for a uniform level", "partitioned by range" };
      if (keep)
        t8_cmesh_ref (cm);
      t8_cmesh_t n = derive (cm, s.m, st, rank);
      if (keep) {
        check_cmesh (cm, s, now, rank, "source of a derivation");
        MC_CHECK (!t8_cmesh_is_partitioned (cm) == !t8_cmesh_is_partitioned (n) || st.kind != COPY, "a copy is not partitioned like its source");
        if (st.kind == COPY)
          MC_CHECK (t8_cmesh_is_equal (cm, n), "rank %d: a copy differs from its source", rank);
        t8_cmesh_unref (&cm);
      }
      now = st.kind == COPY ? now : st.R;
      cm = n;
      check_cmesh (cm, s, now, rank, N[st.kind]);
    }
    /* tables that send a part of the trees of each process to the next one; not defined for shared trees */
    bool shared = false;
    for (auto &r : now)
      shared = shared || r.shared;
    for (int percent : { 0, 50, 70, 100 }) {
      if (now.empty () || shared)
        break;
      t8_shmem_array_t o = percent == 50 ? t8_cmesh_offset_half (cm, sc_MPI_COMM_WORLD) : t8_cmesh_offset_percent (cm, sc_MPI_COMM_WORLD, percent);
      for (int p = 0; p <= P; p++) {
        long long want = p == P ? s.T () : p == 0 ? 0 : now[p].first - now[p - 1].n * percent / 100;
        MC_CHECK (t8_shmem_array_get_gloidx (o, p) == want, "rank %d: entry %d of the table moving %d percent from %s is %lld, expected %lld", rank, p, percent, rstr (now).c_str (), (long long) t8_shmem_array_get_gloidx (o, p), want);
      }
      mc::checked ("moved percentage");
      t8_shmem_array_destroy (&o);
    }
    t8_cmesh_unref (&cm);
    MC_CHECK (cm == nullptr, "rank %d: the mesh still has references", rank);
    if (rank == 0)
      mc::state (mc::mix (mc::hash_str (mc::describe ()), 1));
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
}
static Step
fixed_step (int kind, const Ranges &R)
{
  Step s;
  s.kind = kind;
  s.R = R;
  return s;
}
/* one derivation, from every state to every state */
static void
single ()
{
  static const std::vector<std::string> names = { "line3", "quad2_flip", "tri_quad_tri", "hex_pyra_tet", "quad4_ring", "line_ring2", "quad_periodic", "vertex", "disconnected" };
  int i = mc::choose ((int) names.size () + NEXTRA, "mesh");
  Spec s;
  s.m = i < (int) names.size () ? mesh_by_name (names[i]) : extra (i - (int) names.size ());
  int T = s.T ();
  int P = 1 + mc::choose (mc::q (T <= 3 ? 4 : 3, T <= 3 ? 5 : 4), "ranks");
  give_attributes (s, (mc::choose (mc::q (P > 3 || T8_ENABLE_DEBUG ? 3 : 5, 5), "attributes") + 2) % 5);
  bool replicated = mc::choose (2, "replicated");
  Ranges R0;
  if (!replicated)
    R0 = choose_ranges (T, P, "from");
  Step st = choose_step (s.m, P, R0, 2, true);
  bool big = (int) all_ranges (T, P).size () > 60;
  vmpi::Config cfg = vmpi::choose_config (T8_ENABLE_DEBUG && !mc::thorough () ? (big ? 1 : 2) : mc::q (big ? 1 : 4, 6));
  if (big && !mc::thorough ())
    cfg.rendezvous = cfg.lazy_recv = true;
  cfg.explore = mc::thorough ();
  run_history (s, P, replicated, R0, { st }, true, cfg);
}
/* two and more derivations after each other, the last one into a state that reveals what is left of the ones before */
static void
sequences ()
{
  static const std::vector<std::string> names = { "quad2_flip", "tri_quad_tri", "line3" };
  int i = mc::choose ((int) names.size () + (mc::thorough () ? NEXTRA : 0), "mesh");
  Spec s;
  s.m = i < (int) names.size () ? mesh_by_name (names[i]) : extra (i - (int) names.size ());
  int T = s.T ();
  int P = 2 + mc::choose (mc::q (2, T <= 3 ? 3 : 2), "ranks");
  give_attributes (s, mc::choose (2, "attributes") + 2);
  bool replicated = mc::choose (2, "replicated");
  Ranges R0;
  bool small = T <= 2 || P <= 2;
  if (!replicated) {
    if (small || mc::thorough ())
      R0 = choose_ranges (T, P, "from");
    else
      R0 = uniform_ranges (s.m, 0, P);
  }
  std::vector<Step> st;
  int depth = small && mc::thorough () ? 3 : 2;
  for (int d = 0; d < depth; d++)
    st.push_back (choose_step (s.m, P, st.empty () ? R0 : st.back ().R, 1, false, d == 2 ? 0 : -1));
  bool keep = T8_ENABLE_DEBUG && !mc::thorough () ? true : mc::choose (2, "keep");
  vmpi::Config cfg = vmpi::choose_config (mc::q (1, 2));
  cfg.explore = mc::thorough () && small;
  run_history (s, P, replicated, R0, st, keep, cfg);
}
/* every way to connect the ends of a few lines */
static void
matchings ()
{
  int T = mc::q (3, 4);
  std::vector<int> mate (2 * T, -2);
  std::vector<Join> J;
  for (int e = 0; e < 2 * T; e++) {
    if (mate[e] != -2)
      continue;
    std::vector<int> cand { -1 };
    for (int g = e + 1; g < 2 * T; g++)
      if (mate[g] == -2)
        cand.push_back (g);
    int g = cand[mc::choose ((int) cand.size (), "mate")];
    mate[e] = g;
    if (g >= 0) {
      mate[g] = e;
      J.push_back ({ e / 2, g / 2, e % 2, g % 2, 0 });
    }
  }
  Spec s;
  s.m = mk ("lines", std::vector<int> (T, L), J);
  int P = mc::choose (T8_ENABLE_DEBUG && !mc::thorough () ? 1 : 2, "ranks") + 2;
  give_attributes (s, 2);
  Ranges R0 = mc::thorough () && P == 3 ? uniform_ranges (s.m, 1, P) : choose_ranges (T, P, "from");
  Step st = fixed_step (OFFSETS, choose_ranges (T, P, "to"));
  vmpi::Config cfg;
  cfg.explore = false;
  run_history (s, P, false, R0, { st }, false, cfg);
}
/* broadcast of a specified or committed mesh from any root */
static void
broadcast ()
{
  static const std::vector<std::string> names = { "line3", "quad2_flip", "hex_pyra_tet", "quad_periodic", "vertex", "disconnected" };
  Spec s;
  s.m = choose_mesh (names);
  int T = s.T ();
  int P = 1 + mc::choose (mc::q (4, 5), "ranks");
  int root = mc::choose (P, "root");
  give_attributes (s, mc::choose (5, "attributes"));
  bool committed = mc::choose (2, "committed"), persist = mc::choose (2, "persist");
  int then = mc::choose (3, "then"); /* nothing, partition, copy */
  Step st;
  if (then == 1)
    st = fixed_step (OFFSETS, P > 3 && !mc::thorough () ? uniform_ranges (s.m, mc::choose (2, "level"), P) : choose_ranges (T, P, "to"));
  else if (then == 2)
    st.kind = COPY;
  vmpi::Config cfg = vmpi::choose_config (then == 1 ? 1 : mc::q (4, 6));
  bool prof = then == 0 && mc::choose (2, "profiling");
  cfg.explore = mc::thorough ();
  long bal = mem_balance ();
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t in = nullptr, cm;
    if (rank == root) {
      t8_cmesh_init (&in);
      if (prof)
        t8_cmesh_set_profiling (in, 1);
      specify (in, s, 0, persist);
      if (committed)
        t8_cmesh_commit (in, sc_MPI_COMM_SELF);
    }
    cm = t8_cmesh_bcast (in, root, sc_MPI_COMM_WORLD);
    MC_CHECK (rank != root || cm == in, "the root does not return its mesh");
    if (!committed)
      t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    check_cmesh (cm, s, {}, rank, "broadcast");
    if (then) {
      cm = derive (cm, s.m, st, rank);
      check_cmesh (cm, s, st.R, rank, then == 1 ? "partitioned after a broadcast" : "copied after a broadcast");
    }
    t8_cmesh_unref (&cm);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  MC_CHECK (vmpi::live_comms () == 0, "%d communicators not freed", vmpi::live_comms ());
  mc::state (mc::hash_str (mc::describe ()));
}
static void
body ()
{
  switch (mc::choose (5, "part")) {
  case 0:
    single ();
    break;
  case 1:
    sequences ();
    break;
  case 2:
    matchings ();
    break;
  case 3:
    overridden ();
    break;
  default:
    broadcast ();
  }
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  cx::init_packages ();
  mc::Options o;
  o.property = "C19";
  o.bounds = "";
  return mc::main (argc, argv, o, body);
}
