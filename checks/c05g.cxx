/* C05, second part: face neighbours across tree boundaries, for every way two tree faces can be glued. */
#include "scheme_enum.hxx"
#include "glue.hxx"
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_forest/t8_forest_general.h>
#include <t8_forest/t8_forest_private.h>

struct Ctx {
  int cls[2], face[2], orient, which, ntrees;
  std::vector<int> map[2]; /* map[0]: side 0 -> side 1 */
  t8_forest_t forest;
  const t8_scheme *s;
};

static void
judge (Ctx &c, int side, const t8_element_t *e, const char *where)
{
  t8_eclass_t tc = (t8_eclass_t) c.cls[side], nc = (t8_eclass_t) c.cls[1 - side];
  int tree = c.ntrees == 1 ? 0 : side, ntree = c.ntrees == 1 ? 0 : 1 - side;
  Cell a = cell_of (c.s, tc, e), root = root_cell (tc);
  int l = c.s->element_get_level (tc, e);
  if (l > c.s->get_maxlevel (nc))
    return;
  for (int f = 0; f < NF[a.shape]; f++) {
    std::vector<Pt> fp = face_points (a, f);
    int tf = -1;
    for (int r = 0; r < NF[tc]; r++)
      if (face_subset (root, r, fp))
        tf = r;
    if (tf < 0)
      continue;
    bool glued = tf == c.face[side] || (c.ntrees == 1 && tf == c.face[1 - side]);
    t8_eclass_t got_class = t8_forest_element_neighbor_eclass (c.forest, tree, e, f);
    if (!glued) {
      MC_CHECK (got_class == T8_ECLASS_INVALID, "%s: face %d on the domain boundary has a neighbour class", where, f);
      continue;
    }
    int sd = tf == c.face[side] ? side : 1 - side; /* self-gluing: which side of the join this face is */
    if (c.ntrees == 1 && c.face[0] == c.face[1])
      sd = 0;
    MC_CHECK (got_class == nc, "%s: face %d: neighbour class %d", where, f, (int) got_class);
    t8_element_t *n, *b;
    c.s->element_new (nc, 1, &n);
    c.s->element_new (tc, 1, &b);
    int nf = -7, bf = -7;
    t8_gloidx_t g = t8_forest_element_face_neighbor (c.forest, tree, e, n, nc, f, &nf);
    MC_CHECK (g == ntree, "%s: face %d: neighbour in tree %lld", where, f, (long long) g);
    MC_CHECK (c.s->element_get_level (nc, n) == l, "%s: face %d: neighbour of level %d", where, f, c.s->element_get_level (nc, n));
    Cell nb = cell_of (c.s, nc, n);
    std::vector<Pt> im;
    for (auto &p : fp)
      im.push_back (map_point (c.cls[sd], c.face[sd], c.cls[1 - sd], c.face[1 - sd], c.map[sd], p));
    MC_CHECK (nf >= 0 && nf < NF[nb.shape], "%s: face %d: dual face %d", where, f, nf);
    MC_CHECK (sorted (face_points (nb, nf)) == sorted (im), "%s: face %d: the neighbour %s does not have the glued face %s%s..", where, f, str (nb).c_str (), str (im[0]).c_str (), im.size () > 1 ? str (im[1]).c_str () : "");
    g = t8_forest_element_face_neighbor (c.forest, ntree, n, b, tc, nf, &bf);
    MC_CHECK (g == tree && bf == f && c.s->element_is_equal (tc, b, e), "%s: face %d: the neighbour's neighbour is not the element", where, f);
    /* the half-size neighbours are the neighbour's children at the dual face */
    int fm = std::min (c.s->get_maxlevel (nc), t8_forest_get_maxlevel (c.forest));
    if (l < fm) {
      int m = c.s->element_get_num_face_children (nc, n, nf);
      t8_element_t *h[8], *k[8];
      int df[8];
      c.s->element_new (nc, m, h);
      c.s->element_new (nc, m, k);
      g = t8_forest_element_half_face_neighbors (c.forest, tree, e, h, nc, f, m, df);
      MC_CHECK (g == ntree, "%s: face %d: half neighbours in tree %lld", where, f, (long long) g);
      c.s->element_get_children_at_face (nc, n, nf, k, m, NULL);
      std::vector<Pt> un;
      for (int i = 0; i < m; i++) {
        Cell hc = cell_of (c.s, nc, h[i]);
        MC_CHECK (c.s->element_is_equal (nc, h[i], k[i]), "%s: face %d: half neighbour %d is not the child at the dual face", where, f, i);
        MC_CHECK (df[i] >= 0 && df[i] < NF[hc.shape] && face_subset (nb, nf, face_points (hc, df[i])), "%s: face %d: dual face of half neighbour %d", where, f, i);
      }
      c.s->element_destroy (nc, m, h);
      c.s->element_destroy (nc, m, k);
      mc::checked ("half neighbours", m);
    }
    c.s->element_destroy (nc, 1, &n);
    c.s->element_destroy (tc, 1, &b);
    mc::checked ("cross-tree neighbour", 5);
    mc::transition ();
  }
}

static void
rec (Ctx &c, int side, Walk &w, int l, int L)
{
  judge (c, side, w.E[l], w.where (l).c_str ());
  mc::state (mc::mix (mc::mix (w.hash (l), c.orient * 100 + c.face[0] * 10 + c.face[1]), c.cls[0] * 20 + c.cls[1] * 2 + side + 1000 * c.ntrees));
  if (l >= L)
    return;
  for (int i = 0; i < w.nch (l); i++) {
    w.down (l, i);
    /* only subtrees that touch a glued face matter */
    Cell cc = cell_of (w.s, w.tc, w.E[l + 1]), root = root_cell (w.tc);
    bool touch = false;
    for (int f = 0; f < NF[cc.shape]; f++)
      for (int q = 0; q < 2; q++)
        if (c.cls[q] == (int) w.tc)
          touch = touch || face_subset (root, c.face[q], face_points (cc, f));
    if (touch || l + 1 <= 1)
      rec (c, side, w, l + 1, L);
  }
}

int
main (int argc, char **argv)
{
  hx::init ();
  mc::Options o;
  o.property = "C05";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    Ctx c;
    c.which = mc::choose (2, "scheme");
    c.ntrees = 2 - mc::choose (2, "self");
    c.cls[0] = 1 + mc::choose (7, "class_a");
    c.cls[1] = c.ntrees == 1 ? c.cls[0] : 1 + mc::choose (7, "class_b");
    if (DIM[c.cls[0]] != DIM[c.cls[1]])
      mc::prune ();
    if (c.which && !((c.cls[0] == 1 || c.cls[0] == 2 || c.cls[0] == 4) && c.cls[0] == c.cls[1]))
      mc::prune ();
    c.face[0] = mc::choose (NF[c.cls[0]], "face_a");
    c.face[1] = mc::choose (NF[c.cls[1]], "face_b");
    if (FTYPE[c.cls[0]][c.face[0]] != FTYPE[c.cls[1]][c.face[1]])
      mc::prune ();
    if (c.ntrees == 1 && c.face[0] >= c.face[1])
      mc::prune ();
    c.orient = mc::choose (NFV[c.cls[0]][c.face[0]], "orientation");
    int swap = mc::choose (2, "swap");
    int ca = c.cls[0], fa = c.face[0], cb = c.cls[1], fb = c.face[1];
    glue_maps (ca, fa, cb, fb, c.orient, c.map[0], c.map[1]);

    long bal = mem_balance ();
    vmpi::Config cfg;
    vmpi::run (1, cfg, [&] (int) {
      t8_cmesh_t cm;
      t8_cmesh_init (&cm);
      t8_cmesh_register_geometry<t8_geometry_linear> (cm);
      for (int t = 0; t < c.ntrees; t++) {
        double v[24];
        for (int i = 0; i < NV[c.cls[t]]; i++)
          for (int d = 0; d < 3; d++)
            v[3 * i + d] = CORNER[c.cls[t]][i][d];
        t8_cmesh_set_tree_class (cm, t, (t8_eclass_t) c.cls[t]);
        t8_cmesh_set_tree_vertices (cm, t, v, NV[c.cls[t]]);
      }
      int t1 = c.ntrees - 1;
      if (swap)
        t8_cmesh_set_join (cm, t1, 0, c.face[1], c.face[0], c.orient);
      else
        t8_cmesh_set_join (cm, 0, t1, c.face[0], c.face[1], c.orient);
      t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
      const t8_scheme *sch = c.which ? t8_scheme_new_standalone () : t8_scheme_new_default ();
      c.s = sch;
      c.forest = t8_forest_new_uniform (cm, sch, 0, 0, sc_MPI_COMM_WORLD);
      for (int side = 0; side < c.ntrees; side++) {
        Walk w (c.which, c.cls[side], sch);
        int L = DIM[c.cls[0]] == 3 ? mc::q (2, 3) : mc::q (4, 6);
        rec (c, side, w, 0, L);
        /* the deepest levels: constant paths, and constant paths with one deviation */
        int M = std::min (w.maxl, (int) sch->get_maxlevel ((t8_eclass_t) c.cls[1 - side]));
        for (int base = 0; base < NCH[c.cls[side]]; base++)
          for (int dev = -1; dev < (mc::thorough () ? M : std::min (M, 3)); dev++)
            for (int dc = 0; dc < (dev < 0 ? 1 : NCH[c.cls[side]]); dc++) {
              for (int l = 0; l < M; l++)
                w.down (l, (l == dev ? dc : base) % w.nch (l));
              for (int l = L + 1; l <= M; l++) {
                if (l < M - 1 && !mc::thorough () && l % 4)
                  continue;
                judge (c, side, w.E[l], w.where (l).c_str ());
              }
            }
      }
      t8_forest_unref (&c.forest);
    });
    MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
    mc::sample (mc::describe ());
  });
}
