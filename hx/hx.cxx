#include <execinfo.h>
#include "hx.hxx"
#include <sc.h>
#include <cmath>
#include <cstdlib>

extern "C" {
int sc_get_package_id (void) { return sc_package_id; }
int
sc_mpi_comm_get_and_attach (sc_MPI_Comm comm)
{
  sc_MPI_Comm intra, inter;
  int n = 0;
  sc_mpi_comm_get_node_comms (comm, &intra, &inter);
  if (intra == sc_MPI_COMM_NULL) {
    sc_mpi_comm_attach_node_comms (comm, 0);
    sc_mpi_comm_get_node_comms (comm, &intra, &inter);
  }
  if (intra != sc_MPI_COMM_NULL)
    sc_MPI_Comm_size (intra, &n);
  return n;
}
void
__wrap_sc_abort_verbose (const char *file, int line, const char *msg)
{
  mc::fail ("abort in rank %d at %s:%d: %s", vmpi::rank (), file, line, msg);
}
void
__wrap_sc_abort_verbosef (const char *file, int line, const char *fmt, ...)
{
  mc::fail ("abort in rank %d at %s:%d: %s", vmpi::rank (), file, line, fmt);
}
static void
abort_handler (void)
{
  mc::fail ("abort in rank %d", vmpi::rank ());
}
}

/* Allocation tracking for diagnosing leaks when replaying (HX_LEAK=1). */
static std::map<void *, std::array<void *, 6>> g_live;
static int g_track = -1;
static void
track (void *p, void *fp)
{
  if (g_track < 0)
    g_track = getenv ("HX_LEAK") != nullptr;
  if (!g_track || !p)
    return;
  std::array<void *, 6> a {};
  void *bt[8];
  int n = backtrace (bt, 8);
  for (int i = 2; i < n && i < 8; i++)
    a[i - 2] = bt[i];
  g_live[p] = a;
}
extern "C" {
void *__real_sc_malloc (int, size_t);
void *__real_sc_calloc (int, size_t, size_t);
void *__real_sc_realloc (int, void *, size_t);
char *__real_sc_strdup (int, const char *);
void __real_sc_free (int, void *);
void *__wrap_sc_malloc (int p, size_t n) { void *r = __real_sc_malloc (p, n); track (r, 0); return r; }
void *__wrap_sc_calloc (int p, size_t a, size_t n) { void *r = __real_sc_calloc (p, a, n); track (r, 0); return r; }
void *__wrap_sc_realloc (int p, void *q, size_t n) { if (g_track > 0) g_live.erase (q); void *r = __real_sc_realloc (p, q, n); track (r, 0); return r; }
char *__wrap_sc_strdup (int p, const char *s) { char *r = __real_sc_strdup (p, s); track (r, 0); return r; }
void __wrap_sc_free (int p, void *q) { if (g_track > 0) g_live.erase (q); __real_sc_free (p, q); }
}

namespace hx
{
void
leak_mark ()
{
  g_live.clear ();
}
void
leak_report ()
{
  for (auto &x : g_live) {
    fprintf (stderr, "live %p:", x.first);
    for (void *p : x.second)
      fprintf (stderr, " %p", p);
    fprintf (stderr, "\n");
  }
}
const int DIM[8] = { 0, 1, 2, 2, 3, 3, 3, 3 };
const int NV[8] = { 1, 2, 4, 3, 8, 4, 6, 5 };
const int NF[8] = { 0, 2, 4, 3, 6, 4, 5, 5 };
const int NCH[8] = { 1, 2, 4, 4, 8, 8, 8, 10 };
const int FV[8][6][4] = {
  {},
  { { 0 }, { 1 } },
  { { 0, 2 }, { 1, 3 }, { 0, 1 }, { 2, 3 } },
  { { 1, 2 }, { 0, 2 }, { 0, 1 } },
  { { 0, 2, 4, 6 }, { 1, 3, 5, 7 }, { 0, 1, 4, 5 }, { 2, 3, 6, 7 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 } },
  { { 1, 2, 3 }, { 0, 2, 3 }, { 0, 1, 3 }, { 0, 1, 2 } },
  { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 0, 1, 2 }, { 3, 4, 5 } },
  { { 0, 2, 4 }, { 1, 3, 4 }, { 0, 1, 4 }, { 2, 3, 4 }, { 0, 1, 2, 3 } },
};
const int FTYPE[8][6] = { {}, { 0, 0 }, { 1, 1, 1, 1 }, { 1, 1, 1 }, { 2, 2, 2, 2, 2, 2 }, { 3, 3, 3, 3 }, { 2, 2, 2, 3, 3 }, { 3, 3, 3, 3, 2 } };
const int NFV[8][6] = { {}, { 1, 1 }, { 2, 2, 2, 2 }, { 2, 2, 2 }, { 4, 4, 4, 4, 4, 4 }, { 3, 3, 3, 3 }, { 4, 4, 4, 3, 3 }, { 3, 3, 3, 3, 4 } };
const int CORNER[8][8][3] = {
  { { 0, 0, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 0, 1, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 0, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 1, 1, 1 } },
};
const char *ENAME[8] = { "vertex", "line", "quad", "tri", "hex", "tet", "prism", "pyramid" };

void
init ()
{
  static bool done = false;
  if (done)
    return;
  done = true;
  sc_init (sc_MPI_COMM_NULL, 0, 0, NULL, SC_LP_SILENT);
  t8_init (SC_LP_SILENT);
  sc_set_abort_handler (abort_handler);
}
long
mem_balance ()
{
  if (g_track > 0)
    leak_report ();
  return (long) sc_memory_status (t8_get_package_id ()) + sc_memory_status (sc_package_id) + sc_memory_status (-1);
}

std::string
str (const Pt &p)
{
  char b[120];
  snprintf (b, sizeof b, "(%.9g,%.9g,%.9g)", p.x[0] / (double) ONE, p.x[1] / (double) ONE, p.x[2] / (double) ONE);
  return b;
}
std::string
str (const Cell &c)
{
  std::string s = ENAME[c.shape];
  s += "[";
  for (int i = 0; i < c.nv; i++)
    s += str (c.v[i]);
  return s + "]";
}
Cell
root_cell (int e)
{
  Cell c;
  c.shape = e;
  c.nv = NV[e];
  for (int i = 0; i < c.nv; i++)
    for (int d = 0; d < 3; d++)
      c.v[i].x[d] = CORNER[e][i][d] * ONE;
  return c;
}
Cell
cell_of (const t8_scheme *s, t8_eclass_t tc, const t8_element_t *e)
{
  Cell c;
  c.shape = (int) s->element_get_shape (tc, e);
  if (c.shape < 0 || c.shape >= 8 || DIM[c.shape] != DIM[tc])
    mc::fail ("element shape %d of wrong dimension in a %s tree", c.shape, ENAME[tc]);
  c.nv = s->element_get_num_corners (tc, e);
  if (c.nv != NV[c.shape])
    mc::fail ("element of shape %s reports %d corners", ENAME[c.shape], c.nv);
  for (int i = 0; i < c.nv; i++) {
    double x[3] = { 0, 0, 0 };
    s->element_get_vertex_reference_coords (tc, e, i, x);
    for (int d = 0; d < DIM[tc]; d++) {
      double y = x[d] * (double) ONE;
      if (!(y >= 0 && y <= (double) ONE) || y != std::floor (y))
        mc::fail ("corner %d of a %s element has reference coordinate %.17g outside the dyadic grid of the tree", i, ENAME[tc], x[d]);
      c.v[i].x[d] = (int64_t) y;
    }
  }
  if (c.shape == T8_ECLASS_PYRAMID) {
    /* pyramids pointing down number their faces differently: take the corners the code names and
     * require that they are a permutation of the faces */
    int used = 0;
    for (int f = 0; f < 5; f++) {
      std::set<int> want;
      for (int k = 0; k < NFV[c.shape][f]; k++)
        want.insert (s->element_get_face_corner (tc, e, f, k));
      c.fp[f] = -1;
      for (int g = 0; g < 5; g++) {
        std::set<int> have (FV[c.shape][g], FV[c.shape][g] + NFV[c.shape][g]);
        if (have == want)
          c.fp[f] = g;
      }
      if (c.fp[f] < 0 || (used & (1 << c.fp[f])) || (f == 4 && c.fp[f] != 4))
        mc::fail ("face %d of a pyramid is no face of its own, or not a face at all", f);
      used |= 1 << c.fp[f];
    }
  }
  return c;
}
static i128
det3 (const Pt &a, const Pt &b, const Pt &c)
{
  return (i128) a.x[0] * ((i128) b.x[1] * c.x[2] - (i128) b.x[2] * c.x[1])
         - (i128) a.x[1] * ((i128) b.x[0] * c.x[2] - (i128) b.x[2] * c.x[0])
         + (i128) a.x[2] * ((i128) b.x[0] * c.x[1] - (i128) b.x[1] * c.x[0]);
}
static i128
iabs (i128 x)
{
  return x < 0 ? -x : x;
}
static i128
tet6 (const Pt &a, const Pt &b, const Pt &c, const Pt &d)
{
  return iabs (det3 (b - a, c - a, d - a));
}
static i128
tri2 (const Pt &a, const Pt &b, const Pt &c)
{
  Pt u = b - a, w = c - a;
  return iabs ((i128) u.x[0] * w.x[1] - (i128) u.x[1] * w.x[0]);
}
i128
vol6 (const Cell &c)
{
  const Pt *v = c.v;
  switch (c.shape) {
  case 0: return 1;
  case 1: return iabs (v[1].x[0] - v[0].x[0]);
  case 2: return tri2 (v[0], v[1], v[3]) + tri2 (v[0], v[3], v[2]);
  case 3: return tri2 (v[0], v[1], v[2]);
  case 4:
    return tet6 (v[0], v[1], v[3], v[7]) + tet6 (v[0], v[1], v[5], v[7]) + tet6 (v[0], v[2], v[3], v[7])
           + tet6 (v[0], v[2], v[6], v[7]) + tet6 (v[0], v[4], v[5], v[7]) + tet6 (v[0], v[4], v[6], v[7]);
  case 5: return tet6 (v[0], v[1], v[2], v[3]);
  case 6: return tet6 (v[0], v[1], v[2], v[3]) + tet6 (v[1], v[2], v[3], v[4]) + tet6 (v[2], v[3], v[4], v[5]);
  default: return tet6 (v[0], v[1], v[3], v[4]) + tet6 (v[0], v[2], v[3], v[4]);
  }
}
/* plane (line, point) through a face: sign of the side of p, normalised so that the cell is >= 0 */
static i128
side (const Cell &c, int f, const Pt &p)
{
  int dim = DIM[c.shape];
  f = c.fp[f];
  const int *fv = FV[c.shape][f];
  i128 s, in = 0;
  auto eval = [&] (const Pt &q) -> i128 {
    if (dim == 1)
      return (i128) q.x[0] - c.v[fv[0]].x[0];
    Pt a = c.v[fv[0]], u = c.v[fv[1]] - a, w = q - a;
    if (dim == 2)
      return (i128) u.x[0] * w.x[1] - (i128) u.x[1] * w.x[0];
    Pt u2 = c.v[fv[2]] - a;
    return det3 (u, u2, w);
  };
  s = eval (p);
  for (int i = 0; i < c.nv; i++) {
    bool onf = false;
    for (int k = 0; k < NFV[c.shape][f]; k++)
      onf = onf || fv[k] == i;
    if (!onf) {
      in = eval (c.v[i]);
      break;
    }
  }
  return in < 0 ? -s : s;
}
bool
inside (const Cell &o, const Pt &p)
{
  if (o.shape == 0)
    return true;
  for (int f = 0; f < NF[o.shape]; f++)
    if (side (o, f, p) < 0)
      return false;
  return true;
}
bool
on_face_plane (const Cell &c, int f, const Pt &p)
{
  return side (c, f, p) == 0;
}
std::vector<Pt>
face_points (const Cell &c, int f)
{
  std::vector<Pt> r;
  f = c.fp[f];
  for (int k = 0; k < NFV[c.shape][f]; k++)
    r.push_back (c.v[FV[c.shape][f][k]]);
  return r;
}
std::vector<Pt>
sorted (std::vector<Pt> v)
{
  std::sort (v.begin (), v.end ());
  return v;
}
bool
face_subset (const Cell &o, int f, const std::vector<Pt> &pts)
{
  for (const Pt &p : pts)
    if (side (o, f, p) != 0 || !inside (o, p))
      return false;
  return true;
}
static bool
separated_by_face (const Cell &a, const Cell &b)
{
  for (int f = 0; f < NF[a.shape]; f++) {
    bool sep = true;
    for (int i = 0; i < b.nv && sep; i++)
      sep = side (a, f, b.v[i]) <= 0;
    if (sep)
      return true;
  }
  return false;
}
bool
interiors_disjoint (const Cell &a, const Cell &b)
{
  if (a.shape == 0)
    return false;
  if (separated_by_face (a, b) || separated_by_face (b, a))
    return true;
  if (DIM[a.shape] < 3)
    return false;
  /* edge x edge axes */
  for (int i = 0; i < a.nv; i++)
    for (int j = i + 1; j < a.nv; j++)
      for (int k = 0; k < b.nv; k++)
        for (int l = k + 1; l < b.nv; l++) {
          Pt u = a.v[j] - a.v[i], w = b.v[l] - b.v[k];
          i128 n[3] = { (i128) u.x[1] * w.x[2] - (i128) u.x[2] * w.x[1], (i128) u.x[2] * w.x[0] - (i128) u.x[0] * w.x[2],
                        (i128) u.x[0] * w.x[1] - (i128) u.x[1] * w.x[0] };
          if (n[0] == 0 && n[1] == 0 && n[2] == 0)
            continue;
          i128 amin = 0, amax = 0, bmin = 0, bmax = 0;
          for (int m = 0; m < a.nv; m++) {
            i128 d = n[0] * a.v[m].x[0] + n[1] * a.v[m].x[1] + n[2] * a.v[m].x[2];
            if (m == 0)
              amin = amax = d;
            amin = std::min (amin, d);
            amax = std::max (amax, d);
          }
          for (int m = 0; m < b.nv; m++) {
            i128 d = n[0] * b.v[m].x[0] + n[1] * b.v[m].x[1] + n[2] * b.v[m].x[2];
            if (m == 0)
              bmin = bmax = d;
            bmin = std::min (bmin, d);
            bmax = std::max (bmax, d);
          }
          if (amax <= bmin || bmax <= amin)
            return true;
        }
  return false;
}
unsigned __int128
leaves (int eclass, int shape, int depth)
{
  unsigned __int128 r = 1;
  if (eclass == T8_ECLASS_PYRAMID && shape == T8_ECLASS_PYRAMID) {
    unsigned __int128 a = 1, b = 1;
    for (int i = 0; i < depth; i++) {
      a *= 8;
      b *= 6;
    }
    return 2 * a - b;
  }
  for (int i = 0; i < depth; i++)
    r *= (unsigned) 1 << DIM[eclass];
  return r;
}
}  // namespace hx
