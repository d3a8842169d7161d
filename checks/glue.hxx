/* How two tree faces are identified, derived from the documented orientation rule (t8_cmesh_set_join: the
 * orientation is the corner of the "other" face that meets corner 0 of the "main" face; the main face is that
 * of the smaller class, or of the smaller face number) and from orientability of the glued mesh. */
#ifndef GLUE_HXX
#define GLUE_HXX
#include "hx/hx.hxx"
using namespace hx;

static inline int
class_rank (int c) /* order that decides which of two faces the orientation refers to (t8_cmesh_set_join) */
{
  static const int r[8] = { 0, 0, 2, 1, 3, 4, 5, 6 };
  return r[c];
}
/* boundary cycle of a face (indices into its corner list), counterclockwise seen from outside the root cell */
static inline std::vector<int>
cycle (int cls, int f)
{
  int n = NFV[cls][f];
  if (n < 3) {
    std::vector<int> r;
    for (int i = 0; i < n; i++)
      r.push_back (i);
    return r;
  }
  std::vector<int> r = n == 3 ? std::vector<int> { 0, 1, 2 } : std::vector<int> { 0, 1, 3, 2 };
  /* orientation: (p1-p0)x(p2-p0) . (p0 - centroid) > 0 means outward */
  double p[3][3], ce[3] = { 0, 0, 0 };
  for (int i = 0; i < NV[cls]; i++)
    for (int d = 0; d < 3; d++)
      ce[d] += CORNER[cls][i][d] / (double) NV[cls];
  for (int i = 0; i < 3; i++)
    for (int d = 0; d < 3; d++)
      p[i][d] = CORNER[cls][FV[cls][f][r[i]]][d];
  double u[3], v[3], w[3];
  for (int d = 0; d < 3; d++) {
    u[d] = p[1][d] - p[0][d];
    v[d] = p[2][d] - p[0][d];
    w[d] = p[0][d] - ce[d];
  }
  double x = (u[1] * v[2] - u[2] * v[1]) * w[0] + (u[2] * v[0] - u[0] * v[2]) * w[1] + (u[0] * v[1] - u[1] * v[0]) * w[2];
  if (x < 0)
    std::reverse (r.begin () + 1, r.end ());
  return r;
}
/* corner map: corner i of face (ca,fa) is glued to corner map[i] of face (cb,fb), where a is the main face */
static inline std::vector<int>
corner_map (int ca, int fa, int cb, int fb, int orient)
{
  int n = NFV[ca][fa];
  if (n == 1)
    return { 0 };
  if (n == 2)
    return { orient, 1 - orient };
  /* corner 0 of the main face meets corner orient of the other one; seen from the two sides the cycles
   * run in opposite senses. */
  std::vector<int> A = cycle (ca, fa), B = cycle (cb, fb), m (n);
  int ia = (int) (std::find (A.begin (), A.end (), 0) - A.begin ()), ib = (int) (std::find (B.begin (), B.end (), orient) - B.begin ());
  for (int k = 0; k < n; k++)
    m[A[(ia + k) % n]] = B[(ib + n - k) % n];
  return m;
}
/* the corner maps in both directions for a join given in any order */
static inline void
glue_maps (int ca, int fa, int cb, int fb, int orient, std::vector<int> &ab, std::vector<int> &ba)
{
  bool a_main = class_rank (ca) < class_rank (cb) || (ca == cb && fa <= fb);
  std::vector<int> m = a_main ? corner_map (ca, fa, cb, fb, orient) : corner_map (cb, fb, ca, fa, orient);
  std::vector<int> inv (m.size ());
  for (size_t i = 0; i < m.size (); i++)
    inv[m[i]] = (int) i;
  ab = a_main ? m : inv;
  ba = a_main ? inv : m;
}
/* map a point on face (ca,fa) of the root cell to face (cb,fb) */
static inline Pt
map_point (int ca, int fa, int cb, int fb, const std::vector<int> &m, const Pt &p)
{
  Cell A = root_cell (ca), B = root_cell (cb);
  int n = NFV[ca][fa];
  Pt a0 = A.v[FV[ca][fa][0]], b0 = B.v[FV[cb][fb][m[0]]];
  if (n == 1)
    return b0;
  Pt u1 = A.v[FV[ca][fa][1]] - a0, v1 = B.v[FV[cb][fb][m[1]]] - b0, u2, v2;
  if (n >= 3) {
    u2 = A.v[FV[ca][fa][2]] - a0;
    v2 = B.v[FV[cb][fb][m[2]]] - b0;
  }
  Pt q = p - a0;
  /* q = s u1 + t u2 with u1,u2 entries in {-1,0,1}*ONE; solve in the two coordinates where the minor is not 0 */
  int64_t s = 0, t = 0;
  if (n == 2) {
    for (int d = 0; d < 3; d++)
      if (u1.x[d])
        s = q.x[d] / (u1.x[d] / ONE);
  }
  else {
    bool ok = false;
    for (int d = 0; d < 3 && !ok; d++)
      for (int e = d + 1; e < 3 && !ok; e++) {
        int64_t a = u1.x[d] / ONE, b = u2.x[d] / ONE, c = u1.x[e] / ONE, f = u2.x[e] / ONE, det = a * f - b * c;
        if (det == 0)
          continue;
        s = (q.x[d] * f - b * q.x[e]) / det;
        t = (a * q.x[e] - c * q.x[d]) / det;
        ok = true;
      }
  }
  Pt r;
  for (int d = 0; d < 3; d++)
    r.x[d] = b0.x[d] + s * (v1.x[d] / ONE) + t * (v2.x[d] / ONE);
  return r;
}
#endif
