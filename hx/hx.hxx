/* Helpers shared by the checks: initialisation, independent reference tables, exact geometry. */
#ifndef HX_HXX
#define HX_HXX
#include <t8.h>
#include <t8_eclass/t8_eclass.h>
#include <t8_element/t8_element.h>
#include <t8_schemes/t8_scheme.hxx>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_schemes/t8_standalone/t8_standalone.hxx>
#include "mc/mc.hxx"
#include "vmpi/vmpi.hxx"
#include <array>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

namespace hx
{
void init ();
/* number of outstanding allocations of t8code (all packages) */
long mem_balance ();
void leak_mark ();
void leak_report ();

/* Reference tables, written down independently of the code under test (element conventions of the
 * documentation: corner order, face order, face corner order). */
extern const int DIM[8], NV[8], NF[8], NCH[8];
extern const int FV[8][6][4];    /* face corners */
extern const int FTYPE[8][6];    /* face class */
extern const int NFV[8][6];      /* number of face corners */
extern const int CORNER[8][8][3]; /* reference corner coordinates */
extern const char *ENAME[8];

static const int SC_BITS = 30;
static const int64_t ONE = (int64_t) 1 << SC_BITS;

struct Pt {
  int64_t x[3] = { 0, 0, 0 };
  bool operator== (const Pt &o) const { return x[0] == o.x[0] && x[1] == o.x[1] && x[2] == o.x[2]; }
  bool operator!= (const Pt &o) const { return !(*this == o); }
  bool operator< (const Pt &o) const { return std::make_tuple (x[0], x[1], x[2]) < std::make_tuple (o.x[0], o.x[1], o.x[2]); }
};
inline Pt operator- (const Pt &a, const Pt &b) { return Pt { { a.x[0] - b.x[0], a.x[1] - b.x[1], a.x[2] - b.x[2] } }; }
inline Pt operator+ (const Pt &a, const Pt &b) { return Pt { { a.x[0] + b.x[0], a.x[1] + b.x[1], a.x[2] + b.x[2] } }; }
typedef __int128 i128;

/* A convex cell with exact integer corners and a shape (one of the 8 classes). */
struct Cell {
  int shape = 0, nv = 0;
  int fp[6] = { 0, 1, 2, 3, 4, 5 }; /* face f of the element is face fp[f] of the reference table */
  Pt v[8];
};
/* corner coordinates of an element in its tree, exact; fails if the code returns non-dyadic values */
Cell cell_of (const t8_scheme *s, t8_eclass_t tc, const t8_element_t *e);
Cell root_cell (int eclass);
/* oriented volume times dim!-like constant: 6*vol for 3D, 2*area for 2D, length for 1D (absolute) */
i128 vol6 (const Cell &c);
bool inside (const Cell &outer, const Pt &p);          /* p in closed outer */
bool interiors_disjoint (const Cell &a, const Cell &b);
std::vector<Pt> face_points (const Cell &c, int f);    /* corners of the face in face corner order */
std::vector<Pt> sorted (std::vector<Pt> v);
/* all points on the closed facet (a hyperplane test is enough when they are inside the cell) */
bool on_face_plane (const Cell &c, int f, const Pt &p);
bool face_subset (const Cell &outer, int of, const std::vector<Pt> &pts); /* pts all within face of of outer */
std::string str (const Cell &c);
std::string str (const Pt &p);

/* model of the refinement: number of descendants of a shape after d refinements */
unsigned __int128 leaves (int eclass, int shape, int depth);
}  // namespace hx
#endif
