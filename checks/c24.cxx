/* C24: mesh files that are written describe the mesh, mesh files that are read give the mesh they describe. */
#include "cx.hxx"
#include <t8_vtk/t8_vtk_writer.h>
#include <t8_forest/t8_forest_io.h>
#include <t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.h>
#include <t8_forest/t8_forest_geometrical.h>
#include <unistd.h>
#include <cmath>
#include <climits>
int cx::PKG[2];
using namespace cx;

static std::string
scratch (const std::string &name)
{
  const char *d = getenv ("VERIF_SCRATCH");
  return std::string (d ? d : "/tmp") + "/" + name + "-" + std::to_string ((int) getpid ());
}
static bool
slurp (const std::string &f, std::string &out)
{
  FILE *fp = fopen (f.c_str (), "rb");
  if (!fp)
    return false;
  out.clear ();
  char b[4096];
  size_t n;
  while ((n = fread (b, 1, sizeof b, fp)) > 0)
    out.append (b, n);
  fclose (fp);
  return true;
}
static void
spit (const std::string &f, const std::string &s)
{
  FILE *fp = fopen (f.c_str (), "wb");
  if (!fp || fwrite (s.data (), 1, s.size (), fp) != s.size () || fclose (fp) != 0)
    mc::fail ("harness: cannot write %s", f.c_str ());
}
/* ------------------------------------------------------------------------------------------------ a small XML reader */
struct Xml {
  std::string tag, text;
  std::map<std::string, std::string> at;
  std::vector<Xml> ch;
  const Xml *
  find (const std::string &t) const
  {
    for (auto &c : ch)
      if (c.tag == t)
        return &c;
    return nullptr;
  }
  int
  count (const std::string &t) const
  {
    int n = 0;
    for (auto &c : ch)
      n += c.tag == t;
    return n;
  }
};
struct Parser {
  const std::string &s, &file;
  size_t i = 0;
  void
  ws ()
  {
    while (i < s.size () && isspace ((unsigned char) s[i]))
      i++;
  }
  std::string
  name ()
  {
    size_t b = i;
    while (i < s.size () && (isalnum ((unsigned char) s[i]) || strchr ("_:-.", s[i])))
      i++;
    MC_CHECK (i > b, "%s is no well-formed XML: a name is missing at byte %zu", file.c_str (), i);
    return s.substr (b, i - b);
  }
  void
  attributes (Xml &x)
  {
    for (;;) {
      ws ();
      MC_CHECK (i < s.size (), "%s is no well-formed XML: it ends inside a tag", file.c_str ());
      if (strchr ("/>?", s[i]))
        return;
      std::string n = name ();
      ws ();
      MC_CHECK (i < s.size () && s[i] == '=', "%s is no well-formed XML: attribute %s has no value", file.c_str (), n.c_str ());
      i++;
      ws ();
      MC_CHECK (i < s.size () && s[i] == '"', "%s is no well-formed XML: attribute %s is not quoted", file.c_str (), n.c_str ());
      size_t e = s.find ('"', i + 1);
      MC_CHECK (e != std::string::npos, "%s is no well-formed XML: attribute %s is not closed", file.c_str (), n.c_str ());
      MC_CHECK (!x.at.count (n), "%s is no well-formed XML: attribute %s is given twice", file.c_str (), n.c_str ());
      x.at[n] = s.substr (i + 1, e - i - 1);
      i = e + 1;
    }
  }
  Xml
  element ()
  {
    Xml x;
    MC_CHECK (i < s.size () && s[i] == '<', "%s is no well-formed XML: no tag at byte %zu", file.c_str (), i);
    i++;
    x.tag = name ();
    attributes (x);
    if (s[i] == '/') {
      i += 2;
      return x;
    }
    i++;
    for (;;) {
      size_t b = s.find ('<', i);
      MC_CHECK (b != std::string::npos, "%s is no well-formed XML: <%s> is not closed", file.c_str (), x.tag.c_str ());
      x.text += s.substr (i, b - i);
      i = b;
      if (s.compare (i, 2, "</") == 0) {
        i += 2;
        std::string n = name ();
        MC_CHECK (n == x.tag, "%s is no well-formed XML: <%s> is closed by </%s>", file.c_str (), x.tag.c_str (), n.c_str ());
        ws ();
        i++;
        return x;
      }
      x.ch.push_back (element ());
    }
  }
  Xml
  document ()
  {
    ws ();
    if (s.compare (i, 5, "<?xml") == 0) {
      size_t e = s.find ("?>", i);
      MC_CHECK (e != std::string::npos, "%s is no well-formed XML: prologue", file.c_str ());
      i = e + 2;
    }
    ws ();
    Xml x = element ();
    ws ();
    MC_CHECK (i == s.size (), "%s is no well-formed XML: text behind the end", file.c_str ());
    return x;
  }
};
static Xml
load (const std::string &file)
{
  std::string s;
  MC_CHECK (slurp (file, s), "file %s was not written", file.substr (file.rfind ('/') + 1).c_str ());
  std::string base = file.substr (file.rfind ('/') + 1);
  Parser p { s, base };
  return p.document ();
}
/* ------------------------------------------------------------------------------------------------ VTK files */
static const int VTYPE[8] = { 1, 3, 9, 5, 12, 10, 13, 14 };
/* edges of the cells in VTK's numbering of their points */
static const std::vector<std::pair<int, int>> VEDGE[8]
  = { {}, { { 0, 1 } }, { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } }, { { 0, 1 }, { 1, 2 }, { 2, 0 } },
      { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 }, { 4, 5 }, { 5, 6 }, { 6, 7 }, { 7, 4 }, { 0, 4 }, { 1, 5 }, { 2, 6 }, { 3, 7 } },
      { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 0, 3 }, { 1, 3 }, { 2, 3 } },
      { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 3, 4 }, { 4, 5 }, { 5, 3 }, { 0, 3 }, { 1, 4 }, { 2, 5 } },
      { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 }, { 0, 4 }, { 1, 4 }, { 2, 4 }, { 3, 4 } } };
typedef std::array<double, 3> V3;
struct VCell {
  int shape = 0, tree = 0, level = 0, rank = 0;
  long long id = 0;
  std::vector<V3> x; /* corners in the order of the class */
  std::vector<double> data;
};
static std::set<std::pair<int, int>>
edges_of (int shape)
{
  std::set<std::pair<int, int>> e;
  if (DIM[shape] == 1)
    e.insert ({ 0, 1 });
  if (DIM[shape] == 2)
    for (int f = 0; f < NF[shape]; f++)
      e.insert ({ std::min (FV[shape][f][0], FV[shape][f][1]), std::max (FV[shape][f][0], FV[shape][f][1]) });
  if (DIM[shape] == 3)
    for (int a = 0; a < NV[shape]; a++)
      for (int b = a + 1; b < NV[shape]; b++) {
        int n = 0;
        for (int f = 0; f < NF[shape]; f++) {
          int in = 0;
          for (int k = 0; k < NFV[shape][f]; k++)
            in += FV[shape][f][k] == a || FV[shape][f][k] == b;
          n += in == 2;
        }
        if (n >= 2)
          e.insert ({ a, b });
      }
  return e;
}
struct Array {
  std::string type;
  int comp = 1;
  std::vector<double> v;
};
static std::map<std::string, Array>
arrays (const Xml *x, const std::string &tag, const std::string &file)
{
  std::map<std::string, Array> r;
  if (!x)
    return r;
  for (auto &c : x->ch) {
    MC_CHECK (c.tag == tag, "%s: <%s> inside <%s>", file.c_str (), c.tag.c_str (), x->tag.c_str ());
    Array a;
    std::string n = c.at.count ("Name") ? c.at.at ("Name") : "";
    MC_CHECK (n != "" && !r.count (n), "%s: array '%s' is listed twice or has no name", file.c_str (), n.c_str ());
    a.type = c.at.count ("type") ? c.at.at ("type") : "";
    if (c.at.count ("NumberOfComponents"))
      a.comp = atoi (c.at.at ("NumberOfComponents").c_str ());
    MC_CHECK (c.at.count ("format") && c.at.at ("format") == "ascii", "%s: array %s is not in ascii format", file.c_str (), n.c_str ());
    const char *p = c.text.c_str ();
    for (;;) {
      while (isspace ((unsigned char) *p))
        p++;
      if (!*p)
        break;
      char *e;
      double d = strtod (p, &e);
      MC_CHECK (e != p && (isspace ((unsigned char) *e) || !*e), "%s: array %s contains '%.10s'", file.c_str (), n.c_str (), p);
      a.v.push_back (d);
      p = e;
    }
    r[n] = a;
  }
  return r;
}
struct Field {
  std::string name;
  int comp;
};
struct Wanted { /* which arrays */
  bool tree, rank, level, id;
  std::vector<Field> fields;
  bool points = true; /* fields are written for points as well */
};
static bool
same (double a, double b)
{
  return fabs (a - b) <= 1e-6 * std::max (1., fabs (b));
}
static std::map<std::string, int>
cell_arrays (const Wanted &w)
{
  std::map<std::string, int> r;
  if (w.tree)
    r["treeid"] = 1;
  if (w.rank)
    r["mpirank"] = 1;
  if (w.level)
    r["level"] = 1;
  if (w.id)
    r["element_id"] = 1;
  for (auto &f : w.fields)
    r[f.name] = f.comp;
  return r;
}
static void
check_names (const std::map<std::string, Array> &a, const std::map<std::string, int> &want, const char *file, const char *what)
{
  for (auto &[n, c] : want) {
    MC_CHECK (a.count (n), "%s: no %s array '%s'", file, what, n.c_str ());
    MC_CHECK (a.at (n).comp == c, "%s: %s array '%s' has %d components, expected %d", file, what, n.c_str (), a.at (n).comp, c);
  }
  for (auto &[n, x] : a)
    MC_CHECK (want.count (n), "%s: unexpected %s array '%s'", file, what, n.c_str ());
}
/* one process' file: exactly the given cells */
static void
check_vtu (const std::string &path, const std::vector<VCell> &cells, const Wanted &w, std::map<std::string, std::string> &types)
{
  std::string file = path.substr (path.rfind ('/') + 1);
  file = "..." + file.substr (file.find ('_') == std::string::npos ? 0 : file.rfind ('_'));
  Xml x = load (path);
  MC_CHECK (x.tag == "VTKFile" && x.at["type"] == "UnstructuredGrid", "%s is no unstructured grid", file.c_str ());
  const Xml *g = x.find ("UnstructuredGrid");
  MC_CHECK (g && g->count ("Piece") == 1 && x.ch.size () == 1 && g->ch.size () == 1, "%s: not one piece", file.c_str ());
  const Xml *p = g->find ("Piece");
  long np = 0;
  for (auto &c : cells)
    np += (long) c.x.size ();
  MC_CHECK (atol (p->at.at ("NumberOfCells").c_str ()) == (long) cells.size (), "%s: %s cells, expected %zu", file.c_str (), p->at.at ("NumberOfCells").c_str (), cells.size ());
  MC_CHECK (atol (p->at.at ("NumberOfPoints").c_str ()) >= 0, "%s: number of points", file.c_str ());
  size_t points = (size_t) atol (p->at.at ("NumberOfPoints").c_str ());
  MC_CHECK (p->count ("Points") == 1 && p->count ("Cells") == 1 && p->count ("CellData") <= 1 && p->count ("PointData") <= 1, "%s: sections of the piece", file.c_str ());
  auto P = arrays (p->find ("Points"), "DataArray", file), C = arrays (p->find ("Cells"), "DataArray", file), D = arrays (p->find ("CellData"), "DataArray", file), PD = arrays (p->find ("PointData"), "DataArray", file);
  MC_CHECK (P.size () == 1 && P.begin ()->second.comp == 3, "%s: point coordinates", file.c_str ());
  auto &xyz = P.begin ()->second.v;
  MC_CHECK (xyz.size () == 3 * points, "%s: %zu coordinates of %zu points", file.c_str (), xyz.size (), points);
  check_names (C, { { "connectivity", 1 }, { "offsets", 1 }, { "types", 1 } }, file.c_str (), "cell definition");
  check_names (D, cell_arrays (w), file.c_str (), "cell");
  std::map<std::string, int> pn;
  if (w.points)
    for (auto &f : w.fields)
      pn[f.name + "_points"] = f.comp;
  check_names (PD, pn, file.c_str (), "point");
  for (auto *m : { &P, &D, &PD })
    for (auto &[n, a] : *m) {
      std::string k = (m == &P ? "P/" : m == &D ? "C/" : "D/") + n;
      MC_CHECK (!types.count (k) || types[k] == a.type, "%s: array %s has type %s, elsewhere %s", file.c_str (), n.c_str (), a.type.c_str (), types[k].c_str ());
      types[k] = a.type;
    }
  auto &con = C["connectivity"].v, &off = C["offsets"].v, &typ = C["types"].v;
  MC_CHECK (off.size () == cells.size () && typ.size () == cells.size (), "%s: %zu offsets and %zu types of %zu cells", file.c_str (), off.size (), typ.size (), cells.size ());
  MC_CHECK ((long) con.size () == np, "%s: connectivity has %zu entries, the cells have %ld corners", file.c_str (), con.size (), np);
  for (auto &[n, a] : D)
    MC_CHECK (a.v.size () == cells.size () * a.comp, "%s: cell array %s has %zu values, expected %zu", file.c_str (), n.c_str (), a.v.size (), cells.size () * a.comp);
  for (auto &[n, a] : PD)
    MC_CHECK (a.v.size () == points * a.comp, "%s: point array %s has %zu values, expected %zu", file.c_str (), n.c_str (), a.v.size (), points * a.comp);
  size_t begin = 0;
  for (size_t i = 0; i < cells.size (); i++) {
    const VCell &c = cells[i];
    char where[100];
    snprintf (where, sizeof where, "%s: cell %zu (tree %d)", file.c_str (), i, c.tree);
    int n = (int) c.x.size ();
    MC_CHECK ((int) typ[i] == VTYPE[c.shape], "%s has type %d, expected %d", where, (int) typ[i], VTYPE[c.shape]);
    MC_CHECK ((long) off[i] == (long) begin + n, "%s ends at offset %ld, expected %ld", where, (long) off[i], (long) begin + n);
    std::vector<int> who (n, -1); /* corner of the leaf that is point k of the cell */
    std::vector<V3> q (n);
    for (int k = 0; k < n; k++) {
      long v = (long) con[begin + k];
      MC_CHECK (v >= 0 && v < (long) points, "%s refers to point %ld of %zu", where, v, points);
      for (int d = 0; d < 3; d++)
        q[k][d] = xyz[3 * v + d];
      for (int j = 0; j < n; j++)
        if (same (q[k][0], c.x[j][0]) && same (q[k][1], c.x[j][1]) && same (q[k][2], c.x[j][2]))
          who[k] = j;
      MC_CHECK (who[k] >= 0 && std::count (who.begin (), who.end (), who[k]) == 1, "%s: point %d (%g,%g,%g) is %s", where, k, q[k][0], q[k][1], q[k][2], who[k] < 0 ? "no corner of the element" : "a repeated corner");
      if (w.points)
        for (size_t f = 0, at = 0; f < w.fields.size (); at += w.fields[f++].comp)
          for (int d = 0; d < w.fields[f].comp; d++) {
            double got = PD[w.fields[f].name + "_points"].v[v * w.fields[f].comp + d];
            MC_CHECK (same (got, c.data[at + d]), "%s: value %g of %s at a corner, expected %g", where, got, w.fields[f].name.c_str (), c.data[at + d]);
          }
    }
    std::set<std::pair<int, int>> e;
    for (auto &[a, b] : VEDGE[c.shape])
      e.insert ({ std::min (who[a], who[b]), std::max (who[a], who[b]) });
    MC_CHECK (e == edges_of (c.shape), "%s: the points are in the wrong order for a cell of type %d", where, VTYPE[c.shape]);
    /* the refinement of tetrahedra and pyramids makes mirrored elements; hexahedra and root elements keep their orientation */
    if (c.shape == 4 || (c.level == 0 && (c.shape == 5 || c.shape == 7))) {
      auto det = [&] (const V3 &o, const V3 &a, const V3 &b, const V3 &z) {
        double u[3][3];
        for (int d = 0; d < 3; d++)
          u[0][d] = a[d] - o[d], u[1][d] = b[d] - o[d], u[2][d] = z[d] - o[d];
        return u[0][0] * (u[1][1] * u[2][2] - u[1][2] * u[2][1]) - u[0][1] * (u[1][0] * u[2][2] - u[1][2] * u[2][0]) + u[0][2] * (u[1][0] * u[2][1] - u[1][1] * u[2][0]);
      };
      double v = c.shape == 5 ? det (q[0], q[1], q[2], q[3]) : det (q[0], q[1], q[3], q[4]);
      MC_CHECK (v > 0, "%s: the cell is turned inside out", where);
    }
    begin += n;
    if (w.tree)
      MC_CHECK ((int) D["treeid"].v[i] == c.tree, "%s has tree number %d", where, (int) D["treeid"].v[i]);
    if (w.rank)
      MC_CHECK ((int) D["mpirank"].v[i] == c.rank, "%s has rank %d, expected %d", where, (int) D["mpirank"].v[i], c.rank);
    if (w.level)
      MC_CHECK ((int) D["level"].v[i] == c.level, "%s has level %d, expected %d", where, (int) D["level"].v[i], c.level);
    if (w.id)
      MC_CHECK ((long long) D["element_id"].v[i] == c.id, "%s has number %lld, expected %lld", where, (long long) D["element_id"].v[i], c.id);
    for (size_t f = 0, at = 0; f < w.fields.size (); at += w.fields[f++].comp)
      for (int d = 0; d < w.fields[f].comp; d++) {
        double got = D[w.fields[f].name].v[i * w.fields[f].comp + d];
        MC_CHECK (same (got, c.data[at + d]), "%s: value %g of %s, expected %g", where, got, w.fields[f].name.c_str (), c.data[at + d]);
      }
    mc::checked ("written cells");
  }
}
static void
check_pvtu (const std::string &prefix, int pieces, const Wanted &w, const std::map<std::string, std::string> &types)
{
  std::string base = prefix.substr (prefix.rfind ('/') + 1);
  Xml x = load (prefix + ".pvtu");
  MC_CHECK (x.tag == "VTKFile" && x.at["type"] == "PUnstructuredGrid" && x.ch.size () == 1, ".pvtu is no parallel unstructured grid");
  const Xml *g = x.find ("PUnstructuredGrid");
  MC_CHECK (g, ".pvtu: no grid");
  int n = 0;
  for (auto &c : g->ch) {
    MC_CHECK (c.tag == "Piece" || c.tag == "PPoints" || c.tag == "PCellData" || c.tag == "PPointData", ".pvtu: <%s> directly inside the grid", c.tag.c_str ());
    if (c.tag == "Piece") {
      char b[30];
      snprintf (b, sizeof b, "_%04d.vtu", n++);
      MC_CHECK (c.at.at ("Source") == base + b, ".pvtu: piece %d is %s", n - 1, c.at.at ("Source").c_str ());
    }
  }
  MC_CHECK (n == pieces, ".pvtu lists %d pieces, %d were written", n, pieces);
  MC_CHECK (g->count ("PPoints") == 1 && g->count ("PCellData") <= 1 && g->count ("PPointData") <= 1, ".pvtu: sections");
  auto P = arrays (g->find ("PPoints"), "PDataArray", ".pvtu"), D = arrays (g->find ("PCellData"), "PDataArray", ".pvtu"), PD = arrays (g->find ("PPointData"), "PDataArray", ".pvtu");
  MC_CHECK (P.size () == 1 && P.begin ()->second.comp == 3, ".pvtu: point coordinates");
  check_names (D, cell_arrays (w), ".pvtu", "cell");
  std::map<std::string, int> pn;
  if (w.points)
    for (auto &f : w.fields)
      pn[f.name + "_points"] = f.comp;
  check_names (PD, pn, ".pvtu", "point");
  for (auto *m : { &P, &D, &PD })
    for (auto &[nm, a] : *m) {
      std::string k = (m == &P ? "P/" : m == &D ? "C/" : "D/") + nm;
      MC_CHECK (!types.count (k) || types.at (k) == a.type, ".pvtu: array %s has type %s, in the pieces %s", nm.c_str (), a.type.c_str (), types.at (k).c_str ());
    }
  mc::checked (".pvtu files");
}
static V3
corner (const Cell &c, int i, int tree)
{
  V3 r;
  for (int d = 0; d < 3; d++)
    r[d] = c.v[i].x[d] / (double) ONE + (d == 0 ? SHIFT * tree : 0);
  return r;
}
static double
value (int leaf, int slot)
{
  return (leaf * 13 % 97) - 40 + slot * 0.25 + leaf * 100;
}
static void
part_forest (bool options)
{
  std::vector<std::string> names;
  if (options)
    names = mc::thorough () ? std::vector<std::string> { "quad2_flip", "tri_quad_tri", "hex_pyra_tet", "line3" } : std::vector<std::string> { "tri_quad_tri", "hex_pyra_tet" };
  else
    for (auto &m : catalogue ())
      if (m.dim () > 0)
        names.push_back (m.name);
  const Mesh &m = choose_mesh (names);
  SHIFT = 4;
  int P = options ? 2 : 1 + mc::choose (mc::q (2, 3), "P");
  Model M = choose_model (m, 0, options ? 0 : mc::q (m.dim () > 2 ? 0 : 1, 1), 1, 9);
  Cuts o = choose_cuts ((int) M.size (), P, !options && mc::thorough ());
  int ghost = mc::choose (2, "ghost layer"), cm_part = options ? 0 : mc::choose (2, "partitioned"), write_ghosts = ghost || options ? mc::choose (2, "write ghosts") : 0;
  int flags = options ? mc::choose (16, "flags") : 15, data = options ? mc::choose (5, "data") : 3;
  if (m.has_pyramid () && ghost && P > 1 && !options && m.name == "pyramid")
    ;
  Wanted w;
  w.tree = flags & 1, w.rank = flags & 2, w.level = flags & 4, w.id = flags & 8;
  static const std::vector<std::vector<Field>> F = { {}, { { "a", 1 } }, { { "v", 3 } }, { { "a", 1 }, { "v", 3 } }, { { "a", 1 }, { "b", 1 }, { "v", 3 }, { "w", 3 } } };
  w.fields = F[data];
  /* the three entry points */
  int call = mc::choose (options && flags == 15 && !data && !write_ghosts ? 3 : options ? 2 : 1, "call");
  std::string prefix = scratch ("forest");
  for (int p = 0; p < 4; p++) {
    char b[30];
    snprintf (b, sizeof b, "_%04d.vtu", p);
    unlink ((prefix + b).c_str ());
  }
  unlink ((prefix + ".pvtu").c_str ());
  std::vector<std::vector<VCell>> cells (P);
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) {
    t8_forest_t f = build_forest (M, o, rank, cm_part);
    if (ghost) {
      t8_forest_t g;
      t8_forest_init (&g);
      t8_forest_set_copy (g, f);
      t8_forest_set_ghost (g, 1, T8_GHOST_FACES);
      t8_forest_commit (g);
      f = g;
    }
    std::vector<int> who;
    for (int i = o[rank]; i < o[rank + 1]; i++)
      who.push_back (i);
    size_t nl = who.size ();
    std::vector<int> G = ghost && P > 1 ? ghost_leaves (M, o, rank) : std::vector<int> ();
    MC_CHECK (t8_forest_get_num_ghosts (f) == (t8_locidx_t) G.size (), "rank %d has %d ghosts, expected %zu", rank, t8_forest_get_num_ghosts (f), G.size ());
    who.insert (who.end (), G.begin (), G.end ());
    std::vector<std::vector<double>> buf (w.fields.size ());
    std::vector<t8_vtk_data_field_t> df (w.fields.size () + 1);
    for (size_t i = 0, slot = 0; i < w.fields.size (); slot += w.fields[i++].comp) {
      for (int l : who)
        for (int d = 0; d < w.fields[i].comp; d++)
          buf[i].push_back (value (l, (int) slot + d));
      buf[i].push_back (0);
      df[i].type = w.fields[i].comp == 1 ? T8_VTK_SCALAR : T8_VTK_VECTOR;
      snprintf (df[i].description, sizeof df[i].description, "%s", w.fields[i].name.c_str ());
      df[i].data = buf[i].data ();
    }
    for (size_t k = 0; k < (write_ghosts ? who.size () : nl); k++) {
      int l = who[k];
      VCell c;
      const Node &nd = M.nd (l);
      c.shape = nd.c.shape;
      for (int i = 0; i < nd.c.nv; i++)
        c.x.push_back (corner (nd.c, i, M.L[l].tree));
      c.tree = k < nl ? M.L[l].tree : -1;
      c.level = M.L[l].level ();
      c.rank = rank;
      c.id = k < nl ? l : -1;
      for (size_t i = 0, slot = 0; i < w.fields.size (); slot += w.fields[i++].comp)
        for (int d = 0; d < w.fields[i].comp; d++)
          c.data.push_back (value (l, (int) slot + d));
      cells[rank].push_back (c);
    }
    int nf = (int) w.fields.size ();
    t8_vtk_data_field_t *dp = nf ? df.data () : nullptr;
    int ok = call == 0   ? t8_forest_vtk_write_file (f, prefix.c_str (), w.tree, w.rank, w.level, w.id, write_ghosts, nf, dp)
             : call == 1 ? t8_forest_write_vtk_ext (f, prefix.c_str (), w.tree, w.rank, w.level, w.id, write_ghosts, 0, 1, nf, dp)
                         : t8_forest_write_vtk (f, prefix.c_str ());
    MC_CHECK (ok, "rank %d: writing failed", rank);
    t8_forest_unref (&f);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  std::map<std::string, std::string> types;
  for (int p = 0; p < P; p++) {
    char b[30];
    snprintf (b, sizeof b, "_%04d.vtu", p);
    check_vtu (prefix + b, cells[p], w, types);
    unlink ((prefix + b).c_str ());
  }
  check_pvtu (prefix, P, w, types);
  unlink ((prefix + ".pvtu").c_str ());
  mc::state (mc::mix (M.hash (), mc::hash_str (mc::describe ())));
  mc::sample (mc::describe () + " " + M.str ());
}
static void
part_cmesh ()
{
  std::vector<std::string> names;
  for (auto &m : catalogue ())
    if (m.dim () > 0)
      names.push_back (m.name);
  Spec s;
  s.m = choose_mesh (names);
  s.at.resize (s.T ());
  s.vertices = true;
  for (int t = 0; t < s.T (); t++) {
    std::vector<double> v;
    for (int i = 0; i < NV[s.m.cls[t]]; i++)
      for (int d = 0; d < 3; d++)
        v.push_back (CORNER[s.m.cls[t]][i][d] + (d == 0 ? 4 * t : 0));
    s.xyz.push_back (v);
  }
  int P = 1 + mc::choose (3, "P"), part = mc::choose (2, "partitioned");
  Ranges R;
  if (part)
    R = choose_ranges (s.T (), P, "ranges", false);
  else if (P == 3)
    mc::prune ();
  std::string prefix = scratch ("cmesh");
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    t8_cmesh_register_geometry<t8_geometry_linear> (cm);
    for (int t = 0; t < s.T (); t++) {
      t8_cmesh_set_tree_class (cm, t, (t8_eclass_t) s.m.cls[t]);
      t8_cmesh_set_tree_vertices (cm, t, s.xyz[t].data (), NV[s.m.cls[t]]);
    }
    for (auto &j : s.m.joins)
      t8_cmesh_set_join (cm, j.t0, j.t1, j.f0, j.f1, j.orient);
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    if (part) {
      t8_cmesh_t c2;
      t8_cmesh_init (&c2);
      t8_cmesh_set_derive (c2, cm);
      t8_cmesh_set_partition_range (c2, 3, R[rank].first, R[rank].first + R[rank].n - 1);
      t8_cmesh_commit (c2, sc_MPI_COMM_WORLD);
      cm = c2;
    }
    int ok = t8_cmesh_vtk_write_file (cm, prefix.c_str ());
    MC_CHECK (ok, "rank %d: writing failed", rank);
    t8_cmesh_unref (&cm);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  Wanted w { true, true, false, false, {}, true };
  std::map<std::string, std::string> types;
  for (int p = 0; p < (part ? P : 1); p++) {
    std::vector<VCell> cells;
    auto add = [&] (int t, bool ghost) {
      VCell c;
      c.shape = s.m.cls[t];
      c.tree = ghost ? -1 : t;
      c.rank = p;
      for (int i = 0; i < NV[c.shape]; i++)
        c.x.push_back ({ s.xyz[t][3 * i], s.xyz[t][3 * i + 1], s.xyz[t][3 * i + 2] });
      cells.push_back (c);
    };
    for (int t = 0; t < s.T (); t++)
      if (!part || R[p].has (t))
        add (t, false);
    std::vector<int> order;
    if (part)
      for (int t : ghosts_of (s.m, R[p]))
        order.push_back (t);
    char b[30];
    snprintf (b, sizeof b, "_%04d.vtu", p);
    /* the order of the ghosts is not promised: take the one of the file */
    if (order.size () > 1) {
      Xml x = load (prefix + b);
      auto A = arrays (x.ch[0].ch[0].find ("Points"), "DataArray", b);
      auto &v = A.begin ()->second.v;
      size_t at = 0;
      for (auto &c : cells)
        at += 3 * c.x.size ();
      std::vector<int> o2;
      std::set<int> left (order.begin (), order.end ());
      while (at < v.size ()) {
        int t = (int) floor (v[at] / 4 + 1e-9);
        if (!left.count (t))
          break;
        left.erase (t);
        o2.push_back (t);
        at += 3 * NV[s.m.cls[t]];
      }
      if (left.empty ())
        order = o2;
    }
    for (int t : order)
      add (t, true);
    check_vtu (prefix + b, cells, w, types);
    unlink ((prefix + b).c_str ());
  }
  check_pvtu (prefix, part ? P : 1, w, types);
  unlink ((prefix + ".pvtu").c_str ());
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe () + " " + s.m.name);
}
/* ------------------------------------------------------------------------------------------------ Gmsh files */
static const int GTYPE[8] = { 15, 1, 3, 2, 5, 4, 6, 7 };
/* corner of the class that is node k of the Gmsh element */
static const int GNODE[8][8] = { { 0 }, { 0, 1 }, { 0, 1, 3, 2 }, { 0, 1, 2 }, { 0, 1, 3, 2, 4, 5, 7, 6 }, { 0, 1, 3, 2 }, { 0, 1, 2, 3, 4, 5 }, { 0, 1, 3, 2, 4 } };
struct Gmsh {
  Mesh m;
  std::vector<std::vector<int>> v; /* per tree: node of every corner */
  std::vector<V3> x;               /* per node */
};
struct Variant {
  int tags = 0, blocks = 0, extra = 0, reversed = 0;
};
static long
tag_of (const Variant &k, int node, int n)
{
  switch (k.tags) {
  case 0:
    return node + 1;
  case 1:
    return n - node;
  case 2:
    return 3 + 7 * node;
  case 3:
    return 1 + (long) node * n;
  case 4:
    return 3000000000L + 5 * node;
  case 5:
    return 1 + 255L * node; /* equal modulo small table sizes */
  default:
    return 1 + ((long) node << 32); /* agree in the lower half */
  }
}
static int
entity_dim (const Variant &k, int node, int dim)
{
  return k.blocks ? node % 4 : dim;
}
static std::string
gmsh_file (const Gmsh &g, const Variant &k)
{
  std::string s = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n";
  char b[400];
  int n = (int) g.x.size (), dim = g.m.dim ();
  if (k.extra)
    s += "$Comments\nmade for a check\n$EndComments\n$PhysicalNames\n1\n2 1 \"all\"\n$EndPhysicalNames\n";
  std::vector<int> order;
  for (int i = 0; i < n; i++)
    order.push_back (k.reversed ? n - 1 - i : i);
  long lo = LONG_MAX, hi = 0;
  for (int i = 0; i < n; i++)
    lo = std::min (lo, tag_of (k, i, n)), hi = std::max (hi, tag_of (k, i, n));
  snprintf (b, sizeof b, "$Nodes\n%d %d %ld %ld\n", k.blocks ? n + 1 : 1, n, lo, hi);
  s += b;
  auto coord = [&] (int i, int par) {
    snprintf (b, sizeof b, "%.17g %.17g %.17g", g.x[i][0], g.x[i][1], g.x[i][2]);
    s += b;
    for (int p = 0; p < par; p++) {
      snprintf (b, sizeof b, " %.17g", 0.125 + i + 0.5 * p);
      s += b;
    }
    s += "\n";
  };
  if (!k.blocks) {
    snprintf (b, sizeof b, "%d 1 0 %d\n", dim, n);
    s += b;
    for (int i : order)
      s += std::to_string (tag_of (k, i, n)) + "\n";
    for (int i : order)
      coord (i, 0);
  }
  else {
    for (int i : order) {
      int d = entity_dim (k, i, dim), par = d == 1 || d == 2;
      snprintf (b, sizeof b, "%d %d %d 1\n", d, 10 + i, par);
      s += b;
      s += std::to_string (tag_of (k, i, n)) + "\n";
      coord (i, par ? d : 0);
    }
    s += "2 99 0 0\n"; /* an empty block */
  }
  s += "$EndNodes\n";
  /* blocks of elements */
  std::string e;
  int nb = 0, ne = 0;
  auto element = [&] (int type, const std::vector<long> &t) {
    e += std::to_string (++ne) + " ";
    for (long x : t)
      e += std::to_string (x) + " ";
    e += "\n";
  };
  auto block = [&] (int d, int type, int count) {
    nb++;
    snprintf (b, sizeof b, "%d %d %d %d\n", d, 1 + nb, type, count);
    e += b;
  };
  auto lower = [&] () {
    if (!k.extra)
      return;
    if (dim > 0) {
      block (0, 15, 2);
      element (15, { tag_of (k, 0, n) });
      element (15, { tag_of (k, n - 1, n) });
    }
    if (dim > 1) {
      block (1, 1, 1);
      element (1, { tag_of (k, 0, n), tag_of (k, 1, n) });
    }
    if (dim > 2) {
      block (2, 2, 1);
      element (2, { tag_of (k, 0, n), tag_of (k, 1, n), tag_of (k, 2, n) });
    }
    if (dim < 3 && n >= 4) {
      block (3, 4, 1);
      element (4, { tag_of (k, 0, n), tag_of (k, 1, n), tag_of (k, 2, n), tag_of (k, 3, n) });
    }
  };
  for (size_t t = 0; t < g.m.cls.size ();) {
    size_t u = t + 1;
    while (!k.blocks && u < g.m.cls.size () && g.m.cls[u] == g.m.cls[t])
      u++;
    lower ();
    block (dim, GTYPE[g.m.cls[t]], (int) (u - t));
    for (; t < u; t++) {
      std::vector<long> ids;
      for (int i = 0; i < NV[g.m.cls[t]]; i++)
        ids.push_back (tag_of (k, g.v[t][GNODE[g.m.cls[t]][i]], n));
      element (GTYPE[g.m.cls[t]], ids);
    }
  }
  lower ();
  snprintf (b, sizeof b, "$Elements\n%d %d 1 %d\n", nb, ne, ne);
  s += b;
  s += e + "$EndElements\n";
  return s;
}
static void
check_read (const Gmsh &g, const Variant &k, int P)
{
  int part = mc::choose (2, "partition"), mainp = part ? mc::choose (P, "main process") : 0;
  std::string prefix = scratch ("read");
  spit (prefix + ".msh", gmsh_file (g, k));
  Spec s;
  s.m = g.m;
  s.at.resize (s.T ());
  s.vertices = true;
  for (int t = 0; t < s.T (); t++) {
    std::vector<double> c;
    for (int v : g.v[t])
      c.insert (c.end (), g.x[v].begin (), g.x[v].end ());
    s.xyz.push_back (c);
  }
  Ranges R;
  if (part)
    for (int p = 0; p < P; p++) {
      Range r;
      r.first = p <= mainp ? 0 : s.T ();
      r.n = p == mainp ? s.T () : 0;
      R.push_back (r);
    }
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    t8_cmesh_disable_negative_volume_check (cm);
    t8_cmesh_from_msh_file (&cm, prefix.c_str (), part, sc_MPI_COMM_WORLD, g.m.dim (), mainp, 0);
    MC_CHECK (cm != nullptr, "rank %d: the file was not accepted", rank);
    check_cmesh (cm, s, R, rank, "read mesh");
    int n = (int) g.x.size ();
    /* numbers of the vertices: equal exactly if it is the same node */
    if (!part || rank == mainp) {
      std::map<long long, int> node_of;
      for (int t = 0; t < s.T (); t++) {
        const t8_gloidx_t *id = t8_cmesh_get_attribute_gloidx_array (cm, t8_get_package_id (), T8_CMESH_GLOBAL_VERTICES_ATTRIBUTE_KEY, t, NV[g.m.cls[t]]);
        MC_CHECK (id, "tree %d has no global vertex numbers", t);
        const int *ent = (const int *) t8_cmesh_get_attribute (cm, t8_get_package_id (), T8_CMESH_NODE_GEOMETRY_ATTRIBUTE_KEY, t);
        const double *par = (const double *) t8_cmesh_get_attribute (cm, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY, t);
        MC_CHECK (ent && par, "tree %d has no node data", t);
        for (int i = 0; i < NV[g.m.cls[t]]; i++) {
          int v = g.v[t][i];
          auto it = node_of.find (id[i]);
          if (it != node_of.end ())
            MC_CHECK (it->second == v, "tree %d: corner %d is node %ld, but has the vertex number %lld of node %ld", t, i, tag_of (k, v, n), (long long) id[i], tag_of (k, it->second, n));
          for (auto &[a, b] : node_of)
            MC_CHECK (b != v || a == id[i], "tree %d: corner %d is node %ld and has vertex number %lld, elsewhere %lld", t, i, tag_of (k, v, n), (long long) id[i], a);
          node_of[id[i]] = v;
          int d = entity_dim (k, v, g.m.dim ()), tag = k.blocks ? 10 + v : 1;
          MC_CHECK (ent[2 * i] == d && ent[2 * i + 1] == tag, "tree %d: corner %d lies on entity %d of dimension %d, expected %d, %d", t, i, ent[2 * i + 1], ent[2 * i], tag, d);
          if (k.blocks && (d == 1 || d == 2))
            for (int q = 0; q < d; q++)
              MC_CHECK (par[2 * i + q] == 0.125 + v + 0.5 * q, "tree %d: parameter %d of corner %d is %g, expected %g", t, q, i, par[2 * i + q], 0.125 + v + 0.5 * q);
          mc::checked ("read corners");
        }
      }
      if (!part)
        for (auto &[id, v] : node_of) {
          std::set<std::pair<int, int>> want, got;
          for (int t = 0; t < s.T (); t++)
            for (int i = 0; i < NV[g.m.cls[t]]; i++)
              if (g.v[t][i] == v)
                want.insert ({ t, i });
          for (auto &[t, i] : t8_cmesh_get_vertex_to_tree_list (cm, id))
            got.insert ({ (int) t, (int) i });
          MC_CHECK (want == got, "node %ld is a corner of %zu trees, %zu are listed", tag_of (k, v, n), want.size (), got.size ());
        }
    }
    t8_cmesh_unref (&cm);
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  unlink ((prefix + ".msh").c_str ());
}
static Variant
choose_variant (bool all)
{
  Variant k;
  k.tags = mc::choose (all ? 7 : 2, "tags");
  if (!all && k.tags)
    k.tags = 3;
  k.blocks = mc::choose (2, "blocks");
  k.extra = all ? mc::choose (2, "other elements") : k.blocks;
  k.reversed = all ? mc::choose (2, "reversed") : k.blocks;
  return k;
}
/* two cells glued in every possible way */
static void
part_two ()
{
  Gmsh g;
  int ca = 1 + mc::choose (7, "class_a"), cb = 1 + mc::choose (7, "class_b");
  if (DIM[ca] != DIM[cb])
    mc::prune ();
  int fa = mc::choose (NF[ca], "face_a"), fb = mc::choose (NF[cb], "face_b");
  if (FTYPE[ca][fa] != FTYPE[cb][fb])
    mc::prune ();
  int orient = mc::choose (NFV[ca][fa], "orientation");
  g.m = mk ("two", { ca, cb }, { { 0, 1, fa, fb, orient } });
  std::vector<int> ab, ba;
  glue_maps (ca, fa, cb, fb, orient, ab, ba);
  g.v.resize (2);
  for (int i = 0; i < NV[ca]; i++) {
    g.v[0].push_back ((int) g.x.size ());
    g.x.push_back ({ CORNER[ca][i][0] + 0.25, CORNER[ca][i][1] - 0.5, (double) CORNER[ca][i][2] });
  }
  g.v[1].assign (NV[cb], -1);
  for (int i = 0; i < NFV[ca][fa]; i++)
    g.v[1][FV[cb][fb][ab[i]]] = g.v[0][FV[ca][fa][i]];
  for (int i = 0; i < NV[cb]; i++)
    if (g.v[1][i] < 0) {
      g.v[1][i] = (int) g.x.size ();
      g.x.push_back ({ 3. + CORNER[cb][i][0], CORNER[cb][i][1] * 2., CORNER[cb][i][2] - 1.5 });
    }
  Variant k = choose_variant (false);
  check_read (g, k, 1);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
/* two cells that share any of their nodes: they are joined exactly at the faces all of whose nodes are shared */
static void
part_shared ()
{
  static const std::vector<std::pair<int, int>> pairs = { { L, L }, { T, T }, { T, Q }, { Q, Q }, { E, E }, { E, Y }, { Y, E }, { E, P } };
  static const std::vector<std::pair<int, int>> more = { { Q, T }, { Y, Y }, { P, E } };
  auto all = pairs;
  if (mc::thorough ())
    all.insert (all.end (), more.begin (), more.end ());
  auto [ca, cb] = mc::pick (all, "classes");
  Gmsh g;
  g.v.resize (2);
  for (int i = 0; i < NV[ca]; i++) {
    g.v[0].push_back ((int) g.x.size ());
    g.x.push_back ({ CORNER[ca][i][0] + 0.25, CORNER[ca][i][1] - 0.5, (double) CORNER[ca][i][2] });
  }
  std::vector<int> free;
  for (int i = 0; i < NV[ca]; i++)
    free.push_back (i);
  for (int i = 0; i < NV[cb]; i++) {
    int k = mc::choose (1 + (int) free.size (), "node");
    if (!k) {
      g.v[1].push_back ((int) g.x.size ());
      g.x.push_back ({ 3. + CORNER[cb][i][0], CORNER[cb][i][1] * 2., CORNER[cb][i][2] - 1.5 });
    }
    else {
      g.v[1].push_back (free[k - 1]);
      free.erase (free.begin () + k - 1);
    }
  }
  std::vector<Join> joins;
  for (int fa = 0; fa < NF[ca]; fa++)
    for (int fb = 0; fb < NF[cb]; fb++) {
      std::set<int> a, b;
      for (int i = 0; i < NFV[ca][fa]; i++)
        a.insert (g.v[0][FV[ca][fa][i]]);
      for (int i = 0; i < NFV[cb][fb]; i++)
        b.insert (g.v[1][FV[cb][fb][i]]);
      if (a != b)
        continue;
      int orient = -1;
      for (int o = 0; o < NFV[ca][fa] && orient < 0; o++) {
        std::vector<int> ab, ba;
        glue_maps (ca, fa, cb, fb, o, ab, ba);
        bool fits = true;
        for (int i = 0; i < NFV[ca][fa]; i++)
          fits = fits && g.v[1][FV[cb][fb][ab[i]]] == g.v[0][FV[ca][fa][i]];
        if (fits)
          orient = o;
      }
      if (orient < 0)
        mc::prune (); /* the common face is described as a mirrored or a twisted one */
      joins.push_back ({ 0, 1, fa, fb, orient });
    }
  g.m = mk ("shared", { ca, cb }, joins);
  Variant k;
  k.tags = mc::pick (std::vector<int> { 0, 5, 6 }, "tags");
  check_read (g, k, 1);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
static bool
make_gmsh (const Mesh &m, Gmsh &g)
{
  g.m = m;
  std::vector<std::vector<int>> id (m.cls.size ());
  std::vector<int> par;
  for (size_t t = 0; t < m.cls.size (); t++)
    for (int i = 0; i < NV[m.cls[t]]; i++) {
      id[t].push_back ((int) par.size ());
      par.push_back ((int) par.size ());
    }
  std::function<int (int)> root = [&] (int a) { return par[a] == a ? a : par[a] = root (par[a]); };
  for (auto &j : m.joins) {
    std::vector<int> ab, ba;
    glue_maps (m.cls[j.t0], j.f0, m.cls[j.t1], j.f1, j.orient, ab, ba);
    for (int i = 0; i < NFV[m.cls[j.t0]][j.f0]; i++)
      par[root (id[j.t1][FV[m.cls[j.t1]][j.f1][ab[i]]])] = root (id[j.t0][FV[m.cls[j.t0]][j.f0][i]]);
  }
  std::map<int, int> num;
  g.v.assign (m.cls.size (), {});
  for (size_t t = 0; t < m.cls.size (); t++)
    for (int i = 0; i < NV[m.cls[t]]; i++) {
      int r = root (id[t][i]);
      if (!num.count (r)) {
        num[r] = (int) g.x.size ();
        int c = (int) g.x.size ();
        g.x.push_back ({ c * 1., c % 3 * 0.5, c * c * 0.125 - 1 });
      }
      g.v[t].push_back (num[r]);
    }
  /* the mesh must be one that is determined by its vertices */
  std::map<std::vector<int>, std::vector<std::pair<int, int>>> faces;
  for (size_t t = 0; t < m.cls.size (); t++) {
    std::set<int> distinct (g.v[t].begin (), g.v[t].end ());
    if (distinct.size () != g.v[t].size ())
      return false;
    for (int f = 0; f < NF[m.cls[t]]; f++) {
      std::vector<int> k;
      for (int i = 0; i < NFV[m.cls[t]][f]; i++)
        k.push_back (g.v[t][FV[m.cls[t]][f][i]]);
      std::sort (k.begin (), k.end ());
      faces[k].push_back ({ (int) t, f });
    }
  }
  size_t joined = 0;
  for (auto &[k, v] : faces) {
    if (v.size () > 2)
      return false;
    joined += v.size () == 2;
  }
  return joined == m.joins.size ();
}
static void
part_catalogue ()
{
  std::vector<std::string> names;
  for (auto &m : catalogue ()) {
    Gmsh g;
    if (m.dim () > 0 && m.which == 0 && make_gmsh (m, g))
      names.push_back (m.name);
  }
  const Mesh &m = choose_mesh (names);
  Gmsh g;
  make_gmsh (m, g);
  Variant k = choose_variant (true);
  int P = 1 + mc::choose (mc::q (2, 3), "P");
  check_read (g, k, P);
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe () + " " + m.name);
}
/* files that cannot be read: every process learns about it, nothing is left over */
static void
part_bad ()
{
  Gmsh g;
  make_gmsh (mesh_by_name (mc::pick (std::vector<std::string> { "tri_quad_tri", "hex_prism" }, "mesh")), g);
  Variant k;
  k.blocks = mc::choose (2, "blocks");
  k.extra = mc::choose (2, "other elements");
  std::string s = gmsh_file (g, k);
  int what = mc::choose (7, "defect"), dim = g.m.dim ();
  bool missing = false;
  auto replace = [&] (const std::string &a, const std::string &b) {
    size_t i = s.find (a);
    if (i == std::string::npos)
      mc::fail ("harness: '%s' is not in the file", a.c_str ());
    s.replace (i, a.size (), b);
  };
  switch (what) {
  case 0:
    missing = true;
    break;
  case 1:
    replace ("4.1 0 8", "2.2 0 8");
    break;
  case 2:
    replace ("4.1 0 8", "4.1 1 8");
    break;
  case 3: /* no cells of this dimension */
    dim = k.extra ? (dim == 2 ? 0 : 1) : dim == 2 ? 3 : 2;
    if (k.extra) {
      /* leave only cells of the full dimension and points */
      Variant k2 = k;
      k2.extra = 0;
      s = gmsh_file (g, k2);
      dim = 1;
    }
    break;
  case 4: { /* cells of second order */
    size_t at = s.find ("\n", s.find ("\n", s.find ("$Elements")) + 1) + 1;
    for (;;) {
      int d, tag, type, len = 0;
      long n;
      if (sscanf (s.c_str () + at, "%d %d %d %ld%n", &d, &tag, &type, &n, &len) != 4)
        mc::fail ("harness: no block");
      if (d == dim) {
        s.replace (at, len, std::to_string (d) + " " + std::to_string (tag) + (dim == 2 ? " 9 " : " 12 ") + std::to_string (n));
        break;
      }
      for (long l = 0; l <= n; l++)
        at = s.find ("\n", at) + 1;
    }
    break;
  }
  case 5: /* the file ends early: after any line of the elements but the last */
  case 6: { /* or after any line before */
    std::vector<size_t> ends;
    size_t el = s.find ("$Elements"), last = s.find ("$EndElements");
    for (size_t i = 0; i < s.size (); i++)
      if (s[i] == '\n')
        ends.push_back (i + 1);
    std::vector<size_t> c;
    for (size_t e : ends)
      if (what == 5 ? e > el && e < last : e <= el)
        c.push_back (e);
    s.resize (c[mc::choose ((int) c.size (), "length")]);
    break;
  }
  }
  int P = 1 + mc::choose (2, "P"), part = mc::choose (2, "partition"), mainp = part ? mc::choose (P, "main process") : 0;
  std::string prefix = scratch ("bad");
  unlink ((prefix + ".msh").c_str ());
  if (!missing)
    spit (prefix + ".msh", s);
  long bal = mem_balance ();
  vmpi::Config cfg;
  vmpi::run (P, cfg, [&] (int rank) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    t8_cmesh_disable_negative_volume_check (cm);
    t8_cmesh_from_msh_file (&cm, prefix.c_str (), part, sc_MPI_COMM_WORLD, dim, mainp, 0);
    MC_CHECK (cm == nullptr, "rank %d: a mesh was made from a file that cannot be read", rank);
    mc::checked ("rejected files");
  });
  MC_CHECK (mem_balance () == bal, "allocations left over: %ld", mem_balance () - bal);
  unlink ((prefix + ".msh").c_str ());
  mc::state (mc::hash_str (mc::describe ()));
  mc::sample (mc::describe ());
}
int
main (int argc, char **argv)
{
  hx::init ();
  cx::init_packages ();
  mc::Options o;
  o.property = "C24";
  o.bounds = "";
  return mc::main (argc, argv, o, [] () {
    switch (mc::choose (7, "part")) {
    case 0:
      return part_forest (true);
    case 1:
      return part_forest (false);
    case 2:
      return part_cmesh ();
    case 3:
      return part_two ();
    case 4:
      return part_catalogue ();
    case 5:
      return part_shared ();
    default:
      return part_bad ();
    }
  });
}
