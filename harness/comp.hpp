// Configurations built from components: description, files and derivation of ports, shared by the component-topology and
// port-assembly harnesses.
#ifndef VERIF_COMP_HPP
#define VERIF_COMP_HPP
#include "topo.hpp"
#include "component_topology_handler.hpp"
#include "hdf5_utils.hpp"
#include <memory>
#include <sys/stat.h>
using namespace mfem; using namespace std; using vc::X; using vc::S; using namespace topo;

// ---- description of a configuration, independent of the code under test
struct Place { int comp; double t[3]; int quarter; };                                  // component, translation, quarter turns (2D)
struct Port { int m1, m2, a1, a2; string ref; P3 shift; };
struct Bdr { int g, m, a; };
struct RefPort { string name, c1, c2; int a1, a2; double conf[6]; };
struct Setup
{
   vector<string> names, files; vector<Place> places; vector<Port> ports; vector<Bdr> bdrs; vector<RefPort> refs;
   vector<string> extraComp; int refine = 0; int source = 0; bool sepBdr = false; bool verbose = false; vector<int> yamlOrder; vector<int> compOrder;
};
static string dir;
// outward direction of the sides of MFEM's box meshes
static const int dir2[5][2] = {{0, 0}, {0, -1}, {1, 0}, {0, 1}, {-1, 0}};
static const int dir3[7][3] = {{0, 0, 0}, {0, 0, -1}, {0, -1, 0}, {1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, 0, 1}};
static void turn(int q, int x, int y, int &u, int &v) { q = ((q % 4) + 4) % 4; u = x; v = y; while (q--) { int t = u; u = -v; v = t; } }
static int sideOf(int dim, const int *d) { if (dim == 2) { for (int s = 1; s < 5; s++) if (dir2[s][0] == d[0] && dir2[s][1] == d[1]) return s; } else for (int s = 1; s < 7; s++) if (dir3[s][0] == d[0] && dir3[s][1] == d[1] && dir3[s][2] == d[2]) return s; return -1; }

static void writeMesh(Mesh m, const string &f, int order = 1) { m.SetCurvature(order, true); ofstream o(f); o.precision(17); m.Print(o); }

static void writeGlobal(const Setup &s, const string &file, const string &bfile)
{
   hid_t f = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
   hid_t g = H5Gcreate(f, "components", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   hdf5_utils::WriteAttribute(g, "number_of_components", (int) s.names.size());
   for (size_t c = 0; c < s.names.size(); c++) hdf5_utils::WriteAttribute(g, S(c), s.names[c]);
   Array<int> mt(s.places.size()); Array2D<double> cf(s.places.size(), 6);
   for (size_t m = 0; m < s.places.size(); m++) { mt[m] = s.places[m].comp; for (int d = 0; d < 3; d++) { cf(m, d) = s.places[m].t[d]; cf(m, 3 + d) = d == 0 ? s.places[m].quarter * M_PI / 2 : 0.0; } }
   hdf5_utils::WriteDataset(g, "meshes", mt); hdf5_utils::WriteDataset(g, "configuration", cf); H5Gclose(g);
   g = H5Gcreate(f, "ports", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
   hdf5_utils::WriteAttribute(g, "number_of_references", (int) s.refs.size());
   for (size_t r = 0; r < s.refs.size(); r++) hdf5_utils::WriteAttribute(g, S(r), s.refs[r].name);
   if (s.refs.size())
   {
      Array2D<int> pi(s.ports.size(), 5);
      for (size_t p = 0; p < s.ports.size(); p++) { int r = 0; while (s.refs[r].name != s.ports[p].ref) r++; int v[5] = {s.ports[p].m1, s.ports[p].m2, s.ports[p].a1, s.ports[p].a2, r}; for (int k = 0; k < 5; k++) pi(p, k) = v[k]; }
      hdf5_utils::WriteDataset(g, "interface", pi);
   }
   for (size_t r = 0; r < s.refs.size(); r++) if (s.source == 1 || (s.source == 2 && r % 2))
   {
      hid_t h = H5Gcreate(g, s.refs[r].name.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); const RefPort &R = s.refs[r];
      hdf5_utils::WriteAttribute(h, "comp1", R.c1); hdf5_utils::WriteAttribute(h, "comp2", R.c2); hdf5_utils::WriteAttribute(h, "attr1", R.a1); hdf5_utils::WriteAttribute(h, "attr2", R.a2);
      Array<double> c(6); for (int k = 0; k < 6; k++) c[k] = R.conf[k]; hdf5_utils::WriteDataset(h, "comp2_configuration", c); H5Gclose(h);
   }
   H5Gclose(g);
   Array2D<int> b(s.bdrs.size(), 3); for (size_t i = 0; i < s.bdrs.size(); i++) { b(i, 0) = s.bdrs[i].g; b(i, 1) = s.bdrs[i].m; b(i, 2) = s.bdrs[i].a; }
   if (!s.sepBdr) hdf5_utils::WriteDataset(f, "boundary", b);
   H5Fclose(f);
   if (s.sepBdr) { f = H5Fcreate(bfile.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(f, "boundary", b); H5Fclose(f); }
}
static YAML::Node yaml(const Setup &s, bool write, bool files)
{
   YAML::Node y; y["mesh"]["type"] = "component-wise"; if (s.refine) y["mesh"]["uniform_refinement"] = s.refine; YAML::Node c = y["mesh"]["component-wise"];
   c["global_config"] = dir + "/global.h5"; if (s.sepBdr) c["bdr_config"] = dir + "/bdr.h5"; if (write) c["write_ports"] = true; if (s.verbose) c["verbose"] = true;
   vector<int> co = s.compOrder; if (co.empty()) for (size_t i = 0; i < s.names.size(); i++) co.push_back(i);
   for (auto &e : s.extraComp) { YAML::Node n; n["name"] = e; n["file"] = "no/such/file"; c["components"].push_back(n); }
   for (int i : co) { YAML::Node n; n["name"] = s.names[i]; n["file"] = s.files[i]; c["components"].push_back(n); }
   vector<int> po = s.yamlOrder; if (po.empty()) for (size_t i = 0; i < s.refs.size(); i++) po.push_back(i);
   if (s.source == 0 || s.source >= 2)
   {
      if (s.source != 0) { YAML::Node n; n["name"] = "unused"; n["comp1"]["name"] = "nobody"; n["comp1"]["attr"] = 77; n["comp2"]["name"] = "nobody"; n["comp2"]["attr"] = 78; n["comp2_configuration"] = vector<double>(6, 0.0); if (files) n["file"] = dir + "/unused.h5"; c["ports"].push_back(n); }
      for (int i : po) { const RefPort &R = s.refs[i]; YAML::Node n; n["name"] = R.name; n["comp1"]["name"] = R.c1; n["comp1"]["attr"] = R.a1; n["comp2"]["name"] = R.c2; n["comp2"]["attr"] = R.a2; n["comp2_configuration"] = vector<double>(R.conf, R.conf + 6); if (files) n["file"] = dir + "/" + R.name + ".h5"; c["ports"].push_back(n); }
   }
   return y;
}

// derive ports and boundaries from placed unit boxes. flip: bit p reverses the direction of port p. gmode: global boundary numbering
static void connect(Setup &s, int dim, const vector<array<int, 3>> &cell, int flip, int gmode, const vector<int> &portOrder, const array<int, 3> &periodic = {{0, 0, 0}})
{
   map<array<int, 3>, int> who; for (size_t m = 0; m < cell.size(); m++) who[cell[m]] = m;
   auto wdir = [&](int m, int side, int *w) { if (dim == 2) { turn(s.places[m].quarter, dir2[side][0], dir2[side][1], w[0], w[1]); w[2] = 0; } else for (int k = 0; k < 3; k++) w[k] = dir3[side][k]; };
   auto side = [&](int m, const int *w) { int l[3] = {w[0], w[1], w[2]}; if (dim == 2) turn(-s.places[m].quarter, w[0], w[1], l[0], l[1]); return sideOf(dim, l); };
   vector<Port> ports; int np = 0;
   for (size_t m = 0; m < cell.size(); m++) for (int sd = 1; sd <= 2 * dim; sd++)
   {
      int w[3]; wdir(m, sd, w); array<int, 3> nb = cell[m]; for (int k = 0; k < 3; k++) nb[k] += w[k]; P3 shift = {0, 0, 0};
      for (int k = 0; k < 3; k++) if (periodic[k]) { if (nb[k] >= periodic[k]) { nb[k] -= periodic[k]; shift[k] = periodic[k]; } else if (nb[k] < 0) { nb[k] += periodic[k]; shift[k] = -periodic[k]; } }
      auto it = who.find(nb);
      if (it == who.end()) { s.bdrs.push_back({gmode == 0 ? sd : gmode == 1 ? 10 + (int) m * 10 + sd : gmode == 2 ? 1 : 3 + ((int) m + sd) % 3, (int) m, sd}); continue; }
      int n = it->second, ow[3] = {-w[0], -w[1], -w[2]}, os = side(n, ow);
      bool first = (int) m < n || ((int) m == n); if (shift[0] || shift[1] || shift[2]) first = w[0] + w[1] + w[2] > 0; else first = w[0] + w[1] + w[2] > 0;
      if (!first) continue;
      Port P; if (flip >> np & 1) { P.m1 = n; P.a1 = os; P.m2 = m; P.a2 = sd; for (int k = 0; k < 3; k++) P.shift[k] = -shift[k]; } else { P.m1 = m; P.a1 = sd; P.m2 = n; P.a2 = os; P.shift = shift; }
      np++; ports.push_back(P);
   }
   vector<Port> po; for (size_t i = 0; i < ports.size(); i++) po.push_back(ports[portOrder.empty() ? i : portOrder[i]]);
   map<string, int> seen;
   for (auto &P : po)
   {
      const Place &A = s.places[P.m1], &B = s.places[P.m2]; RefPort R; R.c1 = s.names[A.comp]; R.c2 = s.names[B.comp]; R.a1 = P.a1; R.a2 = P.a2; int dq = dim == 2 ? B.quarter - A.quarter : 0;
      double t[3]; for (int k = 0; k < 3; k++) t[k] = B.t[k] + P.shift[k] - A.t[k]; if (dim == 2) { double th = -A.quarter * M_PI / 2, x = cos(th) * t[0] - sin(th) * t[1], y = sin(th) * t[0] + cos(th) * t[1]; t[0] = x; t[1] = y; }
      for (int k = 0; k < 3; k++) { R.conf[k] = t[k]; R.conf[3 + k] = 0; } R.conf[3] = dq * M_PI / 2;
      string id = R.c1 + "." + S(R.a1) + "." + R.c2 + "." + S(R.a2) + "." + S(((dq % 4) + 4) % 4); R.name = "port_" + id; P.ref = R.name; if (!seen.count(id)) { seen[id] = 1; s.refs.push_back(R); }
   }
   s.ports = po;
}
static void place(Setup &s, int comp, const array<int, 3> &c, int quarter) { Place p; p.comp = comp; p.quarter = quarter; for (int k = 0; k < 3; k++) p.t[k] = c[k]; int ox = 0, oy = 0; int q = ((quarter % 4) + 4) % 4; if (q == 1 || q == 2) ox = 1; if (q == 2 || q == 3) oy = 1; p.t[0] += ox; p.t[1] += oy; s.places.push_back(p); }

// component library in files of this process, written on demand
// boundary attribute of a side in one of several numberings
static int numbered(int scheme, int side) { return scheme == 0 ? side : scheme == 1 ? side + 1 : scheme == 2 ? 8 - side : scheme == 3 ? 10 * side : scheme == 4 ? (side * 3) % 7 + 20 : array<int, 7>{{0, 2, 1, 11, 12, 30, 112}}[side]; }
static string meshFile(Kind k, int nx, int ny, int nz, const vector<int> &rot, int flipOrder = 0, int curv = 1, int scheme = 0)
{
   string f = "vcm_" + S(getpid()) + "_" + name(k) + S(nx) + S(ny) + S(nz) + "_" + vc::str(rot) + "_" + S(flipOrder) + "_" + S(curv) + "_" + S(scheme) + ".mesh"; struct stat st; if (stat(f.c_str(), &st) == 0) return f;
   Mesh b = box(k, nx, ny, nz, 1, 1, 1); vector<int> o(b.GetNE()); for (size_t i = 0; i < o.size(); i++) o[i] = flipOrder ? o.size() - 1 - i : i;
   Mesh r = rebuild(b, vector<int>(b.GetNE(), 1), rot, o); if (scheme) { for (int i = 0; i < r.GetNBE(); i++) r.SetBdrAttribute(i, numbered(scheme, r.GetBdrAttribute(i))); r.SetAttributes(); }
   if (curv >= 10)
   {  // curved elements: a warp that repeats with the unit box, so that opposite sides still fit
      r.SetCurvature(curv - 10, true); VectorFunctionCoefficient w(r.Dimension(), [](const Vector &x, Vector &y) { const double t = 2 * M_PI; y = x; y(0) += 0.05 * (sin(t * x(1) + 0.3) + 0.4 * cos(t * x(1))) + 0.02 * sin(t * x(0)); y(1) += 0.04 * sin(t * x(0) + 0.7); if (x.Size() > 2) { y(2) += 0.03 * sin(t * (x(0) + x(1)) + 0.2); y(0) += 0.03 * sin(t * x(2) + 0.5); y(1) += 0.02 * sin(t * (x(2) - x(0)) + 0.1); } });
      r.Transform(w); ofstream o2(f); o2.precision(17); r.Print(o2); return f;
   }
   writeMesh(std::move(r), f, curv); return f;
}
// the description with the boundary numbering of every component (by component index)
static void renumber(Setup &s, const vector<int> &scheme)
{
   auto of = [&](const string &n) { for (size_t c = 0; c < s.names.size(); c++) if (s.names[c] == n) return scheme[c]; return 0; };
   for (auto &P : s.ports) { P.a1 = numbered(scheme[s.places[P.m1].comp], P.a1); P.a2 = numbered(scheme[s.places[P.m2].comp], P.a2); }
   for (auto &R : s.refs) { R.a1 = numbered(of(R.c1), R.a1); R.a2 = numbered(of(R.c2), R.a2); }
   for (auto &b : s.bdrs) b.a = numbered(scheme[s.places[b.m].comp], b.a);
}

#endif
