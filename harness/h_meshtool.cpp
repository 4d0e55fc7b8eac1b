// C21: the mesh tools (utils/*.cpp), run as they are (main renamed, every run in a process of its own), and the files
// they write read back and compared with the box that was asked for.
#define VC_MAIN
#include "vc.hpp"
#include "mfem.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include <climits>
#include <memory>
#include <functional>
#include <iomanip>
#include <numeric>
#include <map>
#include <set>
#include <utility>
#include <tuple>
#include <limits>
#include <stdexcept>
#include <cstdint>
#include <unordered_map>
#include <list>
namespace t_rect {
#define main rect_main
#include "/repo/utils/rectangle_mesh.cpp"
#undef main
}
namespace t_1d {
#define main line_main
#include "/repo/utils/1d_mesh.cpp"
#undef main
}
namespace t_cube {
#define main cube_main
#include "/repo/utils/cubic_mesh.cpp"
#undef main
}
namespace t_gmsh {
#define main gmsh_main
#include "/repo/utils/gmsh2mfem.cpp"
#undef main
}
using std::vector; using std::string; using std::map; using std::set;
using vc::S; using vc::check; using vc::X;
typedef int (*Tool)(int, char **);

static string run_tool(Tool t, const string &name, vector<string> a)
{
   string cl = name; for (auto &s : a) cl += " " + (s.empty() ? "''" : s);
   X.transitions++;
   int st = vc::in_child([&]() {
      vector<char *> v; string nm = name; v.push_back(&nm[0]); for (auto &s : a) v.push_back(&s[0]); v.push_back(NULL);
      int r = t((int) v.size() - 1, v.data()); fflush(NULL); std::cout.flush(); _exit(r);
   }, 120);
   check(vc::child_ok(st), cl + " ended with status " + S(st));
   return cl;
}

static void onefile(const string &want, const string &cl)
{
   FILE *p = popen("ls -A", "r"); char b[4096]; string all; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) all.append(b, n); pclose(p);
   std::istringstream i(all); string f; vector<string> fs; while (std::getline(i, f)) fs.push_back(f);
   check(fs.size() == 1 && fs[0] == want, cl + " wrote the files: " + vc::str(fs) + "; expected " + want);
}

struct Dir
{
   string old, d;
   Dir() { char b[4096]; old = getcwd(b, sizeof b); d = old + "/" + vc::tmpfile("d"); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) vc::fail("chdir"); }
   ~Dir() { if (chdir(old.c_str())) {} string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} }
};

// N subdivisions (before refinement), L lengths, D subdomains per direction; periodic directions per
static void checkbox(const string &file, int dim, bool simplex, vector<int> N, vector<double> L, vector<int> D, int rs, int order, vector<int> per, const string &cl, bool nodes)
{
   mfem::Mesh m;
   { std::ifstream f(file); check((bool) f, cl + ": no file " + file); m.Load(f, 1, 0, false); }
   const int R = 1 << rs;
   vc::eq(m.Dimension(), dim, cl + ": dimension");
   long ne = 1; for (int d = 0; d < dim; d++) ne *= N[d] * R;
   const int per_cell = simplex ? (dim == 2 ? 2 : dim == 3 ? 6 : 1) : 1;
   vc::eq((long) m.GetNE(), ne * per_cell, cl + ": number of elements");
   int nd = 1; for (int d = 0; d < dim; d++) nd *= D[d];
   vector<double> vol(nd + 1, 0.); vc::Hash h;
   if (nodes) { check(m.GetNodes() != NULL, cl + ": no nodes"); vc::eq(m.GetNodalFESpace()->GetMaxElementOrder(), order, cl + ": order of the mesh"); }
   double tot = 1; for (int d = 0; d < dim; d++) tot *= L[d];
   vector<vector<mfem::Vector>> corner(m.GetNE());
   map<vector<int>, vector<double>> cellvol; // each cell of the grid is filled
   for (int e = 0; e < m.GetNE(); e++)
   {
      const int g = m.GetElementBaseGeometry(e);
      const int want = dim == 1 ? mfem::Geometry::SEGMENT : dim == 2 ? (simplex ? mfem::Geometry::TRIANGLE : mfem::Geometry::SQUARE) : (simplex ? mfem::Geometry::TETRAHEDRON : mfem::Geometry::CUBE);
      vc::eq(g, want, cl + ": kind of element " + S(e));
      auto *T = m.GetElementTransformation(e);
      const auto &ir = *mfem::Geometries.GetVertices(g); mfem::Vector c(dim), x; c = 0.;
      for (int q = 0; q < ir.GetNPoints(); q++) { x.SetSize(dim); T->Transform(ir.IntPoint(q), x); corner[e].push_back(x); c += x; }
      c /= ir.GetNPoints();
      vector<int> box(dim), cell(dim); int attr = 0, mul = 1;
      for (int d = 0; d < dim; d++)
      {
         const double hc = L[d] / (N[d] * R); cell[d] = (int) std::floor(c[d] / hc); box[d] = (int) std::floor(c[d] / (L[d] / D[d]));
         check(cell[d] >= 0 && cell[d] < N[d] * R, cl + ": element " + S(e) + " lies outside the box");
         for (auto &q : corner[e]) check(q[d] >= cell[d] * hc - 1e-6 * L[d] && q[d] <= (cell[d] + 1) * hc + 1e-6 * L[d], cl + ": element " + S(e) + " leaves its cell of the grid, coordinate " + S(q[d]));
         attr += box[d] * mul; mul *= D[d];
      }
      vc::eq(m.GetAttribute(e), attr + 1, cl + ": attribute of element " + S(e));
      double v = m.GetElementVolume(e); check(v > 0, cl + ": element volume"); vol[attr + 1] += v; auto &cv = cellvol[cell]; if (cv.empty()) cv.push_back(0); cv[0] += v;
      // the geometry map is affine on every element: its quadrature points are where the corners put them
      const auto &iq = mfem::IntRules.Get(g, 3);
      for (int q = 0; q < iq.GetNPoints(); q++)
      {
         const auto &ip = iq.IntPoint(q); mfem::Vector y(dim), z(dim); T->Transform(ip, y); z = 0.;
         mfem::FiniteElement *fe = NULL; mfem::H1_FECollection fec(1, dim); const mfem::FiniteElement *f1 = fec.FiniteElementForGeometry((mfem::Geometry::Type) g); mfem::Vector sh(f1->GetDof()); f1->CalcShape(ip, sh); (void) fe;
         const auto &nn = f1->GetNodes();
         for (int k = 0; k < f1->GetDof(); k++)
            for (int p = 0; p < ir.GetNPoints(); p++)
               if (std::fabs(nn.IntPoint(k).x - ir.IntPoint(p).x) + std::fabs(nn.IntPoint(k).y - ir.IntPoint(p).y) + std::fabs(nn.IntPoint(k).z - ir.IntPoint(p).z) < 1e-12) z.Add(sh[k], corner[e][p]);
         for (int d = 0; d < dim; d++) vc::near(y[d], z[d], cl + ": position of a point of element " + S(e), L[d], 1e-6);
      }
      h.add(m.GetAttribute(e)); for (int d = 0; d < dim; d++) h.add(c[d]);
   }
   vc::eq((long) cellvol.size(), ne, cl + ": cells of the grid with elements");
   for (auto &cv : cellvol) vc::near(cv.second[0], tot / ne, cl + ": volume of a cell of the grid", 0, 1e-6 * std::min(1., tot / ne));
   for (int a = 1; a <= nd; a++) vc::near(vol[a], tot / nd, cl + ": volume of the subdomain " + S(a), 0, 1e-6 * std::min(1., tot / nd));
   // the boundary: only of the directions that are not periodic; every face without a neighbour is in it, once
   vector<double> area(2 * dim, 0.);
   set<int> bf;
   for (int b = 0; b < m.GetNBE(); b++)
   {
      const int f = m.GetBdrElementEdgeIndex(b); int e1, e2; m.GetFaceElements(f, &e1, &e2);
      // the elements of the sides that have been joined stay in the list, they are no boundary for any solver
      if (e2 >= 0) { bool any = false; for (int p : per) any |= p; check(any, cl + ": a boundary element inside the mesh"); continue; }
      check(bf.insert(f).second, cl + ": boundary face listed twice");
      auto *T = m.GetBdrElementTransformation(b); const int g = m.GetBdrElementBaseGeometry(b);
      const auto &ir = mfem::IntRules.Get(g, 2); double ar = 0; int side = -1; 
      for (int q = 0; q < ir.GetNPoints(); q++)
      {
         mfem::Vector x(dim); T->SetIntPoint(&ir.IntPoint(q)); T->Transform(ir.IntPoint(q), x); ar += ir.IntPoint(q).weight * (dim > 1 ? T->Weight() : 1.);
         int s = -1; for (int d = 0; d < dim; d++) { if (std::fabs(x[d]) < 1e-6 * L[d]) s = 2 * d; if (std::fabs(x[d] - L[d]) < 1e-6 * L[d]) s = 2 * d + 1; }
         if (dim > 1 || q == 0) { check(s >= 0 && (side < 0 || s == side), cl + ": boundary element " + S(b) + " is not on one side of the box"); side = s; }
      }
      area[side] += ar;
      static const int A1[] = {1, 2}, A2[] = {4, 2, 1, 3}, A3[] = {5, 3, 2, 4, 1, 6};
      vc::eq(m.GetBdrAttribute(b), (dim == 1 ? A1 : dim == 2 ? A2 : A3)[side], cl + ": boundary attribute on side " + S(side));
   }
   for (int d = 0; d < dim; d++)
      for (int s = 0; s < 2; s++)
      {
         const double w = per[d] ? 0. : dim == 1 ? 1. : tot / L[d];
         vc::near(area[2 * d + s], w, cl + ": size of the boundary of side " + S(2 * d + s), 0, 1e-6 * std::min(1., tot / L[d]));
      }
   for (int f = 0; f < m.GetNumFaces(); f++)
   {
      int e1, e2; m.GetFaceElements(f, &e1, &e2);
      if (e2 < 0) { check(bf.count(f) == 1, cl + ": face " + S(f) + " has one element, and is not in the boundary"); continue; }
      // neighbours: the face's two images coincide, up to a period
      mfem::Array<int> fv; m.GetFaceVertices(f, fv);
      auto pos = [&](int e, int v) { mfem::Array<int> ev; m.GetElementVertices(e, ev); return ev.Find(v); };
      vector<double> shift;
      for (int v : fv)
      {
         const int p1 = pos(e1, v), p2 = pos(e2, v); check(p1 >= 0 && p2 >= 0, cl + ": vertex of a face");
         vector<double> s(dim); for (int d = 0; d < dim; d++) s[d] = corner[e2][p2][d] - corner[e1][p1][d];
         if (shift.empty())
         {
            shift = s; int n = 0;
            for (int d = 0; d < dim; d++)
            {
               if (std::fabs(s[d]) < 1e-6 * L[d]) continue;
               check(per[d] && std::fabs(std::fabs(s[d]) - L[d]) < 1e-6 * L[d], cl + ": neighbours across face " + S(f) + " are apart by " + S(s[d])); n++;
            }
            check(n <= 1, cl + ": neighbours across two periodic sides");
         }
         else for (int d = 0; d < dim; d++) vc::near(s[d], shift[d], cl + ": face " + S(f) + " of two elements", L[d], 1e-6);
      }
   }
   h.add(m.GetNBE()); h.add(order); h.add(m.GetNumFaces()); X.outcome(h.h);
}

static string D(double v) { std::ostringstream o; o << v; return o.str(); }

static void rect(bool tri, vector<int> N, vector<double> L, vector<int> Ds, int rs, int order, int per, string name)
{
   Dir dir; vector<string> a = {"-nx", S(N[0]), "-ny", S(N[1]), "-dx", S(Ds[0]), "-dy", S(Ds[1]), "-o", S(order), "-rs", S(rs), "-a", D(L[0]), "-b", D(L[1]), "-e", tri ? "6" : "4"};
   if (per < 0) a.push_back("-no-pm"); else { a.push_back("-pm"); a.push_back("-dir"); a.push_back(S(per)); }
   string f = "test.mesh";
   if (name != "-") { a.push_back("-m"); a.push_back(name); f = name; }
   if (f.empty()) f = string("rectangle-") + (tri ? "tri" : "quad") + "-o" + S(order) + (rs ? "-r" + S(rs) : "") + (per < 0 ? "-d" : per == 0 ? "-xp" : per == 1 ? "-yp" : "-p") + ".mesh";
   string cl = run_tool(t_rect::rect_main, "rectangle_mesh", a);
   onefile(f, cl);
   checkbox(f, 2, tri, N, L, Ds, rs, order, {per == 0 || per == 2, per == 1 || per == 2}, cl, true);
}

static void cube(bool tet, vector<int> N, vector<double> L, vector<int> Ds, int rs, int order, int per, string name)
{
   Dir dir; vector<string> a = {"-nx", S(N[0]), "-ny", S(N[1]), "-nz", S(N[2]), "-dx", S(Ds[0]), "-dy", S(Ds[1]), "-dz", S(Ds[2]), "-o", S(order), "-rs", S(rs), "-a", D(L[0]), "-b", D(L[1]), "-c", D(L[2]), "-e", tet ? "4" : "6"};
   if (per < 0) a.push_back("-no-pm"); else { a.push_back("-pm"); a.push_back("-dir"); a.push_back(S(per)); }
   string f = "test.mesh";
   if (name != "-") { a.push_back("-m"); a.push_back(name); f = name; }
   if (f.empty()) f = string("cubic-") + (tet ? "tetra" : "hexa") + "-o" + S(order) + (rs ? "-r" + S(rs) : "") + (per < 0 ? "-d" : per == 0 ? "-xp" : per == 1 ? "-yp" : per == 2 ? "-zp" : "-p") + ".mesh";
   string cl = run_tool(t_cube::cube_main, "cubic_mesh", a);
   onefile(f, cl);
   checkbox(f, 3, tet, N, L, Ds, rs, order, {per == 0 || per == 3, per == 1 || per == 3, per == 2 || per == 3}, cl, true);
}

static void line(int n, double L, int rs, bool per, string name)
{
   Dir dir; vector<string> a = {"-nx", S(n), "-rs", S(rs), "-a", D(L), per ? "-pm" : "-no-pm"};
   string f = string("1d") + (rs ? "-r" + S(rs) : "") + (per ? "-p" : "") + ".mesh";
   if (name != "-") { a.push_back("-m"); a.push_back(name); f = name; }
   string cl = run_tool(t_1d::line_main, "1d_mesh", a);
   onefile(f, cl);
   checkbox(f, 1, true, {n}, {L}, {1}, rs, 1, {per}, cl, false);
}

// a box written in gmsh's format, converted
static void gmsh(int kind, vector<int> N, int order, int fnc, bool shuffle)
{
   Dir dir; const int dim = kind < 2 ? 2 : 3; const bool simplex = kind % 2;
   mfem::Mesh o = dim == 2 ? mfem::Mesh::MakeCartesian2D(N[0], N[1], simplex ? mfem::Element::TRIANGLE : mfem::Element::QUADRILATERAL, false, 1.5, 1., false)
                           : mfem::Mesh::MakeCartesian3D(N[0], N[1], N[2], simplex ? mfem::Element::TETRAHEDRON : mfem::Element::HEXAHEDRON, 1.5, 1., .5, false);
   for (int e = 0; e < o.GetNE(); e++) o.SetAttribute(e, 1 + e % 3);
   const int nv = o.GetNV(); auto num = [&](int v) { return shuffle ? nv - v + 10 : v + 1; };
   {
      std::ofstream f("x.msh"); f.precision(16);
      f << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << nv << "\n";
      for (int v = 0; v < nv; v++) { f << num(v); for (int d = 0; d < 3; d++) f << " " << (d < dim ? o.GetVertex(v)[d] + (d == 0 ? .1 * o.GetVertex(v)[1] : 0.) : 0.); f << "\n"; }
      f << "$EndNodes\n$Elements\n" << o.GetNBE() + o.GetNE() << "\n"; int k = 1;
      auto put = [&](int type, int attr, const mfem::Array<int> &v) { f << k++ << " " << type << " 2 " << attr << " " << attr; for (int x : v) f << " " << num(x); f << "\n"; };
      mfem::Array<int> v;
      for (int b = 0; b < o.GetNBE(); b++) { o.GetBdrElementVertices(b, v); put(dim == 2 ? 1 : simplex ? 2 : 3, o.GetBdrAttribute(b), v); }
      for (int e = 0; e < o.GetNE(); e++) { o.GetElementVertices(e, v); put(dim == 2 ? (simplex ? 2 : 3) : simplex ? 4 : 5, o.GetAttribute(e), v); }
      f << "$EndElements\n";
   }
   for (int v = 0; v < nv; v++) o.GetVertex(v)[0] += .1 * o.GetVertex(v)[1];
   vector<string> a = {"-m", "x.msh"}; if (order > 0) { a.push_back("-o"); a.push_back(S(order)); }
   if (fnc) a.push_back(fnc > 0 ? "-fnc" : "-nfnc");
   const int ord = order > 0 ? order : 3;
   string cl = run_tool(t_gmsh::gmsh_main, "gmsh2mfem", a) + " (" + S(dim) + "D)";
   mfem::Mesh m; { std::ifstream f("x.msh.mfem"); check((bool) f, cl + ": no file x.msh.mfem"); m.Load(f, 1, 0, false); }
   vc::eq(m.Dimension(), dim, cl + ": dimension"); vc::eq(m.SpaceDimension(), dim, cl + ": space dimension");
   vc::eq(m.GetNE(), o.GetNE(), cl + ": number of elements"); vc::eq(m.GetNBE(), o.GetNBE(), cl + ": number of boundary elements"); vc::eq(m.GetNV(), nv, cl + ": number of vertices");
   if (ord > 1 || fnc > 0)
   {
      check(m.GetNodes() != NULL, cl + ": no nodes"); vc::eq(m.GetNodalFESpace()->GetMaxElementOrder(), ord, cl + ": order");
      check(m.GetNodalFESpace()->IsDGSpace(), cl + ": the nodes are not discontinuous");
   }
   typedef vector<long> K; auto key = [&](mfem::ElementTransformation *T, int g, int attr) {
      const auto &ir = *mfem::Geometries.GetVertices(g); set<K> s; 
      for (int q = 0; q < ir.GetNPoints(); q++) { mfem::Vector x(dim); T->Transform(ir.IntPoint(q), x); vc::eq(x.Size(), dim, cl + ": dimension of points"); K p; for (int d = 0; d < dim; d++) { double v = x[d] * 1e6; check(std::fabs(v) < 1e9, cl + ": coordinate " + S(x[d])); p.push_back(std::lround(v)); } s.insert(p); }
      K r = {attr}; for (auto &p : s) r.insert(r.end(), p.begin(), p.end()); return r; };
   std::multiset<K> A, B; double v1 = 0, v2 = 0;
   for (int e = 0; e < m.GetNE(); e++) { A.insert(key(m.GetElementTransformation(e), m.GetElementBaseGeometry(e), m.GetAttribute(e))); v1 += m.GetElementVolume(e); }
   for (int e = 0; e < o.GetNE(); e++) { B.insert(key(o.GetElementTransformation(e), o.GetElementBaseGeometry(e), o.GetAttribute(e))); v2 += o.GetElementVolume(e); }
   check(A == B, cl + ": elements, their corners or attributes differ from those of the file"); vc::near(v1, v2, cl + ": volume", 0, 1e-6);
   A.clear(); B.clear();
   for (int e = 0; e < m.GetNBE(); e++) A.insert(key(m.GetBdrElementTransformation(e), m.GetBdrElementBaseGeometry(e), m.GetBdrAttribute(e)));
   for (int e = 0; e < o.GetNBE(); e++) B.insert(key(o.GetBdrElementTransformation(e), o.GetBdrElementBaseGeometry(e), o.GetBdrAttribute(e)));
   check(A == B, cl + ": boundary elements, their corners or attributes differ from those of the file");
   vc::Hash h; h.add(kind); h.add(ord); h.add(fnc); for (int n : N) h.add(n); X.outcome(h.h);
}

static void bad(Tool t, const string &name, vector<string> a)
{
   Dir dir; X.transitions++;
   int st = vc::in_child([&]() { vector<char *> v; string nm = name; v.push_back(&nm[0]); for (auto &s : a) v.push_back(&s[0]); v.push_back(NULL); _exit(t((int) v.size() - 1, v.data())); }, 60);
   check(WIFEXITED(st) && WEXITSTATUS(st) == 1, name + " " + vc::str(a) + " should refuse, ended with status " + S(st));
   check(access("test.mesh", F_OK) != 0, name + " " + vc::str(a) + " wrote a mesh");
}

void vc_main()
{
   const bool T = X.thorough;
   const vector<vector<double>> L2 = {{5, 1}, {.7, 1.3}}, L3 = {{1, 1, 1}, {2, .5, .7}};
   const int M = T ? 4 : 4;
   for (int tri = 0; tri < 2; tri++)
      for (int nx = 1; nx <= M; nx++) for (int ny = 1; ny <= M; ny++)
         for (int dx = 1; dx <= nx; dx++) for (int dy = 1; dy <= ny; dy++)
         {
            if (nx % dx || ny % dy) continue;
            for (int per = -1; per < 3; per++)
            {
               // fewer than three cells in a periodic direction cannot be described by a mesh of vertices
               if ((per == 0 || per == 2) && nx < 3) continue; if ((per == 1 || per == 2) && ny < 3) continue;
               for (int rs = 0; rs < (T ? 3 : 2); rs++) for (int o = 1; o <= (T ? 4 : 3); o++)
                  for (int l = 0; l < 2; l++)
                  {
                     if (!T && (o + rs + l + nx + ny + dx) % 3 == 0 && nx * ny > 4) continue;
                     X.run("rectangle " + string(tri ? "tri " : "quad ") + S(nx) + "x" + S(ny) + " in " + S(dx) + "x" + S(dy) + " per=" + S(per) + " rs=" + S(rs) + " o=" + S(o) + " size=" + S(l),
                           [=]() { rect(tri, {nx, ny}, L2[l], {dx, dy}, rs, o, per, (nx + ny) % 2 ? "-" : "some.mesh"); });
                  }
            }
         }
   for (int tri = 0; tri < 2; tri++) for (int per = -1; per < 3; per++) for (int rs = 0; rs < 2; rs++) for (int o = 1; o < 4; o++)
      X.run("rectangle default name " + S(tri) + " per=" + S(per) + " rs=" + S(rs) + " o=" + S(o), [=]() { rect(tri, {3, 3}, {1, 1}, {1, 3}, rs, o, per, ""); });
   const int M3 = T ? 3 : 2;
   for (int tet = 0; tet < 2; tet++)
      for (int per = -1; per < 4; per++)
         for (int nx = 1; nx <= 3; nx++) for (int ny = 1; ny <= 3; ny++) for (int nz = 1; nz <= 3; nz++)
         {
            if ((per == 0 || per == 3) ? nx != 3 : nx > M3) continue; if ((per == 1 || per == 3) ? ny != 3 : ny > M3) continue; if ((per == 2 || per == 3) ? nz != 3 : nz > M3) continue;
            for (int dx = 1; dx <= nx; dx++) for (int dy = 1; dy <= ny; dy++) for (int dz = 1; dz <= nz; dz++)
            {
               if (nx % dx || ny % dy || nz % dz) continue;
               for (int rs = 0; rs < 2; rs++) for (int o = 1; o <= (T ? 3 : 2); o++)
                  for (int l = 0; l < 2; l++)
                  {
                     if (rs && nx * ny * nz > (T ? 12 : 4)) continue;
                     if (!T && (o + rs + l + nx + ny + nz + dx + dy) % 3) continue;
                     X.run("cubic " + string(tet ? "tet " : "hex ") + S(nx) + "x" + S(ny) + "x" + S(nz) + " in " + S(dx) + "x" + S(dy) + "x" + S(dz) + " per=" + S(per) + " rs=" + S(rs) + " o=" + S(o) + " size=" + S(l),
                           [=]() { cube(tet, {nx, ny, nz}, L3[l], {dx, dy, dz}, rs, o, per, (nx + ny) % 2 ? "-" : "some.mesh"); });
                  }
            }
         }
   for (int tet = 0; tet < 2; tet++) for (int per = -1; per < 4; per++)
      X.run("cubic default name " + S(tet) + " per=" + S(per), [=]() { cube(tet, {3, 3, 3}, {1, 1, 1}, {1, 1, 3}, 0, 2, per, ""); });
   // all orders of different lengths; more cells and subdomains
   { vector<double> l3 = {.6, 1.1, 1.7}; do for (int tet = 0; tet < 2; tet++) for (int per = -1; per < 4; per++) { auto ll = l3; X.run("cubic lengths " + vc::str(l3) + " tet=" + S(tet) + " per=" + S(per), [=]() { cube(tet, {3, 3, 3}, ll, {per == 1 ? 3 : 1, 1, per == 2 ? 3 : 1}, 0, 1 + tet, per, "-"); }); } while (std::next_permutation(l3.begin(), l3.end())); }
   { vector<int> n3 = {3, 4, 6}; do for (int tet = 0; tet < 2; tet++) for (int per = -1; per < 4; per++) { auto nn = n3; X.run("cubic counts " + vc::str(n3) + " tet=" + S(tet) + " per=" + S(per), [=]() { cube(tet, nn, {nn[2] * .3, nn[0] * .2, nn[1] * .5}, {nn[0] / (per % 2 ? 1 : nn[0] % 3 ? 2 : 3), nn[1] % 3 ? 2 : 3, nn[2] % 2 ? 1 : 2}, 0, 1, per, "-"); }); } while (std::next_permutation(n3.begin(), n3.end())); }
   for (int tri = 0; tri < 2; tri++) for (int per = -1; per < 3; per++) for (int q = 0; q < 6; q++) X.run("rectangle counts " + S(q) + " tri=" + S(tri) + " per=" + S(per), [=]() { const int n[6][4] = {{12, 3, 12, 1}, {3, 12, 3, 12}, {8, 6, 4, 3}, {6, 9, 2, 9}, {15, 4, 5, 2}, {5, 11, 5, 11}}; rect(tri, {n[q][0], n[q][1]}, {q % 2 ? 3. : .4, q % 3 ? 1.9 : 12.}, {n[q][2], n[q][3]}, q == 2, 1 + q % 3, per, "-"); });
   for (int n = 1; n <= 6; n++) for (int rs = 0; rs < 4; rs++) for (int per = 0; per < 2; per++) for (int l = 0; l < 2; l++) for (int nm = 0; nm < 2; nm++)
   {
      if (per && n < 3) continue;
      X.run("line " + S(n) + " rs=" + S(rs) + " per=" + S(per) + " size=" + S(l) + " name=" + S(nm), [=]() { line(n, l ? .7 : 5, rs, per, nm ? "my.mesh" : "-"); });
   }
   for (int kind = 0; kind < 4; kind++) for (int o = 0; o < 4; o++) for (int fnc = -1; fnc < 2; fnc++) for (int sh = 0; sh < 2; sh++)
      for (int nx = 1; nx <= 3; nx++) for (int ny = 1; ny <= 2; ny++) for (int nz = 1; nz <= (kind < 2 ? 1 : 2); nz++)
         X.run("gmsh " + S(kind) + " " + S(nx) + "x" + S(ny) + "x" + S(nz) + " o=" + S(o) + " fnc=" + S(fnc) + " shuffled=" + S(sh), [=]() { gmsh(kind, {nx, ny, nz}, o, fnc, sh); });
   for (int nx = 1; nx <= 4; nx++) for (int dx = 1; dx <= 5; dx++) for (int dir = 0; dir < 3; dir++)
      if (nx % dx)
      {
         X.run("rectangle refuses " + S(nx) + " in " + S(dx) + " dir=" + S(dir), [=]() { if (dir < 2) bad(t_rect::rect_main, "rectangle_mesh", {dir ? "-ny" : "-nx", S(nx), dir ? "-dy" : "-dx", S(dx)}); });
         X.run("cubic refuses " + S(nx) + " in " + S(dx) + " dir=" + S(dir), [=]() { string c(1, "xyz"[dir]); bad(t_cube::cube_main, "cubic_mesh", {"-n" + c, S(nx), "-d" + c, S(dx)}); });
      }
   for (int e : {0, 1, 2, 3, 5, 7}) X.run("element type " + S(e), [=]() { bad(t_rect::rect_main, "rectangle_mesh", {"-e", S(e)}); bad(t_cube::cube_main, "cubic_mesh", {"-e", S(e)}); });
   for (int d : {-1, 3, 4, 5}) X.run("direction " + S(d), [=]() { bad(t_rect::rect_main, "rectangle_mesh", {"-dir", S(d)}); if (d != 3) bad(t_cube::cube_main, "cubic_mesh", {"-dir", S(d)}); });
}
