// Mesh builders (with controlled local vertex orders) and the geometric oracle for interfaces, shared by the topology
// and interface-form harnesses.
#ifndef VERIF_TOPO_HPP
#define VERIF_TOPO_HPP
#include "vc.hpp"
#include "mfem.hpp"
#include "topology_handler.hpp"
#include "input_parser.hpp"
#include <array>
#include <algorithm>

namespace topo
{
using std::vector; using std::string; using std::map; using std::set; using std::pair;
using vc::S;

// all orientation-preserving renumberings of the vertices of a reference element
inline const vector<vector<int>> &rotations(mfem::Geometry::Type g)
{
   static map<int, vector<vector<int>>> cache; auto &r = cache[g]; if (!r.empty()) return r;
   auto gen = [&](int n, const vector<vector<int>> &gs) {
      vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i;
      set<vector<int>> seen{id}; r.push_back(id);
      for (size_t k = 0; k < r.size(); k++) for (auto &g2 : gs) { vector<int> p(n); for (int i = 0; i < n; i++) p[i] = r[k][g2[i]]; if (seen.insert(p).second) r.push_back(p); }
   };
   if (g == mfem::Geometry::SEGMENT) gen(2, {});
   else if (g == mfem::Geometry::TRIANGLE) gen(3, {{1, 2, 0}});
   else if (g == mfem::Geometry::SQUARE) gen(4, {{1, 2, 3, 0}});
   else if (g == mfem::Geometry::TETRAHEDRON) gen(4, {{1, 2, 0, 3}, {0, 2, 3, 1}});
   else if (g == mfem::Geometry::CUBE) gen(8, {{1, 2, 3, 0, 5, 6, 7, 4}, {3, 2, 6, 7, 0, 1, 5, 4}});
   return r;
}

// the same mesh with given attributes, element order and local vertex orders
inline mfem::Mesh rebuild(mfem::Mesh &b, const vector<int> &attr, const vector<int> &rot = {}, const vector<int> &order = {})
{
   const int d = b.Dimension(), ne = b.GetNE();
   mfem::Mesh m(d, b.GetNV(), ne, b.GetNBE(), d);
   for (int i = 0; i < b.GetNV(); i++) { double c[3] = {0, 0, 0}; for (int k = 0; k < d; k++) c[k] = b.GetVertex(i)[k]; m.AddVertex(c); }
   for (int q = 0; q < ne; q++)
   {
      int e = order.empty() ? q : order[q];
      mfem::Array<int> v; b.GetElementVertices(e, v); auto g = b.GetElementBaseGeometry(e);
      const auto &R = rotations(g); const auto &p = R[rot.empty() ? 0 : rot[e % rot.size()] % R.size()];
      mfem::Element *el = m.NewElement(g); vector<int> w(v.Size()); for (int i = 0; i < v.Size(); i++) w[i] = v[p[i]];
      el->SetVertices(w.data()); el->SetAttribute(attr.empty() ? b.GetAttribute(e) : attr[e]); m.AddElement(el);
   }
   for (int i = 0; i < b.GetNBE(); i++) m.AddBdrElement(b.GetBdrElement(i)->Duplicate(&m));
   m.FinalizeTopology(); m.Finalize(false, true);
   return m;
}

// kinds of box meshes; unit size cells unless scaled
enum Kind { QUAD, TRI, HEX, TET };
inline const char *name(Kind k) { static const char *n[] = {"quad", "tri", "hex", "tet"}; return n[k]; }
inline int dimOf(Kind k) { return k <= TRI ? 2 : 3; }
inline mfem::Mesh box(Kind k, int nx, int ny, int nz = 1, double lx = 0, double ly = 0, double lz = 0)
{
   if (lx == 0) { lx = nx; ly = ny; lz = nz; }
   if (k == QUAD) return mfem::Mesh::MakeCartesian2D(nx, ny, mfem::Element::QUADRILATERAL, true, lx, ly, false);
   if (k == TRI) return mfem::Mesh::MakeCartesian2D(nx, ny, mfem::Element::TRIANGLE, true, lx, ly, false);
   if (k == HEX) return mfem::Mesh::MakeCartesian3D(nx, ny, nz, mfem::Element::HEXAHEDRON, lx, ly, lz, false);
   return mfem::Mesh::MakeCartesian3D(nx, ny, nz, mfem::Element::TETRAHEDRON, lx, ly, lz, false);
}

typedef std::array<double, 3> P3;
inline double dist(const P3 &a, const P3 &b) { double d = 0; for (int i = 0; i < 3; i++) d = std::max(d, std::fabs(a[i] - b[i])); return d; }
inline string str(const P3 &a) { return "(" + S(a[0]) + "," + S(a[1]) + "," + S(a[2]) + ")"; }
inline P3 toP(const mfem::Vector &v) { P3 p = {0, 0, 0}; for (int i = 0; i < v.Size(); i++) p[i] = v(i); return p; }
inline P3 elemCentre(mfem::Mesh &m, int e)
{
   mfem::ElementTransformation *T = m.GetElementTransformation(e); mfem::Vector x; T->Transform(mfem::Geometries.GetCenter(m.GetElementBaseGeometry(e)), x); return toP(x);
}
inline P3 bdrCentre(mfem::Mesh &m, int be)
{
   mfem::ElementTransformation *T = m.GetBdrElementTransformation(be); mfem::Vector x; T->Transform(mfem::Geometries.GetCenter(m.GetBdrElementBaseGeometry(be)), x); return toP(x);
}
inline P3 faceCentre(mfem::Mesh &m, int f)
{
   mfem::FaceElementTransformations *T = m.GetFaceElementTransformations(f, 1 | 4 | 16); mfem::Vector x; mfem::IntegrationPoint ip = mfem::Geometries.GetCenter(T->GetGeometryType());
   T->SetAllIntPoints(&ip); T->Elem1->Transform(T->GetElement1IntPoint(), x); return toP(x);
}
struct Key { long k[3]; bool operator<(const Key &o) const { return std::lexicographical_compare(k, k + 3, o.k, o.k + 3); } };
inline Key key(const P3 &p) { Key k; for (int i = 0; i < 3; i++) k.k[i] = std::lround(p[i] * 1e6); return k; }

// the two sides of every record of port p see the same points, from opposite sides.
// "shift" is what separates the two sides (periodic connections).
inline void checkTransformations(TopologyHandler &th, int p, const P3 &shift = P3{0, 0, 0})
{
   const PortInfo *pi = th.GetPortInfo(p); mfem::Array<InterfaceInfo> *ii = th.GetInterfaceInfos(p);
   mfem::Mesh *m1 = th.GetMesh(pi->Mesh1), *m2 = th.GetMesh(pi->Mesh2); const int d = m1->Dimension();
   for (int i = 0; i < ii->Size(); i++)
   {
      InterfaceInfo &f = (*ii)[i]; mfem::FaceElementTransformations *t1 = NULL, *t2 = NULL;
      th.GetInterfaceTransformations(m1, m2, &f, t1, t2);
      vc::check(t1 && t2, "no transformations");
      const mfem::IntegrationRule &ir = mfem::IntRules.Get(t1->GetGeometryType(), 3);
      vc::check(t1->GetGeometryType() == t2->GetGeometryType(), "faces of different kinds are paired");
      P3 c1 = elemCentre(*m1, t1->Elem1No), c2 = elemCentre(*m2, t2->Elem1No);
      th.GetInterfaceTransformations(m1, m2, &f, t1, t2);
      for (int q = 0; q < ir.GetNPoints(); q++)
      {
         const mfem::IntegrationPoint &ip = ir.IntPoint(q); t1->SetAllIntPoints(&ip); t2->SetAllIntPoints(&ip);
         mfem::Vector x1, x2, n1(d), n2(d); t1->Elem1->Transform(t1->GetElement1IntPoint(), x1); t2->Elem1->Transform(t2->GetElement1IntPoint(), x2);
         P3 a = toP(x1), b = toP(x2); for (int k = 0; k < 3; k++) b[k] += shift[k];
         vc::check(dist(a, b) < 1e-7, "port " + S(p) + " record " + S(i) + ": the two sides see different points " + str(a) + " and " + str(b));
         mfem::CalcOrtho(t1->Jacobian(), n1); mfem::CalcOrtho(t2->Jacobian(), n2);
         double o1 = 0, o2 = 0, l1 = 0, dd = 0; for (int k = 0; k < d; k++) { o1 += n1(k) * (a[k] - c1[k]); o2 += n2(k) * (b[k] - shift[k] - c2[k]); l1 = std::max(l1, std::fabs(n1(k))); dd = std::max(dd, std::fabs(n1(k) + n2(k))); }
         vc::check(o1 > 0 && o2 > 0, "a normal points into its own mesh");
         // the face itself is seen at that point from side 1 (its normal and area are the ones integrals use); side 2 may run the other way along a curved face
         mfem::Vector f1, f2; t1->Transform(ip, f1); t2->Transform(ip, f2); vc::check(dist(toP(f1), a) < 1e-7, "port " + S(p) + " record " + S(i) + ": the face of side 1 is at " + str(toP(f1)) + " when its element is at " + str(a));
         P3 g = toP(f2); for (int k = 0; k < 3; k++) g[k] += shift[k]; if (dist(g, a) < 1e-7) vc::check(dd < 1e-6 * std::max(1.0, l1), "the normals of the two sides are not opposite");
      }
   }
}
} // namespace topo

// The repository is written for MFEM >= 4.6, whose SubMesh gives a generated boundary element the attribute
// (largest parent boundary attribute) + 1. The installed MFEM 4.5.2 uses a fixed number (in 3D, where the repository
// relies on it). Linked with --wrap, this makes the installed library behave like the newer one.
#ifdef VC_WRAP_SUBMESH
extern "C" {
mfem::SubMesh real_CreateFromDomain(const mfem::Mesh &, mfem::Array<int>) __asm__("__real__ZN4mfem7SubMesh16CreateFromDomainERKNS_4MeshENS_5ArrayIiEE");
mfem::SubMesh wrap_CreateFromDomain(const mfem::Mesh &, mfem::Array<int>) __asm__("__wrap__ZN4mfem7SubMesh16CreateFromDomainERKNS_4MeshENS_5ArrayIiEE");
}
mfem::SubMesh wrap_CreateFromDomain(const mfem::Mesh &pm, mfem::Array<int> a)
{
   mfem::SubMesh s(real_CreateFromDomain(pm, a));
   const int gen = pm.bdr_attributes.Size() ? pm.bdr_attributes.Max() + 1 : 1;
   for (int b = 0; b < s.GetNBE(); b++) if (s.GetBdrAttribute(b) == mfem::SubMesh::GENERATED_ATTRIBUTE) s.SetBdrAttribute(b, gen);
   s.SetAttributes();
   return s;
}
#endif
#endif
