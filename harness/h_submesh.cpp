// C05: decomposition of a mesh by element attribute. All attribute assignments of small meshes of four element kinds, all
// local vertex orders of pairs of elements, element orders, boundary attribute sets, refinement; geometric oracle.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "topo.hpp"
#include <memory>
using namespace mfem; using namespace std; using vc::X; using vc::S; using namespace topo;

static void setConfig(const string &extra) { config.dict_ = YAML::Load("{mesh: {type: submesh" + extra); }

static void examine(Mesh &pm, bool decomposed, SubMeshTopologyHandler &th)
{
   const int d = pm.Dimension(); const int K = decomposed ? pm.attributes.Max() : 1;
   vc::eq(th.GetNumSubdomains(), K, "number of subdomains"); vc::eq(th.GetNumComponents(), K, "number of components");
   vc::check(th.GetGlobalMesh() == &pm, "global mesh"); vc::check(th.GetType() == SUBMESH, "type");
   Array<Mesh *> ms; TopologyData td; th.ExportInfo(ms, td);
   vc::eq(ms.Size(), K, "exported meshes"); vc::eq(td.numSub, K, "exported number"); vc::eq(td.dim, d, "dimension");
   vc::check(td.global_bdr_attributes == &pm.bdr_attributes || td.global_bdr_attributes->Size() == pm.bdr_attributes.Size(), "global boundary attributes");
   for (int m = 0; m < K; m++) { vc::check(ms[m] == th.GetMesh(m), "exported mesh " + S(m)); vc::eq(th.GetMeshType(m), m, "component of mesh"); vc::eq(th.GetComponentIndexOfMesh(m), 0, "index in component"); vc::eq(th.GetNumSubdomains(m), 1, "meshes of component"); vc::check(th.GetComponentMesh(m) == th.GetMesh(m), "component mesh"); }
   set<string> names; for (int c = 0; c < K; c++) vc::check(names.insert(th.GetComponentName(c)).second, "component names repeat");
   // elements
   map<Key, int> where; int total = 0;
   for (int m = 0; m < K; m++) for (int e = 0; e < ms[m]->GetNE(); e++) { Key k = key(elemCentre(*ms[m], e)); vc::check(where.insert({k, m}).second, "an element is in two places"); total++; vc::check(fabs(ms[m]->GetElementVolume(e)) > 0, "empty element"); }
   vc::eq(total, pm.GetNE(), "number of elements");
   vector<double> volS(K, 0), volP(K, 0);
   for (int e = 0; e < pm.GetNE(); e++) { auto it = where.find(key(elemCentre(pm, e))); vc::check(it != where.end(), "an element is missing"); int want = decomposed ? pm.GetAttribute(e) - 1 : 0; vc::eq(it->second, want, "subdomain of element " + S(e)); volP[want] += pm.GetElementVolume(e); }
   for (int m = 0; m < K; m++) { for (int e = 0; e < ms[m]->GetNE(); e++) volS[m] += ms[m]->GetElementVolume(e); vc::near(volS[m], volP[m], "volume of subdomain " + S(m)); }
   // boundary and interfaces expected
   map<Key, pair<int, int>> bdr; // centre -> (subdomain, attribute)
   for (int b = 0; b < pm.GetNBE(); b++) { int e, info; pm.GetBdrElementAdjacentElement(b, e, info); bdr[key(bdrCentre(pm, b))] = {decomposed ? pm.GetAttribute(e) - 1 : 0, pm.GetBdrAttribute(b)}; }
   map<Key, pair<int, int>> iface; set<pair<int, int>> pairs;
   if (decomposed) for (int f = 0; f < pm.GetNumFaces(); f++) { int a, b; pm.GetFaceElements(f, &a, &b); if (a < 0 || b < 0) continue; int x = pm.GetAttribute(a) - 1, y = pm.GetAttribute(b) - 1; if (x == y) continue; if (x > y) swap(x, y); iface[key(faceCentre(pm, f))] = {x, y}; pairs.insert({x, y}); }
   // ports
   vc::eq(th.GetNumPorts(), (int) pairs.size(), "number of ports"); vc::eq(th.GetNumRefPorts(), th.GetNumPorts(), "number of reference ports");
   set<int> attrs; map<pair<int, int>, int> pairPort; map<pair<int, int>, set<int>> paired; // (mesh, be) -> port
   size_t nrec = 0;
   for (int p = 0; p < th.GetNumPorts(); p++)
   {
      const PortInfo *pi = th.GetPortInfo(p); pair<int, int> pr(min(pi->Mesh1, pi->Mesh2), max(pi->Mesh1, pi->Mesh2));
      vc::check(pairs.count(pr), "a port joins subdomains that do not touch"); vc::check(pairPort.insert({pr, p}).second, "two ports for one pair of subdomains");
      vc::check(attrs.insert(pi->PortAttr).second, "two ports with one attribute"); vc::check(pm.bdr_attributes.Find(pi->PortAttr) < 0, "a port attribute is a global boundary attribute");
      vc::eq(pi->Attr1, pi->PortAttr, "attribute of side 1"); vc::eq(pi->Attr2, pi->PortAttr, "attribute of side 2");
      int c1, c2, a1, a2; th.GetComponentPair(th.GetPortType(p), c1, c2); vc::check(c1 == pi->Mesh1 && c2 == pi->Mesh2, "component pair"); th.GetRefPortInfo(p, c1, c2, a1, a2); vc::check(c1 == pi->Mesh1 && c2 == pi->Mesh2 && a1 == pi->Attr1 && a2 == pi->Attr2, "reference port");
      vc::check(th.GetRefInterfaceInfos(p) == th.GetInterfaceInfos(p), "reference interface");
      vc::check(ms[pi->Mesh1]->bdr_attributes.Find(pi->PortAttr) >= 0 && ms[pi->Mesh2]->bdr_attributes.Find(pi->PortAttr) >= 0, "a subdomain mesh does not list its port attribute");
      Array<InterfaceInfo> *ii = th.GetInterfaceInfos(p); vc::check(ii && ii->Size() > 0, "empty port"); set<Key> seen;
      for (int i = 0; i < ii->Size(); i++)
      {
         InterfaceInfo &f = (*ii)[i]; nrec++;
         vc::check(f.BE1 >= 0 && f.BE1 < ms[pi->Mesh1]->GetNBE() && f.BE2 >= 0 && f.BE2 < ms[pi->Mesh2]->GetNBE(), "boundary element numbers");
         P3 x1 = bdrCentre(*ms[pi->Mesh1], f.BE1), x2 = bdrCentre(*ms[pi->Mesh2], f.BE2); vc::check(dist(x1, x2) < 1e-8, "the recorded boundary elements lie at " + topo::str(x1) + " and " + topo::str(x2));
         auto it = iface.find(key(x1)); vc::check(it != iface.end(), "the record is not on an interface"); vc::check(it->second == pr, "the record is in the wrong port"); vc::check(seen.insert(key(x1)).second, "the face is recorded twice");
         paired[{pi->Mesh1, f.BE1}].insert(p); paired[{pi->Mesh2, f.BE2}].insert(p);
      }
      checkTransformations(th, p);
   }
   vc::eq(nrec, iface.size(), "number of recorded interface faces");
   // boundary elements of the subdomains
   map<Key, int> seenB;
   for (int m = 0; m < K; m++)
   {
      set<int> used;
      for (int b = 0; b < ms[m]->GetNBE(); b++)
      {
         int a = ms[m]->GetBdrAttribute(b); used.insert(a); Key k = key(bdrCentre(*ms[m], b));
         auto it = bdr.find(k);
         if (it != bdr.end()) { vc::eq(it->second.first, m, "subdomain of a boundary element"); vc::eq(a, it->second.second, "attribute of a boundary element"); vc::check(seenB.insert({k, m}).second, "a boundary element twice"); vc::check(!paired.count({m, b}), "a global boundary element is in a port"); }
         else { auto jt = iface.find(k); vc::check(jt != iface.end(), "a boundary element that is neither global boundary nor interface"); vc::check(jt->second.first == m || jt->second.second == m, "interface of other subdomains"); vc::eq(a, th.GetPortInfo(pairPort[jt->second])->PortAttr, "attribute of an interface boundary element"); vc::check(paired.count({m, b}) && paired[{m, b}].size() == 1, "an interface boundary element is not in exactly one port"); }
      }
      set<int> listed(ms[m]->bdr_attributes.begin(), ms[m]->bdr_attributes.end()); vc::check(listed == used && (int) listed.size() == ms[m]->bdr_attributes.Size(), "the boundary attributes listed by subdomain " + S(m) + " are not the used ones");
   }
   vc::eq(seenB.size(), bdr.size(), "number of global boundary elements kept");
   X.transitions += nrec + seenB.size() + total;
   vc::Hash h; for (auto &i : iface) { h.add(i.second.first); h.add(i.second.second); h.add(i.first.k[0]); h.add(i.first.k[1]); } h.add(K); X.outcome(h.h);
}

// fields: what each subdomain holds arrives on its own elements, and nowhere else
static void fields(Mesh &pm, SubMeshTopologyHandler &th, int order, int nvar, bool h1)
{
   const int d = pm.Dimension(), K = th.GetNumSubdomains();
   unique_ptr<FiniteElementCollection> fec(h1 ? (FiniteElementCollection *) new H1_FECollection(order, d) : new DG_FECollection(order, d));
   vector<unique_ptr<FiniteElementSpace>> fes, gfes; vector<unique_ptr<GridFunction>> own, gown; Array<GridFunction *> us(K * nvar), gu(nvar);
   for (int v = 0; v < nvar; v++) { gfes.emplace_back(new FiniteElementSpace(&pm, fec.get(), v + 1)); gown.emplace_back(new GridFunction(gfes.back().get())); *gown.back() = -77.0; gu[v] = gown.back().get(); }
   auto val = [&](int v, int comp, int m, const Vector &x) { return h1 ? 1.0 + v + comp * 0.5 + x(0) * (1 + v) - 2 * x(1) + (order > 1 ? x(0) * x(1) : 0) : 10.0 * m + v + comp * 0.3 + x(0) - 2 * x(1); };
   for (int m = 0; m < K; m++) for (int v = 0; v < nvar; v++)
   {
      fes.emplace_back(new FiniteElementSpace(th.GetMesh(m), fec.get(), v + 1)); own.emplace_back(new GridFunction(fes.back().get()));
      VectorFunctionCoefficient c(v + 1, [&, m, v](const Vector &x, Vector &y) { for (int i = 0; i < y.Size(); i++) y(i) = val(v, i, m, x); }); own.back()->ProjectCoefficient(c); us[m * nvar + v] = own.back().get();
   }
   th.TransferToGlobal(us, gu, nvar);
   for (int v = 0; v < nvar; v++) for (int e = 0; e < pm.GetNE(); e++)
   {
      ElementTransformation *T = pm.GetElementTransformation(e); const IntegrationRule &ir = IntRules.Get(pm.GetElementBaseGeometry(e), 2);
      for (int q = 0; q < ir.GetNPoints(); q++) { T->SetIntPoint(&ir.IntPoint(q)); Vector x, y; T->Transform(ir.IntPoint(q), x); gu[v]->GetVectorValue(*T, ir.IntPoint(q), y); for (int i = 0; i <= v; i++) vc::near(y(i), val(v, i, K > 1 ? pm.GetAttribute(e) - 1 : 0, x), "transferred field"); }
   }
}

static void one(Mesh base, const vector<int> &battr, int refine, bool decomposed, int fieldOrder)
{
   for (int b = 0; b < base.GetNBE(); b++) base.SetBdrAttribute(b, battr[base.GetBdrAttribute(b) - 1]);
   base.SetAttributes();
   setConfig(string(refine ? ", uniform_refinement: " + S(refine) : "") + "}, domain-decomposition: {type: " + (decomposed ? "interior_penalty" : "none") + "}}");
   {
      const int before = base.GetNE(), beforeB = base.GetNBE(); SubMeshTopologyHandler th(&base); vc::eq(base.GetNE(), before << (base.Dimension() * refine), "elements of the refined mesh"); vc::eq(base.GetNBE(), beforeB << ((base.Dimension() - 1) * refine), "boundary elements of the refined mesh"); examine(base, decomposed, th);
      for (int nv = 1; nv <= 3 && fieldOrder >= 0; nv++) { fields(base, th, fieldOrder, nv, false); fields(base, th, max(1, fieldOrder), nv, true); }
   }
}

struct Base { Kind k; int nx, ny, nz, K; };
void vc_main()
{
   config = InputParser();
   const vector<int> std6 = {1, 2, 3, 4, 5, 6}, odd6 = {7, 2, 2, 9, 5, 11};
   // all attribute assignments with attributes 1..K all used
   vector<Base> bs = {{QUAD, 2, 1, 1, 2}, {QUAD, 3, 1, 1, 3}, {QUAD, 2, 2, 1, 4}, {QUAD, 3, 2, 1, 3}, {TRI, 1, 1, 1, 2}, {TRI, 2, 1, 1, 4}, {TRI, 2, 2, 1, 2}, {HEX, 2, 1, 1, 2}, {HEX, 1, 2, 2, 4}, {HEX, 2, 2, 2, 2}, {TET, 1, 1, 1, 4}};
   if (X.thorough) { bs.push_back({QUAD, 3, 3, 1, 3}); bs.push_back({QUAD, 4, 2, 1, 4}); bs.push_back({TRI, 2, 2, 1, 3}); bs.push_back({TRI, 3, 1, 1, 4}); bs.push_back({HEX, 3, 2, 1, 4}); bs.push_back({HEX, 2, 2, 2, 3}); bs.push_back({TET, 2, 1, 1, 2}); bs.push_back({TET, 1, 1, 1, 6}); }
   for (auto &b : bs)
   {
      int ne = b.nx * b.ny * b.nz * (b.k == TRI ? 2 : b.k == TET ? 6 : 1);
      for (int K = 1; K <= b.K; K++) vc::product(vector<int>(ne, K), [&](const vector<int> &t) {
         set<int> u(t.begin(), t.end()); if ((int) u.size() != K) return;
         vector<int> at(t); for (int &x : at) x++;
         X.run(string(name(b.k)) + " " + S(b.nx) + "x" + S(b.ny) + "x" + S(b.nz) + " attributes " + vc::str(at), [=]() { Mesh m = box(b.k, b.nx, b.ny, b.nz); long code = 0; for (int x : at) code = code * 5 + x;
            vector<int> rot(ne), order(ne); for (int i = 0; i < ne; i++) { rot[i] = (code + 3 * i * i) % 24; order[i] = i; } if (code % 3 == 1) reverse(order.begin(), order.end()); if (code % 3 == 2) rotate(order.begin(), order.begin() + ne / 2, order.end());
            one(rebuild(m, at), std6, 0, true, 1); one(rebuild(m, at, rot, order), code % 2 ? odd6 : std6, 0, true, -1); });
      });
   }
   // every relative orientation of two neighbours, on every side
   for (Kind k : {QUAD, TRI, HEX, TET}) for (int dir = 0; dir < dimOf(k); dir++)
   {
      auto G = k == QUAD ? Geometry::SQUARE : k == TRI ? Geometry::TRIANGLE : k == HEX ? Geometry::CUBE : Geometry::TETRAHEDRON; int R = rotations(G).size();
      for (int r1 = 0; r1 < R; r1++) for (int r2 = 0; r2 < R; r2++) for (int sw = 0; sw < 2; sw++) X.run(string("orientation ") + name(k) + " dir " + S(dir) + " " + S(r1) + "," + S(r2) + (sw ? " swapped" : ""), [=]() {
         int n[3] = {1, 1, 1}; n[dir] = 2; Mesh m = box(k, n[0], n[1], n[2]); int ne = m.GetNE(); vector<int> at(ne), rot(ne); for (int e = 0; e < ne; e++) { P3 c = elemCentre(m, e); bool hi = c[dir] > 1; at[e] = hi != (bool) sw ? 2 : 1; rot[e] = hi ? r2 : r1; }
         one(rebuild(m, at, rot), std6, 0, true, k == TET ? -1 : 1); });
   }
   // refinement, boundary attribute sets, no decomposition, striped and nested subdomains of larger meshes
   for (Kind k : {QUAD, TRI, HEX, TET}) for (int ref = 0; ref < 4; ref++) for (int dec = 0; dec < 2; dec++) for (int ba = 0; ba < 4; ba++) for (int pat = 0; pat < 5; pat++) {
      if (k == TET && ref && !X.thorough && pat > 2) continue; if (ref > 1 && (dimOf(k) == 3 ? ref > 2 || ba != 2 || pat : ref > 2 ? ba != 2 || pat : ba % 2 || pat > 2)) continue;
      X.run(string("larger ") + name(k) + " refine " + S(ref) + " decomposed " + S(dec) + " boundary " + S(ba) + " pattern " + S(pat), [=]() {
         int n = ref > 1 ? 2 : dimOf(k) == 2 ? 4 : ref ? 2 : 3; Mesh m = box(k, n, n, dimOf(k) == 2 ? 1 : 2); int ne = m.GetNE(); vector<int> at(ne);
         for (int e = 0; e < ne; e++) { P3 c = elemCentre(m, e); int i = c[0], j = c[1], l = dimOf(k) == 3 ? c[2] : 0; at[e] = 1 + (pat == 0 ? (i + j + l) % 2 : pat == 1 ? i % 3 % (n < 3 ? 2 : 3) : pat == 2 ? (i > 0 && i < n - 1 && j > 0) : pat == 3 ? (i * 2 + j) % 4 : e % (ne < 5 ? ne : 5)); }
         { set<int> u(at.begin(), at.end()); map<int, int> c; for (int x : u) { int s = c.size(); c[x] = s + 1; } for (int &x : at) x = c[x] * (dec ? 1 : 1 + ba) + (dec ? 0 : ba % 2); }   // attributes without gaps where they name subdomains
         static const vector<vector<int>> B = {{1, 2, 3, 4, 5, 6}, {1, 1, 1, 1, 1, 1}, {5, 3, 9, 3, 2, 40}, {2, 3, 4, 5, 6, 7}};
         one(rebuild(m, at), B[ba], ref, dec, X.thorough || dimOf(k) == 2 ? 2 : 1); });
   }
   // many subdomains, long thin and square arrangements, islands, large attribute numbers; straight and curved elements
   for (Kind k : {QUAD, TRI, HEX, TET}) for (int sh = 0; sh < 6; sh++) for (int pat = 0; pat < 6; pat++) for (int cu = 0; cu < 4; cu++) for (int ba = 0; ba < 2; ba++) {
      if (dimOf(k) == 3 && (cu + pat + sh) % 3 && !X.thorough) continue;
      X.run(string("many ") + name(k) + " size " + S(sh) + " pattern " + S(pat) + " curved " + S(cu) + " boundary " + S(ba), [=]() {
         static const int N2[6][2] = {{8, 8}, {14, 1}, {1, 11}, {5, 7}, {9, 3}, {6, 2}}, N3[6][3] = {{3, 3, 3}, {7, 1, 1}, {1, 1, 6}, {4, 2, 1}, {2, 2, 4}, {1, 5, 2}};
         const bool d3 = dimOf(k) == 3; Mesh m0 = d3 ? box(k, N3[sh][0], N3[sh][1], N3[sh][2]) : box(k, N2[sh][0], N2[sh][1]); int ne = m0.GetNE(); vector<int> at(ne), rot(ne);
         for (int e = 0; e < ne; e++) { P3 c = elemCentre(m0, e); int i = c[0], j = c[1], l = d3 ? c[2] : 0; at[e] = pat == 0 ? i + 20 * j + 400 * l : pat == 1 ? (i / 2) + 20 * (j / 2) + 400 * l : pat == 2 ? (i * 3 + j * 5 + l) % 7 : pat == 3 ? max(i, max(j, l)) : pat == 4 ? (i % 3 == 1 && j % 2 == 0 ? 1 + i + 20 * j : 0) : (i + j + l) % 2 * 5 + e % 3; rot[e] = (e * 5 + sh) % 24; }
         { set<int> u(at.begin(), at.end()); map<int, int> c; int t = u.size(); for (int x : u) c[x] = sh % 2 ? t-- : (int) c.size() + 1; for (int &x : at) x = c[x]; }
         Mesh m = rebuild(m0, at, rot); if (cu) { m.SetCurvature(cu, cu == 2); VectorFunctionCoefficient f(m.Dimension(), [](const Vector &x, Vector &y) { y = x; y(0) += 0.03 * x(1) * x(1) + 0.02 * x(0); y(1) += 0.01 * x(0) * x(0); if (x.Size() > 2) y(2) += 0.02 * x(0) * x(1); }); m.Transform(f); }
         static const vector<vector<int>> B = {{1, 2, 3, 4, 5, 6}, {300, 17, 300, 41, 5, 1000}};
         one(Mesh(m), B[ba], 0, true, cu ? -1 : d3 ? 1 : 1 + pat % 4); });
   }
   // the same from a file
   for (const char *f : {"meshes/test.2x2.mesh", "meshes/test.4x4.mesh", "meshes/test.2x1.mesh", "meshes/test.2x2x2.hex.mesh", "meshes/test.2x2x2.tet.mesh", "meshes/dd_mms.mesh", "meshes/beam-tri.mesh"}) for (int ref = 0; ref < 2; ref++)
      X.run(string("file ") + f + " refine " + S(ref), [=]() { setConfig(string(", filename: ") + f + ", uniform_refinement: " + S(ref) + "}}"); SubMeshTopologyHandler th; examine(*th.GetGlobalMesh(), true, th); });
   for (int k = 0; k < 3; k++) X.run("modes " + S(k), [=]() { setConfig(k == 0 ? "}}" : ", x: 1}}"); if (k == 2) { config.dict_["mesh"]["type"] = "component-wise"; vc::check(SetTopologyHandlerMode() == COMPONENT, "mode"); } else { if (k == 1) config.dict_["mesh"].remove("type"); vc::check(SetTopologyHandlerMode() == SUBMESH, "mode"); } });
}
