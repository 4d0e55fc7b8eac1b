// Reference residuals and Jacobians of nonlinear element and face terms: formulas at a point of space, differentiated
// with dual numbers, on shape functions and gradients computed here from the element geometry.
#ifndef VERIF_NLREF_HPP
#define VERIF_NLREF_HPP
#include "topo.hpp"
#include "dgref.hpp"
#include "hyperreduction_integ.hpp"
#include "nonlinear_integ.hpp"
#include "interfaceinteg.hpp"

namespace nlref
{
using namespace mfem; using namespace dgref; using std::vector; using std::string; using std::unique_ptr; using vc::S;

inline double fq(const Vector &x) { return 1.3 + 0.5 * x(0) - (x.Size() > 1 ? 0.25 * x(1) : 0) + (x.Size() > 2 ? 0.125 * x(2) : 0); }
inline double fneg(const Vector &x) { return -0.6 + 0.1 * x(0); }
inline double fone(const Vector &) { return 1.0; }
inline void fv(const Vector &x, Vector &v) { const int d = x.Size(); v.SetSize(d); for (int i = 0; i < d; i++) v(i) = 0.4 - 0.9 * i + 0.3 * x(i) * (i + 1) - 0.2 * x((i + 1) % d); }
typedef std::function<void(const Vector &, Vector &)> VFn;

// a domain term: A multiplies the test function, B its gradient
typedef std::function<void(const Vector &x, const DV &u, const vector<DV> &G, DV &A, vector<DV> &B)> Dom;
inline Dom temamDom(Fn q) { return [=](const Vector &x, const DV &u, const vector<DV> &G, DV &A, vector<DV> &B) { int d = x.Size(); Dual c(0.5 * q(x)); for (int i = 0; i < d; i++) for (int k = 0; k < d; k++) { A[i] = A[i] + c * u[k] * G[i][k]; B[i][k] = B[i][k] - c * u[k] * u[i]; } }; }
inline Dom convection(Fn q, VFn vq) { return [=](const Vector &x, const DV &u, const vector<DV> &G, DV &A, vector<DV> &) { int d = x.Size(); Dual c(q(x)); DV w = u; if (vq) { Vector v(d); vq(x, v); for (int k = 0; k < d; k++) w[k] = Dual(v(k)); } for (int i = 0; i < d; i++) for (int k = 0; k < d; k++) A[i] = A[i] + c * w[k] * G[i][k]; }; }
inline Dom inviscid(Fn q) { return [=](const Vector &x, const DV &u, const vector<DV> &, DV &, vector<DV> &B) { int d = x.Size(); Dual c(q(x)); for (int i = 0; i < d; i++) for (int k = 0; k < d; k++) B[i][k] = B[i][k] + c * u[i] * u[k]; }; }

// adds the contribution of one point of an element with weight w (reference weight)
inline void domainPoint(Mesh &m, int e, const FiniteElement &fe, const IntegrationPoint &ip, double iw, const Dom &F, const Vector &x, Vector &r, DenseMatrix &J)
{
   ElementTransformation *T = m.GetElementTransformation(e); T->SetIntPoint(&ip); const int d = m.Dimension(), n = fe.GetDof(); Vector N(n), X(d); DenseMatrix g(n, d), dN(n, d), Ji(d);
   T->Transform(ip, X); fe.CalcShape(ip, N); fe.CalcDShape(ip, g); CalcInverse(T->Jacobian(), Ji); Mult(g, Ji, dN); const double w = iw * std::fabs(T->Jacobian().Det());
   DV u(d); vector<DV> G(d, DV(d)); for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) { u[a].v += N(i) * x(a * n + i); for (int k = 0; k < d; k++) G[a][k].v += dN(i, k) * x(a * n + i); }
   auto ev = [&](DV &A, vector<DV> &B) { A.assign(d, Dual()); B.assign(d, DV(d)); F(X, u, G, A, B); };
   DV A; vector<DV> B; ev(A, B); for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) { double s = N(i) * A[a].v; for (int k = 0; k < d; k++) s += dN(i, k) * B[a][k].v; r(a * n + i) += w * s; }
   for (int b = 0; b < d; b++) for (int q = -1; q < d; q++)   // derivative along u_b (q = -1) or d_q u_b
   {
      Dual &s = q < 0 ? u[b] : G[b][q]; s.d = 1; ev(A, B); s.d = 0;
      for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) { double c = N(i) * A[a].d; for (int k = 0; k < d; k++) c += dN(i, k) * B[a][k].d; if (c != 0) for (int j = 0; j < n; j++) J(a * n + i, b * n + j) += w * c * (q < 0 ? N(j) : dN(j, q)); }
   }
}

// a point of face f of the mesh (1D: the face is a point), sides in the order given
inline FP facePoint(Mesh &m, int f, const IntegrationPoint &ip, const FiniteElement *f1, const FiniteElement *f2)
{
   FP p; const int d = m.Dimension(); p.dim = d; p.n.SetSize(d); p.x.SetSize(d); int e[2]; m.GetFaceElements(f, &e[0], &e[1]); p.ns = e[1] >= 0 ? 2 : 1; double l = 1;
   if (d == 1) { Array<int> v; m.GetFaceVertices(f, v); p.x(0) = m.GetVertex(v[0])[0]; p.n(0) = 1; p.ds = ip.weight; }
   else { ElementTransformation *T = m.GetFaceTransformation(f); T->SetIntPoint(&ip); T->Transform(ip, p.x); CalcOrtho(T->Jacobian(), p.n); l = p.n.Norml2(); p.n /= l; p.ds = ip.weight * l; }
   topo::P3 c = topo::elemCentre(m, e[0]); double o = 0; for (int k = 0; k < d; k++) o += p.n(k) * (p.x(k) - c[k]); if (o < 0) p.n *= -1.0;
   for (int s = 0; s < p.ns; s++) { p.s[s].sub = 0; fillSide(p.s[s], m, e[s], p.x, l, s ? f2 : f1, NULL); }
   return p;
}
// adds one point; x, r, J hold the dofs of side 0 (component by component), then of side 1. dw: weight instead of p.ds.
inline void fluxPoint(const FP &p, double ds, const Flux &F, const Vector &x, Vector &r, DenseMatrix *J)
{
   const int d = p.dim; int off[3] = {0, d * p.s[0].N.Size(), 0}; DV u[2], f[2]; u[0].assign(d, Dual()); u[1].assign(d, Dual());
   for (int s = 0; s < p.ns; s++) { int n = p.s[s].N.Size(); for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) u[s][a].v += p.s[s].N(i) * x(off[s] + a * n + i); }
   auto ev = [&]() { f[0].assign(d, Dual()); f[1].assign(d, Dual()); F(p, u[0], u[1], f[0], f[1]); };
   ev(); for (int s = 0; s < p.ns; s++) { int n = p.s[s].N.Size(); for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) r(off[s] + a * n + i) += ds * f[s][a].v * p.s[s].N(i); }
   if (J) for (int su = 0; su < p.ns; su++) for (int b = 0; b < d; b++)
   {
      u[su][b].d = 1; ev(); u[su][b].d = 0; int nu = p.s[su].N.Size();
      for (int s = 0; s < p.ns; s++) { int n = p.s[s].N.Size(); for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) for (int j = 0; j < nu; j++) (*J)(off[s] + a * n + i, off[su] + b * nu + j) += ds * f[s][a].d * p.s[s].N(i) * p.s[su].N(j); }
   }
}

// states of one or two sides: n1 values then n2
inline void stateOf(Vector &x, int n1, int k)
{
   if (k == 0) x = 0.0; else if (k == 1) x = 1.0; else { irregular(x, k == 3 ? 2 : 13 * k); if (k == 3) x.Neg(); }
   if (k >= 4) { const double f1[] = {0, 1, 3, 0.2}, f2[] = {1, 0, 0.2, 3}; for (int i = 0; i < x.Size(); i++) x(i) = (i < n1 ? f1 : f2)[k - 4] * (x(i) + (k > 5 ? 0.5 : 0)); }
}
static const int NSTATE = 8;
inline string stname(int k) { static const char *s[] = {"zero", "one", "irregular", "reversed", "first side zero", "second side zero", "first side larger", "second side larger"}; return s[k]; }

inline Mesh line(int n) { Mesh b = Mesh::MakeCartesian1D(n, n * 1.0); return b; }
enum Shape { SEG1 = 4 };   // continues topo::Kind
inline const char *kname(int k) { return k == SEG1 ? "seg" : topo::name((topo::Kind) k); }
inline int kdim(int k) { return k == SEG1 ? 1 : topo::dimOf((topo::Kind) k); }
inline Mesh boxOf(int k, int nx, int ny = 1, int nz = 1) { if (k == SEG1) return line(nx); return topo::box((topo::Kind) k, nx, ny, nz); }
inline Geometry::Type faceGeom(int k) { return k == SEG1 ? Geometry::POINT : kdim(k) == 2 ? Geometry::SEGMENT : k == topo::HEX ? Geometry::SQUARE : Geometry::TRIANGLE; }
// ---- the terms under test, with their formulas
struct NTerm { string name; bool face, ud; int q; /* 0 none, 1 constant, 2 variable, 3 negative */ int form; bool vq; };
inline vector<NTerm> domainTerms(bool hyper)
{
   vector<NTerm> t; for (int q = 0; q < 4; q++) { if (!hyper) t.push_back({"temam", false, false, q, 0, false}); t.push_back({"convection", false, false, q, 1, false}); if (q) t.push_back({"convection-vQ", false, false, q, 1, true}); t.push_back({"inviscid-flux", false, false, q, 2, false}); }
   for (auto &x : t) x.name += x.q == 0 ? "" : x.q == 1 ? "-Q" : x.q == 2 ? "-Q(x)" : "-negQ(x)"; return t;
}
inline vector<NTerm> faceTerms(bool hyper)
{
   vector<NTerm> t; for (int q = 1; q < 4; q++) { if (!hyper) t.push_back({"temam-face", true, false, q, 3, false}); t.push_back({"lax-friedrichs", true, false, q, 4, false}); t.push_back({"lax-friedrichs-UD", true, true, q, 4, false}); }
   for (auto &x : t) x.name += x.q == 1 ? "-Q" : x.q == 2 ? "-Q(x)" : "-negQ(x)"; return t;
}
inline Fn qOf(const NTerm &t) { return t.q == 0 ? Fn(fone) : t.q == 1 ? Fn([](const Vector &) { return 1.7; }) : t.q == 2 ? Fn(fq) : Fn(fneg); }
enum Mode { ELEM, FACE, BDR, INTF };
inline const char *mname(int m) { static const char *n[] = {"element", "interior-face", "boundary-face", "interface"}; return n[m]; }
// an integrator with the coefficients it points to
struct Made
{
   unique_ptr<Coefficient> q; unique_ptr<VectorCoefficient> v; unique_ptr<NonlinearFormIntegrator> nl; HyperReductionIntegrator *hr = NULL; InterfaceNonlinearFormIntegrator *itf = NULL; NTerm t;
   Made(const NTerm &t_, int dim, int mode, const IntegrationRule *ir = NULL) : t(t_)
   {
      if (t.q == 1) q.reset(new ConstantCoefficient(1.7)); else if (t.q == 2) q.reset(new FunctionCoefficient(fq)); else if (t.q == 3) q.reset(new FunctionCoefficient(fneg));
      if (t.vq || t.ud) v.reset(new VectorFunctionCoefficient(dim, [](const Vector &x, Vector &y) { fv(x, y); }));
      if (t.form == 0) nl.reset(q ? new TemamTrilinearFormIntegrator(*q) : new TemamTrilinearFormIntegrator());
      else if (t.form == 1) nl.reset(q ? new VectorConvectionTrilinearFormIntegrator(*q, v.get()) : new VectorConvectionTrilinearFormIntegrator());
      else if (t.form == 2) nl.reset(q ? new IncompressibleInviscidFluxNLFIntegrator(*q) : new IncompressibleInviscidFluxNLFIntegrator());
      else if (t.form == 3) { if (mode == INTF) nl.reset(new InterfaceDGTemamFluxIntegrator(*q)); else nl.reset(new DGTemamFluxIntegrator(*q)); }
      else nl.reset(new DGLaxFriedrichsFluxIntegrator(*q, t.ud ? v.get() : NULL, ir));
      hr = dynamic_cast<HyperReductionIntegrator *>(nl.get()); itf = dynamic_cast<InterfaceNonlinearFormIntegrator *>(nl.get());
   }
   Dom dom() const { Fn f = qOf(t); return t.form == 0 ? temamDom(f) : t.form == 1 ? convection(f, t.vq ? VFn(fv) : VFn()) : inviscid(f); }
   Flux flux(bool bdr) const { return t.form == 3 ? temam(qOf(t)) : laxFriedrichs(qOf(t), t.ud && bdr ? VFn(fv) : VFn()); }
};

// a place where a term is evaluated: an element, an interior or boundary face, or an interface of two subdomains
struct Site
{
   int kind, mode, p1, p2, d, which; unique_ptr<Mesh> m; unique_ptr<SubMeshTopologyHandler> th; Array<Mesh *> ms; TopologyData td; unique_ptr<FiniteElementCollection> c1, c2;
   const FiniteElement *f1 = NULL, *f2 = NULL; ElementTransformation *T = NULL; FaceElementTransformations *t1 = NULL, *t2 = NULL; int n1 = 0, n2 = 0, e1 = 0, e2 = -1; Mesh *m1, *m2;
   // two boxes side by side; rot: local vertex orders; which: number of the element / face among those of its mode
   Site(int kind_, int mode_, int p1_, int p2_, int bend, const vector<int> &rot, int which_ = 0) : kind(kind_), mode(mode_), p1(p1_), p2(p2_), which(which_)
   {
      Mesh b = boxOf(kind, 2); d = b.Dimension(); vector<int> at; for (int e = 0; e < b.GetNE(); e++) at.push_back(mode == INTF && topo::elemCentre(b, e)[0] > 1 ? 2 : 1);
      Mesh r = topo::rebuild(b, at, rot); if (d == 1) { if (bend) for (int i = 0; i < r.GetNV(); i++) r.GetVertex(i)[0] *= 1 + 0.2 * bend * (i + 1); } else distort(r, bend); m.reset(new Mesh(std::move(r)));
      if (mode == INTF) { th.reset(new SubMeshTopologyHandler(m.get())); th->ExportInfo(ms, td); m1 = ms[th->GetPortInfo(0)->Mesh1]; m2 = ms[th->GetPortInfo(0)->Mesh2]; } else m1 = m2 = m.get();
      c1.reset(new DG_FECollection(p1, d)); c2.reset(new DG_FECollection(p2, d)); bind();
   }
   static int count(int kind, int mode) { Mesh b = boxOf(kind, 2); int n = 0; if (mode == ELEM) return b.GetNE(); if (mode == BDR) return b.GetNBE(); for (int f = 0; f < b.GetNumFaces(); f++) if (b.FaceIsInterior(f)) { n++; } if (mode == FACE) return n; n = 0; for (int f = 0; f < b.GetNumFaces(); f++) if (b.FaceIsInterior(f)) { int a, c; b.GetFaceElements(f, &a, &c); if ((topo::elemCentre(b, a)[0] > 1) != (topo::elemCentre(b, c)[0] > 1)) n++; } return n; }
   // (re)attaches the transformations, which the mesh owns and reuses
   void bind()
   {
      auto fe = [&](FiniteElementCollection &c, Mesh &mm, int e) { return c.FiniteElementForGeometry(mm.GetElementBaseGeometry(e)); };
      if (mode == ELEM) { e1 = which; T = m->GetElementTransformation(e1); f1 = fe(*c1, *m, e1); }
      else if (mode == FACE) { int f = 0, k = which; for (;; f++) if (m->FaceIsInterior(f) && k-- == 0) break; t1 = m->GetFaceElementTransformations(f); e1 = t1->Elem1No; e2 = t1->Elem2No; f1 = fe(*c1, *m, e1); f2 = fe(*c2, *m, e2); }
      else if (mode == BDR) { t1 = m->GetBdrFaceTransformations(which); e1 = t1->Elem1No; f1 = f2 = fe(*c1, *m, e1); }
      else { InterfaceInfo &i = (*th->GetInterfaceInfos(0))[which]; th->GetInterfaceTransformations(m1, m2, &i, t1, t2); e1 = t1->Elem1No; e2 = t2->Elem1No; f1 = fe(*c1, *m1, e1); f2 = fe(*c2, *m2, e2); }
      n1 = f1->GetDof() * d; n2 = two() ? f2->GetDof() * d : 0;
   }
   bool two() const { return mode == FACE || mode == INTF; }
   int size() const { return n1 + n2; }
   Geometry::Type geom() const { return mode == ELEM ? m->GetElementBaseGeometry(e1) : faceGeom(kind); }
   const IntegrationRule &rule(int order) const { return IntRules.Get(geom(), order); }
   FP point(const IntegrationPoint &ip)
   {
      bind(); FP p; p.dim = d; p.ns = two() ? 2 : 1; p.n.SetSize(d); p.x.SetSize(d); double l = 1; t1->SetAllIntPoints(&ip);
      if (d == 1) { t1->Elem1->Transform(t1->GetElement1IntPoint(), p.x); p.n(0) = 1; p.ds = ip.weight; } else { t1->Transform(ip, p.x); CalcOrtho(t1->Jacobian(), p.n); l = p.n.Norml2(); p.n /= l; p.ds = ip.weight * l; }
      topo::P3 c = topo::elemCentre(*m1, e1); double o = 0; for (int k = 0; k < d; k++) o += p.n(k) * (p.x(k) - c[k]); if (o < 0) p.n *= -1.0;
      p.s[0].sub = 0; fillSide(p.s[0], *m1, e1, p.x, l, f1, NULL); if (two()) { p.s[1].sub = 1; fillSide(p.s[1], *m2, e2, p.x, l, f2, NULL); } bind(); return p;
   }
   // reference: adds the point ip with weight iw
   void refPoint(const Made &M, const IntegrationPoint &ip, double iw, const Vector &x, Vector &r, DenseMatrix &J)
   {
      if (mode == ELEM) domainPoint(*m, e1, *f1, ip, iw, M.dom(), x, r, J); else { FP p = point(ip); fluxPoint(p, ip.weight == 0 ? 0 : p.ds / ip.weight * iw, M.flux(mode == BDR), x, r, &J); } vc::X.transitions++;
   }
   void ref(const Made &M, const IntegrationRule &ir, const Vector &x, Vector &r, DenseMatrix &J) { bind(); r.SetSize(size()); J.SetSize(size()); r = 0.0; J = 0.0; for (int q = 0; q < ir.GetNPoints(); q++) refPoint(M, ir.IntPoint(q), ir.IntPoint(q).weight, x, r, J); }
   // the code under test
   void vec(Made &M, const Vector &x, Vector &y)
   {
      bind(); if (mode == ELEM) M.nl->AssembleElementVector(*f1, *T, x, y); else if (mode != INTF) M.nl->AssembleFaceVector(*f1, *f2, *t1, x, y);
      else { Vector a, b, y1, y2; split(x, a, b); M.itf->AssembleInterfaceVector(*f1, *f2, *t1, *t2, a, b, y1, y2); join(y1, y2, y); }
   }
   void grad(Made &M, const Vector &x, DenseMatrix &J)
   {
      bind(); if (mode == ELEM) M.nl->AssembleElementGrad(*f1, *T, x, J); else if (mode != INTF) M.nl->AssembleFaceGrad(*f1, *f2, *t1, x, J);
      else { Vector a, b; split(x, a, b); Four e; M.itf->AssembleInterfaceGrad(*f1, *f2, *t1, *t2, a, b, e.m); e.get(n1, n2, J); }
   }
   void qvec(Made &M, const IntegrationPoint &ip, double iw, const Vector &x, Vector &y)
   {
      bind(); if (mode == ELEM) M.hr->AssembleQuadratureVector(*f1, *T, ip, iw, x, y); else if (mode != INTF) M.hr->AssembleQuadratureVector(*f1, *f2, *t1, ip, iw, x, y);
      else { Vector a, b, y1, y2; split(x, a, b); M.itf->AssembleQuadratureVector(*f1, *f2, *t1, *t2, ip, iw, a, b, y1, y2); join(y1, y2, y); }
   }
   void qgrad(Made &M, const IntegrationPoint &ip, double iw, const Vector &x, DenseMatrix &J)
   {
      bind(); if (mode == ELEM) M.hr->AssembleQuadratureGrad(*f1, *T, ip, iw, x, J); else if (mode != INTF) M.hr->AssembleQuadratureGrad(*f1, *f2, *t1, ip, iw, x, J);
      else { Vector a, b; split(x, a, b); Four e; M.itf->AssembleQuadratureGrad(*f1, *f2, *t1, *t2, ip, iw, a, b, e.m); e.get(n1, n2, J); }
   }
   struct Four
   {
      Array2D<DenseMatrix *> m; Four() : m(2, 2) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { m(i, j) = new DenseMatrix(2, 3); *m(i, j) = 7.0; } } ~Four() { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) delete m(i, j); }
      void get(int n1, int n2, DenseMatrix &J) { J.SetSize(n1 + n2); J = 0.0; int n[2] = {n1, n2}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { vc::check(m(i, j)->Height() == n[i] && m(i, j)->Width() == n[j], "size of a Jacobian block"); J.CopyMN(*m(i, j), i * n1, j * n1); } }
   };
   void split(const Vector &x, Vector &a, Vector &b) const { a.SetSize(n1); b.SetSize(n2); for (int i = 0; i < n1; i++) a(i) = x(i); for (int i = 0; i < n2; i++) b(i) = x(n1 + i); }
   void join(const Vector &a, const Vector &b, Vector &y) const { vc::check(a.Size() == n1 && b.Size() == n2, "size of a residual block"); y.SetSize(n1 + n2); for (int i = 0; i < n1; i++) y(i) = a(i); for (int i = 0; i < n2; i++) y(n1 + i) = b(i); }
};
} // namespace nlref
#endif
