// C10: linear face, boundary and domain terms assemble the stated forms; the forms are consistent.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "nlref.hpp"
#include "dg_bilinear.hpp"
#include "dg_mixed_bilin.hpp"
#include "dg_linear.hpp"
using namespace mfem; using namespace std; using vc::X; using vc::S; using namespace nlref; using topo::QUAD; using topo::TRI; using topo::HEX; using topo::TET;

// a coefficient that differs between elements: 1: constant, 2: variable, 3: variable, different in every element
static double muAt(int q, const Vector &x, int e) { return q <= 0 ? 1.0 : q == 1 ? 1.7 : q == 2 ? fq(x) : fq(x) * (1 + 0.3 * (e % 5)); }
struct MuCoef : public Coefficient { int q; MuCoef(int q_) : q(q_) {} double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { Vector x; T.Transform(ip, x); return muAt(q, x, T.ElementNo); } };
// boundary data: vector functions of position, d components (0: zero, 1: constant, 2: variable) or d*d (stress)
static void dataAt(int q, const Vector &x, Vector &v) { const int n = v.Size(), d = x.Size(); for (int i = 0; i < n; i++) { v(i) = q ? 0.7 - 0.45 * i + 0.11 * i * i : 0; if (q >= 2) v(i) += (0.3 + 0.2 * i) * x(i % d) - 0.15 * x((i + 1) % d) * (q == 3 ? x(0) : 1); } }
static VectorFunctionCoefficient dataCoef(int q, int n) { return VectorFunctionCoefficient(n, [=](const Vector &x, Vector &v) { v.SetSize(n); dataAt(q, x, v); }); }

// -<{mu grad u.n},[v]> + alpha <[u],{mu grad v.n}> + kappa <{mu/h}[u],[v]>
static Bil vecDiff(int q, double alpha, double kappa)
{
   return [=](const FP &p, int st, int i, int ci, int su, int j, int cj) {
      if (ci != cj) return 0.0; double a = p.avg(), pen = 0; for (int s = 0; s < p.ns; s++) pen += a * muAt(q, p.x, p.s[s].elem) * p.s[s].hinv;
      return -a * muAt(q, p.x, p.s[su].elem) * dot(p.s[su].dN, j, p.n) * sgn(st) * p.s[st].N(i) + alpha * a * muAt(q, p.x, p.s[st].elem) * dot(p.s[st].dN, i, p.n) * sgn(su) * p.s[su].N(j) + kappa * pen * sgn(st) * p.s[st].N(i) * sgn(su) * p.s[su].N(j);
   };
}
// linear kernels: value at one point for test dof i, component c (scalar tests use N with c = 0)
typedef function<double(const FP &, int i, int c)> Lin;
struct LTerm { string name; bool vec; int data, mu; double alpha, kappa; int form; };
static Lin kernel(const LTerm &t)
{
   return [=](const FP &p, int i, int c) { Vector v(t.form == 2 ? p.dim * p.dim : p.dim); dataAt(t.data, p.x, v); const Side &s = p.s[0]; double m = muAt(t.mu, p.x, s.elem);
      if (t.form == 0) return m * v(c) * (t.alpha * dot(s.dN, i, p.n) + t.kappa * s.hinv * s.N(i));
      if (t.form == 1) return (v * p.n) * s.N(i);
      if (t.form == 2) { double f = 0; for (int k = 0; k < p.dim; k++) f += v(c + k * p.dim) * p.n(k); return f * s.N(i); }
      if (t.form == 3) return (t.mu < 0 ? 1.0 : muAt(t.mu, p.x, 0)) * (v * p.n) * v(c) * s.N(i);
      double un = v * p.n; return (t.mu < 0 ? 1.0 : muAt(t.mu, p.x, 0)) * (0.5 * un - fabs(un)) * v(c) * s.N(i); };
}
static vector<LTerm> linearTerms()
{
   vector<LTerm> t; for (int d = 0; d < 4; d++) { for (int mu = 1; mu < 4; mu++) for (auto &ak : vector<array<double, 2>>{{-1, 4}, {1, 0}, {0, 2.5}, {-0.5, -1}}) t.push_back({"weak Dirichlet", true, d, mu, ak[0], ak[1], 0}); t.push_back({"normal flux data", false, d, -1, 0, 0, 1}); t.push_back({"normal stress data", true, d, -1, 0, 0, 2}); for (int z = -1; z < 3; z++) if (z) { t.push_back({"temam data", true, d, z, 0, 0, 3}); t.push_back({"lax-friedrichs data", true, d, z, 0, 0, 4}); } }
   return t;
}
struct LMade
{
   unique_ptr<Coefficient> mu; unique_ptr<VectorFunctionCoefficient> v; unique_ptr<LinearFormIntegrator> lf; LTerm t;
   LMade(const LTerm &t_, int d, const IntegrationRule *ir = NULL) : t(t_)
   {
      if (t.mu >= 0) mu.reset(t.form >= 3 ? (Coefficient *) new FunctionCoefficient([q = t.mu](const Vector &x) { return muAt(q, x, 0); }) : new MuCoef(t.mu)); v.reset(new VectorFunctionCoefficient(dataCoef(t.data, t.form == 2 ? d * d : d)));
      if (t.form == 0) lf.reset(new DGVectorDirichletLFIntegrator(*v, *mu, t.alpha, t.kappa)); else if (t.form == 1) lf.reset(new DGBoundaryNormalLFIntegrator(*v)); else if (t.form == 2) lf.reset(new BoundaryNormalStressLFIntegrator(*v, ir)); else if (t.form == 3) lf.reset(new DGBdrTemamLFIntegrator(*v, mu.get())); else lf.reset(new DGBdrLaxFriedrichsLFIntegrator(*v, mu.get()));
   }
};
static void noteM(const string &n, const DenseMatrix &m) { vc::Hash h; h.add(n); for (int i = 0; i < m.Height() * m.Width(); i++) h.add(m.Data()[i]); X.outcome(h.h); }
static void noteV(const string &n, const Vector &m) { vc::Hash h; h.add(n); for (int i = 0; i < m.Size(); i++) h.add(m(i)); X.outcome(h.h); }

// ---- local matrices and vectors on a site
static void refVec(Site &s, const Bil &K, const IntegrationRule &ir, DenseMatrix &R)
{
   s.bind(); const int n = s.size(), nf[2] = {s.f1->GetDof(), s.two() ? s.f2->GetDof() : 0}, off[2] = {0, s.n1}; R.SetSize(n); R = 0.0;
   for (int q = 0; q < ir.GetNPoints(); q++) { FP p = s.point(ir.IntPoint(q)); for (int st = 0; st < p.ns; st++) for (int su = 0; su < p.ns; su++) for (int ci = 0; ci < s.d; ci++) for (int cj = 0; cj < s.d; cj++) for (int i = 0; i < nf[st]; i++) for (int j = 0; j < nf[su]; j++) R(off[st] + ci * nf[st] + i, off[su] + cj * nf[su] + j) += p.ds * K(p, st, i, ci, su, j, cj); X.transitions++; }
}
static FP mixedPoint(Site &s, const IntegrationPoint &ip, const FiniteElement *g1, const FiniteElement *g2)
{
   FP p = s.point(ip); double l = ip.weight ? p.ds / ip.weight : 1; fillSide(p.s[0], *s.m1, s.e1, p.x, l, s.f1, g1); if (s.two()) fillSide(p.s[1], *s.m2, s.e2, p.x, l, s.f2, g2); s.bind(); return p;
}
static void refMixed(Site &s, const FiniteElement *g1, const FiniteElement *g2, const IntegrationRule &ir, DenseMatrix &R)
{
   s.bind(); Bil K = normalFlux(); const int nf[2] = {s.f1->GetDof(), s.two() ? s.f2->GetDof() : 0}, ng[2] = {g1->GetDof(), s.two() ? g2->GetDof() : 0}; R.SetSize(ng[0] + ng[1], s.size()); R = 0.0;
   for (int q = 0; q < ir.GetNPoints(); q++) { FP p = mixedPoint(s, ir.IntPoint(q), g1, g2); for (int st = 0; st < p.ns; st++) for (int su = 0; su < p.ns; su++) for (int cj = 0; cj < s.d; cj++) for (int i = 0; i < ng[st]; i++) for (int j = 0; j < nf[su]; j++) R((st ? ng[0] : 0) + i, (su ? s.n1 : 0) + cj * nf[su] + j) += p.ds * K(p, st, i, 0, su, j, cj); X.transitions++; }
}
static void refLin(Site &s, const LTerm &t, const IntegrationRule &ir, Vector &R)
{
   Lin K = kernel(t); s.bind(); const int n = s.f1->GetDof(), nc = t.vec ? s.d : 1; R.SetSize(n * nc); R = 0.0; for (int q = 0; q < ir.GetNPoints(); q++) { FP p = s.point(ir.IntPoint(q)); for (int c = 0; c < nc; c++) for (int i = 0; i < n; i++) R(c * n + i) += p.ds * K(p, i, c); X.transitions++; }
}
static const vector<array<double, 2>> AK = {{-1, 0}, {-1, 5.5}, {1, 2}, {0, 3.3}, {0, 0}, {-0.5, -1}};

static void siteDiffusion(Site &s, int q, double alpha, double kappa, const IntegrationRule &ir, bool setRule)
{
   MuCoef mu(q); unique_ptr<DGVectorDiffusionIntegrator> I(q < 0 ? new DGVectorDiffusionIntegrator(alpha, kappa) : new DGVectorDiffusionIntegrator(mu, alpha, kappa)); if (setRule) I->SetIntRule(&ir); DenseMatrix E(3, 2), R; E = 9.0;
   refVec(s, vecDiff(q, alpha, kappa), ir, R); s.bind(); I->AssembleFaceMatrix(*s.f1, *s.f2, *s.t1, E); string w = "vector diffusion on " + string(mname(s.mode)) + " mu " + S(q) + " alpha " + S(alpha) + " kappa " + S(kappa); nearM(E, R, w);
   if (alpha == -1) { DenseMatrix Tm(E); Tm.Transpose(); nearM(E, Tm, w + ": symmetry", 1e-12); } noteM(w, E);
}
static void siteMixed(Site &s, int q1, int q2, const IntegrationRule &ir, bool setRule)
{
   DG_FECollection c1(q1, s.d), c2(q2, s.d); s.bind(); Geometry::Type g = s.m1->GetElementBaseGeometry(s.e1); const FiniteElement *g1 = c1.FiniteElementForGeometry(g), *g2 = s.two() ? c2.FiniteElementForGeometry(g) : g1;
   DGNormalFluxIntegrator I; if (setRule) I.SetIntRule(&ir); DenseMatrix E(2, 1), R; E = 5.0; refMixed(s, g1, g2, ir, R); s.bind(); I.AssembleFaceMatrix(*s.f1, *s.f2, *g1, *g2, *s.t1, E); nearM(E, R, "normal flux on " + string(mname(s.mode)) + " orders " + S(q1) + "," + S(q2)); noteM("flux", E);
}
static void siteLinear(Site &s, const LTerm &t, const IntegrationRule &ir, bool setRule)
{
   LMade M(t, s.d, setRule && t.form == 2 ? &ir : NULL); if (setRule && t.form != 2) M.lf->SetIntRule(&ir); Vector R, y; refLin(s, t, ir, R); s.bind(); M.lf->AssembleRHSElementVect(*s.f1, *s.t1, y); string w = t.name + " " + S(t.data) + " coefficient " + S(t.mu) + " alpha " + S(t.alpha) + " kappa " + S(t.kappa); nearV(y, R, w); noteV(w, y);
   if (!t.data) vc::eq(y.Normlinf(), 0.0, w + ": zero data");
}
// values of a right-hand side are linear (quadratic) in the data
static void linearity(Site &s, int form)
{
   const int d = s.d, n = form == 2 ? d * d : d; MuCoef mu(3); Vector y[4]; for (int k = 0; k < 4; k++) {
      VectorFunctionCoefficient v(n, [=](const Vector &x, Vector &w) { w.SetSize(n); Vector a(n), b(n); dataAt(1, x, a); dataAt(3, x, b); for (int i = 0; i < n; i++) w(i) = k == 0 ? a(i) : k == 1 ? b(i) : k == 2 ? 2 * a(i) - 3 * b(i) : -a(i); });
      unique_ptr<LinearFormIntegrator> lf; if (form == 0) lf.reset(new DGVectorDirichletLFIntegrator(v, mu, -1, 3)); else if (form == 1) lf.reset(new DGBoundaryNormalLFIntegrator(v)); else if (form == 2) lf.reset(new BoundaryNormalStressLFIntegrator(v)); else lf.reset(new DGBdrTemamLFIntegrator(v, &mu));
      s.bind(); lf->AssembleRHSElementVect(*s.f1, *s.t1, y[k]); }
   if (form < 3) { Vector z(y[0]); z *= 2; z.Add(-3, y[1]); nearV(y[2], z, "linearity in the data", 1e-12); z = y[0]; z.Neg(); nearV(y[3], z, "linearity in the data", 1e-12); } else nearV(y[3], y[0], "quadratic data", 1e-12);
}

// ---- whole forms
// point of a face with a scalar space on each side as well
static FP facePoint2(Mesh &m, int f, const IntegrationPoint &ip, const FiniteElement *f1, const FiniteElement *f2, const FiniteElement *g1, const FiniteElement *g2)
{
   FP p = facePoint(m, f, ip, f1, f2); double l = m.Dimension() == 1 || !ip.weight ? 1 : p.ds / ip.weight; int e[2]; m.GetFaceElements(f, &e[0], &e[1]); for (int s = 0; s < p.ns; s++) fillSide(p.s[s], m, e[s], p.x, l, s ? f2 : f1, s ? g2 : g1); return p;
}
static map<int, int> bdrAttr(Mesh &m) { map<int, int> a; for (int b = 0; b < m.GetNBE(); b++) a[m.GetBdrElementEdgeIndex(b)] = m.GetBdrAttribute(b); return a; }
static Mesh meshOf(int k, int bend, int which = 0)
{
   Mesh b = boxOf(k, kdim(k) == 1 ? 3 : 2, kdim(k) == 3 ? 1 : 2, 1); if (kdim(k) == 1) { Mesh m(b); for (int i = 0; i < m.GetNV(); i++) m.GetVertex(i)[0] *= 1 + 0.2 * bend; return m; } Mesh m = topo::rebuild(b, {}, which ? vector<int>{0, 1, 2, 3, 1} : vector<int>{}); distort(m, bend); return m;
}
static void markerOf(Array<int> &mk, Mesh &m, int kind) { mk.SetSize(m.bdr_attributes.Max()); for (int i = 0; i < mk.Size(); i++) mk[i] = kind == 0 ? 1 : kind == 1 ? i % 2 : kind == 2 ? (i + 1) % 2 : 0; }

// polynomials of full degree p with irregular coefficients, their derivatives
struct Poly
{
   struct T { int e[3]; double c; }; vector<T> t;
   Poly(int d, int p, long seed) { for (int a = 0; a <= p; a++) for (int b = 0; b <= (d > 1 ? p - a : 0); b++) for (int c = 0; c <= (d > 2 ? p - a - b : 0); c++) t.push_back({{a, b, c}, irr(seed * 101 + a * 9 + b * 3 + c)}); }
   double at(const Vector &x, int d1 = -1, int d2 = -1) const { double r = 0; for (auto &q : t) { double v = q.c; int e[3] = {q.e[0], q.e[1], q.e[2]}; for (int dd : {d1, d2}) if (dd >= 0) { v *= e[dd]; e[dd] = max(0, e[dd] - 1); } for (int k = 0; k < x.Size(); k++) v *= pow(x(k), e[k]); r += v; } return r; }
};

void vc_main()
{
   config = InputParser(); config.dict_ = YAML::Load("{mesh: {type: submesh}, domain-decomposition: {type: interior_penalty}}");
   const bool T = X.thorough; const vector<int> kinds = {SEG1, QUAD, TRI, HEX, TET}; const vector<LTerm> lt = linearTerms();
   // ---- face matrices and boundary vectors: kinds, orders, shapes, local vertex orders, every coefficient and parameter
   for (int k : kinds) for (int mode : {FACE, BDR}) { Mesh b0 = boxOf(k, 2); const int R = topo::rotations(b0.GetElementBaseGeometry(0)).size(), cnt = Site::count(k, mode), pmax = kdim(k) == 3 && !T ? 2 : 3; const bool big = kdim(k) == 3;
      for (int p1 = 1; p1 <= pmax; p1++) for (int p2 = 1; p2 <= (mode == FACE ? pmax : 1); p2++) for (int bend = 0; bend < (k == SEG1 ? 3 : 4); bend++) for (int r1 = 0; r1 < R; r1++) for (int r2 = 0; r2 < (mode == FACE ? R : 1); r2++) {
         if (big && mode == FACE && (r1 * 5 + r2 * 3 + bend + p1) % (T ? 3 : 12)) continue; if (big && p1 * p2 > 4 && (r1 + r2) % 7) continue;
         X.run(string(kname(k)) + " " + mname(mode) + " orders " + S(p1) + "," + S(p2) + " shape " + S(bend) + " vertex orders " + S(r1) + "," + S(r2), [=]() {
            int w0 = big ? (r1 + 7 * r2 + bend) % cnt : 0, w1 = big ? w0 + 1 : cnt, c = 0;
            for (int w = w0; w < w1; w++) { Site s(k, mode, p1, p2, bend, {r1, r2}, w); const IntegrationRule &ir = s.rule(max(p1, p2) + 2); 
               for (int q = -1; q < 4; q++) for (auto &ak : AK) { if (q == 0 || (big && (c++ + r1) % 4)) continue; siteDiffusion(s, q, ak[0], ak[1], ir, true); }
               for (int q1 = 0; q1 <= p1 + 1; q1++) for (int q2 = 0; q2 <= (mode == FACE ? p2 + 1 : 0); q2++) if (!big || (q1 + q2 + r1) % 2 == 0) siteMixed(s, q1, q2, ir, true);
               if (mode == BDR) { for (auto &t : lt) if (!big || (c++ + r1) % 4 == 0) siteLinear(s, t, ir, true); for (int f = 0; f < 4; f++) linearity(s, f); } } }); } }
   // ---- higher orders, unequal orders, small and large elements
   for (int k : kinds) for (int mode : {FACE, BDR}) { const bool big = kdim(k) == 3; const int cnt = Site::count(k, mode), top = k == SEG1 ? 7 : big ? 4 : 6;
      for (int p1 = 1; p1 <= top; p1++) for (int p2 = 1; p2 <= (mode == FACE ? top : 1); p2++) for (int bend : {0, 2, 3, 4, 5}) { if (k == SEG1 && bend > 2) continue; const bool high = max(p1, p2) > (big ? 2 : 3); if (!high && bend < 4) continue; if (mode == FACE && abs(p1 - p2) > 1 && min(p1, p2) > 1) continue; if (big && !T && (p1 + p2 + bend) % (high ? 3 : 2)) continue;
         X.run(string("orders ") + kname(k) + " " + mname(mode) + " " + S(p1) + "," + S(p2) + " shape " + S(bend), [=]() {
            for (int w = 0; w < cnt; w++) { if (cnt > 2 && w % (big ? 5 : 2) != (p1 + bend) % (big ? 5 : 2)) continue; Site s(k, mode, p1, p2, bend, {w + p1, w + bend + 1}, w); const IntegrationRule &ir = s.rule(max(p1, p2) + 2); int c = p1 + p2 + bend;
               for (int q = -1; q < 4; q++) for (auto &ak : AK) { if (q == 0 || c++ % (big ? 5 : 3)) continue; siteDiffusion(s, q, ak[0], ak[1], ir, true); }
               for (int q1 = max(0, p1 - 2); q1 <= p1 + 1; q1++) for (int q2 = mode == FACE ? max(0, p2 - 1) : 0; q2 <= (mode == FACE ? p2 + 1 : 0); q2++) if (c++ % (big ? 4 : 2) == 0) siteMixed(s, q1, q2, ir, true);
               if (mode == BDR) for (auto &t : lt) if (c++ % (big ? 7 : 3) == 0) siteLinear(s, t, ir, true); } }); } }
   // ---- default quadrature: exact on affine elements for constant coefficients and data
   for (int k : kinds) for (int mode : {FACE, BDR}) for (int bend = 0; bend < 2; bend++) for (int p1 = 1; p1 <= (kdim(k) == 3 ? 2 : 4); p1++) for (int p2 = 1; p2 <= (mode == FACE ? kdim(k) == 3 ? 2 : 4 : 1); p2++) X.run(string("default quadrature ") + kname(k) + " " + mname(mode) + " shape " + S(bend) + " orders " + S(p1) + "," + S(p2), [=]() {
      int cnt = Site::count(k, mode); for (int w = 0; w < cnt; w++) { if (kdim(k) == 3 && w % 3) continue; Site s(k, mode, p1, p2, bend, {w, w + 1}, w); const int pm = mode == FACE ? max(p1, p2) : p1; const IntegrationRule &ir = s.rule(4 * pm + 2); siteDiffusion(s, -1, -1, 3, ir, false); siteDiffusion(s, 1, 0.7, 2, ir, false); for (int q1 = 0; q1 <= p1; q1++) for (int q2 = 0; q2 <= (mode == FACE ? p2 : 0); q2++) siteMixed(s, q1, q2, ir, false);
         if (mode == BDR) for (auto &t : lt) if (t.data == 1 && (t.mu == 1 || t.mu == -1)) siteLinear(s, t, ir, false); } });
   // ---- the mixed form: domain, interior face and boundary face integrators, markers, orderings, copies
   for (int k : kinds) for (int p = 1; p <= (kdim(k) == 3 ? 2 : 3); p++) for (int q = max(0, p - 1); q <= p; q++) for (int o = 0; o < 2; o++) for (int bend = 0; bend < (k == SEG1 ? 2 : 4); bend++) for (int set = 0; set < 8; set++) for (int mk1 = -1; mk1 < 5; mk1++) { if (!(set & 4) && mk1 >= 0) continue; X.run(string("mixed form ") + kname(k) + " orders " + S(p) + "," + S(q) + " ordering " + S(o) + " shape " + S(bend) + " terms " + S(set) + " boundaries " + S(mk1), [=]() {
      Mesh m = meshOf(k, bend, 1); const int d = m.Dimension(); DG_FECollection fu(p, d), fp(q, d); FiniteElementSpace U(&m, &fu, d, o), P(&m, &fp); const IntegrationRule &fr = IntRules.Get(faceGeom(k), p + q + 2);
      Array<int> a1, a2; markerOf(a1, m, mk1 == 4 ? 1 : max(0, mk1)); markerOf(a2, m, 1); MixedBilinearFormDGExtension F(&U, &P);
      if (set & 1) F.AddDomainIntegrator(new VectorDivergenceIntegrator); if (set & 2) { auto *I = new DGNormalFluxIntegrator; I->SetIntRule(&fr); F.AddInteriorFaceIntegrator(I); } if (set & 4) { auto *I = new DGNormalFluxIntegrator; I->SetIntRule(&fr); if (mk1 < 0) F.AddBdrFaceIntegrator(I); else F.AddBdrFaceIntegrator(I, a1); if (mk1 != 0) { I = new DGNormalFluxIntegrator; I->SetIntRule(&fr); if (mk1 == 4) F.AddBdrFaceIntegrator(I); else F.AddBdrFaceIntegrator(I, a2); } if (set & 2) { I = new DGNormalFluxIntegrator; I->SetIntRule(&fr); F.AddInteriorFaceIntegrator(I); } }
      const int nif = (set & 2) ? (set & 4 ? 2 : 1) : 0; DenseMatrix R(P.GetVSize(), U.GetVSize()); R = 0.0; if (set & 1) { MixedBilinearForm D(&U, &P); D.AddDomainIntegrator(new VectorDivergenceIntegrator); D.Assemble(); D.Finalize(); DenseMatrix *t = D.SpMat().ToDenseMatrix(); R += *t; delete t; }
      auto at = bdrAttr(m); Bil K = normalFlux(); for (int f = 0; f < m.GetNumFaces(); f++) { int e[2]; m.GetFaceElements(f, &e[0], &e[1]); double w = 0; if (e[1] >= 0) w = nif; else if (set & 4) { int a = at.at(f) - 1; w = (mk1 < 0 ? 1 : a1[a]) + (mk1 == 4 ? 1 : mk1 != 0 ? a2[a] : 0); } if (w == 0) continue;
         for (int g = 0; g < fr.GetNPoints(); g++) { FP pt = facePoint2(m, f, fr.IntPoint(g), U.GetFE(e[0]), e[1] < 0 ? NULL : U.GetFE(e[1]), P.GetFE(e[0]), e[1] < 0 ? NULL : P.GetFE(e[1])); for (int st = 0; st < pt.ns; st++) for (int su = 0; su < pt.ns; su++) { Array<int> vp, vu; P.GetElementVDofs(e[st], vp); U.GetElementVDofs(e[su], vu); int n = pt.s[su].N.Size(); for (int i = 0; i < vp.Size(); i++) for (int j = 0; j < vu.Size(); j++) R(vp[i], vu[j]) += w * pt.ds * K(pt, st, i, 0, su, j % n, j / n); } X.transitions++; } }
      for (int copy = 0; copy < 2; copy++) for (int skip = 0; skip < 2; skip++) { MixedBilinearFormDGExtension *G = copy ? new MixedBilinearFormDGExtension(&U, &P, &F) : &F; if (!copy && skip) continue; if (copy) { vc::eq(G->GetFBFI()->Size(), nif, "interior face integrators of a copy"); vc::eq(G->GetBFBFI()->Size(), F.GetBFBFI()->Size(), "boundary face integrators of a copy"); vc::eq(G->GetBFBFI_Marker()->Size(), F.GetBFBFI_Marker()->Size(), "markers of a copy"); } G->Assemble(skip); G->Finalize(skip); DenseMatrix *E = G->SpMat().ToDenseMatrix(); nearM(*E, R, "mixed form"); noteM("mixed", *E); delete E; if (copy) delete G; } }); }
   // ---- the diffusion form of mesh, both orderings; right-hand sides with several integrators and markers, discontinuous and continuous spaces
   for (int k : kinds) for (int p = 1; p <= (kdim(k) == 3 ? 2 : 3); p++) for (int o = 0; o < 2; o++) for (int bend = 0; bend < (k == SEG1 ? 2 : 4); bend++) for (int mk1 = 0; mk1 < 4; mk1++) X.run(string("forms ") + kname(k) + " order " + S(p) + " ordering " + S(o) + " shape " + S(bend) + " boundaries " + S(mk1), [=]() {
      Mesh m = meshOf(k, bend, 1); const int d = m.Dimension(); auto at = bdrAttr(m); Array<int> a1; markerOf(a1, m, mk1); const IntegrationRule &fr = IntRules.Get(faceGeom(k), 2 * p + 1);
      { DG_FECollection fu(p, d); FiniteElementSpace U(&m, &fu, d, o); MuCoef mu(3); BilinearForm B(&U); auto *I = new DGVectorDiffusionIntegrator(mu, -1, 4.0), *J = new DGVectorDiffusionIntegrator(mu, -1, 4.0); I->SetIntRule(&fr); J->SetIntRule(&fr); B.AddInteriorFaceIntegrator(I); B.AddBdrFaceIntegrator(J, a1); B.Assemble(0); B.Finalize(0); DenseMatrix R(U.GetVSize()); R = 0.0; Bil K = vecDiff(3, -1, 4.0);
        for (int f = 0; f < m.GetNumFaces(); f++) { int e[2]; m.GetFaceElements(f, &e[0], &e[1]); if (e[1] < 0 && !a1[at.at(f) - 1]) continue; for (int g = 0; g < fr.GetNPoints(); g++) { FP pt = facePoint(m, f, fr.IntPoint(g), U.GetFE(e[0]), e[1] < 0 ? NULL : U.GetFE(e[1])); for (int st = 0; st < pt.ns; st++) for (int su = 0; su < pt.ns; su++) { Array<int> v, w; U.GetElementVDofs(e[st], v); U.GetElementVDofs(e[su], w); int n = pt.s[st].N.Size(), n2 = pt.s[su].N.Size(); for (int i = 0; i < v.Size(); i++) for (int j = 0; j < w.Size(); j++) R(v[i], w[j]) += pt.ds * K(pt, st, i % n, i / n, su, j % n2, j / n2); } X.transitions++; } }
        DenseMatrix *E = B.SpMat().ToDenseMatrix(); nearM(*E, R, "vector diffusion form"); noteM("form", *E); delete E; }
      Array<int> a2; markerOf(a2, m, 1);
      for (int cont = 0; cont < 2; cont++) for (auto &t : lt) { if (t.data == 0 || (t.form == 0 && (t.data + t.mu) % 3)) continue; unique_ptr<FiniteElementCollection> fc(cont ? (FiniteElementCollection *) new H1_FECollection(p, d) : new DG_FECollection(p, d)); FiniteElementSpace V(&m, fc.get(), t.vec ? d : 1, o);
         // via faces, and (continuous spaces) via boundary elements, which is the same integral. A second integrator acts on other boundaries.
         for (int way = 0; way < (cont && d > 1 && t.form && t.form != 4 ? 2 : 1); way++) { LMade M(t, d), M2(t, d); M.lf->SetIntRule(&fr); M2.lf->SetIntRule(&fr); LinearForm L(&V); LinearFormIntegrator *i1 = M.lf.release(), *i2 = M2.lf.release(); if (way) { L.AddBoundaryIntegrator(i1, a1); L.AddBoundaryIntegrator(i2, a2); } else { L.AddBdrFaceIntegrator(i1, a1); L.AddBdrFaceIntegrator(i2, a2); } L.Assemble();
            Vector R(V.GetVSize()); R = 0.0; Lin K = kernel(t); for (int f = 0; f < m.GetNumFaces(); f++) { int e[2]; m.GetFaceElements(f, &e[0], &e[1]); if (e[1] >= 0) continue; double w = a1[at.at(f) - 1] + a2[at.at(f) - 1]; if (!w) continue; for (int g = 0; g < fr.GetNPoints(); g++) { FP pt = facePoint(m, f, fr.IntPoint(g), V.GetFE(e[0]), NULL); Array<int> v; V.GetElementVDofs(e[0], v); int n = pt.s[0].N.Size(); for (int i = 0; i < v.Size(); i++) R(v[i]) += w * pt.ds * K(pt, i % n, i / n); } }
            nearV(L, R, t.name + (way ? " over boundary elements" : " over boundary faces") + (cont ? ", continuous space" : "")); noteV(t.name, L); } } });
   // ---- consistency: a polynomial solution of the space satisfies the assembled systems exactly
   for (int k : kinds) for (int p = 1; p <= (kdim(k) == 3 && !T ? 2 : kdim(k) == 3 ? 3 : 4); p++) for (int deg = 0; deg <= p; deg++) for (int bend = 0; bend < 3; bend++) for (int which = 0; which < 2; which++) for (int a = 0; a < (int) AK.size(); a++) { if (kdim(k) == 3 && !T && (a + deg + bend) % 2) continue; X.run(string("consistency ") + kname(k) + " order " + S(p) + " degree " + S(deg) + " shape " + S(bend) + " numbering " + S(which) + " parameters " + S(a), [=]() {
      if (k == SEG1 && bend == 2) return; Mesh m = meshOf(k, bend, which); const int d = m.Dimension(); const double alpha = AK[a][0], kappa = AK[a][1]; DG_FECollection fu(p, d), fp(max(0, p - 1), d); FiniteElementSpace U(&m, &fu, d, which), P(&m, &fp); vector<Poly> u; for (int c = 0; c < d; c++) u.emplace_back(d, deg, 5 + c + 31 * deg);
      VectorFunctionCoefficient uc(d, [&](const Vector &x, Vector &v) { v.SetSize(d); for (int c = 0; c < d; c++) v(c) = u[c].at(x); }); FunctionCoefficient mu(fq); Vector gm(3); gm(0) = 0.5; gm(1) = -0.25; gm(2) = 0.125;
      VectorFunctionCoefficient fc(d, [&](const Vector &x, Vector &v) { v.SetSize(d); for (int c = 0; c < d; c++) { v(c) = 0; for (int q = 0; q < d; q++) v(c) -= fq(x) * u[c].at(x, q, q) + gm(q) * u[c].at(x, q); } });
      const IntegrationRule &er = IntRules.Get(m.GetElementBaseGeometry(0), 2 * p * d + 4), &fr = IntRules.Get(faceGeom(k), 2 * p * d + 3); BilinearForm A(&U); auto *D = new VectorDiffusionIntegrator(mu); auto *I = new DGVectorDiffusionIntegrator(mu, alpha, kappa), *B = new DGVectorDiffusionIntegrator(mu, alpha, kappa); D->SetIntRule(&er); I->SetIntRule(&fr); B->SetIntRule(&fr); A.AddDomainIntegrator(D); A.AddInteriorFaceIntegrator(I); A.AddBdrFaceIntegrator(B); A.Assemble(0); A.Finalize(0);
      LinearForm b(&U); auto *L1 = new VectorDomainLFIntegrator(fc); L1->SetIntRule(&er); auto *L2 = new DGVectorDirichletLFIntegrator(uc, mu, alpha, kappa); L2->SetIntRule(&fr); b.AddDomainIntegrator(L1); b.AddBdrFaceIntegrator(L2); b.Assemble(); GridFunction g(&U); g.ProjectCoefficient(uc); { GridFunction e(g); Vector v(d), w(d); ElementTransformation *Tr = m.GetElementTransformation(0); const IntegrationPoint &ip = er.IntPoint(0); Tr->SetIntPoint(&ip); g.GetVectorValue(*Tr, ip, v); uc.Eval(w, *Tr, ip); v -= w; vc::check(v.Normlinf() < 1e-9, "harness: the solution is not in the space"); }
      Vector r(U.GetVSize()); A.SpMat().Mult(g, r); nearV(r, b, "diffusion system at the exact solution", 1e-8); noteV("c", r); if (alpha == -1) { DenseMatrix *E = A.SpMat().ToDenseMatrix(), Et(*E); Et.Transpose(); nearM(*E, Et, "symmetry of the diffusion system", 1e-10); delete E; }
      // (div u, q) - <[u.n],{q}> - <u.n, q> = (div u, q) - <g.n, q>: the interior jumps of a continuous velocity vanish
      MixedBilinearFormDGExtension M(&U, &P); { auto *I2 = new DGNormalFluxIntegrator; I2->SetIntRule(&fr); M.AddInteriorFaceIntegrator(I2); } M.Assemble(); M.Finalize(); Vector j(P.GetVSize()); M.SpMat().Mult(g, j); Vector z(j.Size()); z = 0.0; nearV(j, z, "interior normal flux of a continuous velocity", 1e-8);
      MixedBilinearFormDGExtension Mb(&U, &P); { auto *I2 = new DGNormalFluxIntegrator; I2->SetIntRule(&fr); Mb.AddBdrFaceIntegrator(I2); } Mb.Assemble(); Mb.Finalize(); LinearForm lb(&P); auto *L3 = new DGBoundaryNormalLFIntegrator(uc); L3->SetIntRule(&fr); lb.AddBdrFaceIntegrator(L3); lb.Assemble(); Mb.SpMat().Mult(g, j); nearV(j, lb, "boundary normal flux", 1e-8);
      // divergence theorem, per test space containing the constants: the sum over all elements of div u is the flux through the boundary
      double div = 0; for (int e = 0; e < m.GetNE(); e++) { ElementTransformation *Tr = m.GetElementTransformation(e); for (int q = 0; q < er.GetNPoints(); q++) { const IntegrationPoint &ip = er.IntPoint(q); Tr->SetIntPoint(&ip); Vector x; Tr->Transform(ip, x); double dv = 0; for (int c = 0; c < d; c++) dv += u[c].at(x, c); div += ip.weight * Tr->Weight() * dv; } } GridFunction one(&P); ConstantCoefficient c1(1.0); one.ProjectCoefficient(c1); vc::near(one * lb, div, "total boundary flux", 1, 1e-9); }); }
   // ---- nothing remembered: every sequence of evaluations through one object gives what a new object gives
   struct Conf { int k, mode, p1, p2; }; const vector<Conf> cf = {{QUAD, FACE, 1, 2}, {QUAD, BDR, 2, 1}, {TRI, FACE, 2, 1}, {TRI, BDR, 1, 1}, {HEX, FACE, 1, 1}, {TET, FACE, 1, 2}, {HEX, BDR, 1, 1}, {SEG1, FACE, 2, 1}, {SEG1, BDR, 1, 1}, {QUAD, FACE, 3, 3}}; const int n = cf.size();
   for (int a0 = 0; a0 < n; a0++) for (int a1 = 0; a1 < n; a1++) X.run("history " + S(a0) + "," + S(a1), [=]() {
      vector<unique_ptr<Site>> st; for (auto &c : cf) st.emplace_back(new Site(c.k, c.mode, c.p1, c.p2, 2 * (c.k != SEG1), {1, 2}, 0)); MuCoef mu(3);
      for (int a2 = 0; a2 < n; a2++) { int ops[3] = {a0, a1, a2}; DGVectorDiffusionIntegrator D(mu, -1, 4.0); DGNormalFluxIntegrator N; for (int i = 0; i < 3; i++) { Site &s = *st[ops[i]]; DenseMatrix E, F; DGVectorDiffusionIntegrator D1(mu, -1, 4.0); s.bind(); D.AssembleFaceMatrix(*s.f1, *s.f2, *s.t1, E); D1.AssembleFaceMatrix(*s.f1, *s.f2, *s.t1, F); nearM(E, F, "vector diffusion after other evaluations", 1e-13); DGNormalFluxIntegrator N1; DG_FECollection c1(max(0, cf[ops[i]].p1 - 1), s.d), c2(cf[ops[i]].p2, s.d); Geometry::Type g = s.m1->GetElementBaseGeometry(s.e1); const FiniteElement *g1 = c1.FiniteElementForGeometry(g), *g2 = s.two() ? c2.FiniteElementForGeometry(g) : g1; N.AssembleFaceMatrix(*s.f1, *s.f2, *g1, *g2, *s.t1, E); N1.AssembleFaceMatrix(*s.f1, *s.f2, *g1, *g2, *s.t1, F); nearM(E, F, "normal flux after other evaluations", 1e-13); X.transitions += 2; }
         // boundary terms, per dimension
         for (int form = 0; form < 4; form++) for (int d = 1; d <= 3; d++) { LTerm t = {"", form != 1, 2, form == 1 || form == 2 ? -1 : 2, -1, 2, form}; LMade M(t, d); for (int i = 0; i < 3; i++) { Site &s = *st[ops[i]]; if (s.mode != BDR || s.d != d) continue; LMade M1(t, d); Vector y, z; s.bind(); M.lf->AssembleRHSElementVect(*s.f1, *s.t1, y); M1.lf->AssembleRHSElementVect(*s.f1, *s.t1, z); nearV(y, z, "boundary data after other evaluations", 1e-13); } } } });
}
