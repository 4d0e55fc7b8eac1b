// C07: interface terms on decomposed meshes against a geometric reference on the undivided mesh, and against the same
// form on the undivided mesh (subdomain terms + interface terms = undivided terms).
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "comp.hpp"
#include "dgref.hpp"
#include "interface_form.hpp"
#include "interfaceinteg.hpp"
#include "dg_bilinear.hpp"
#include "dg_mixed_bilin.hpp"
#include "nonlinear_integ.hpp"
using namespace mfem; using namespace std; using vc::X; using vc::S; using namespace topo; using namespace dgref;

static void setConfig() { config.dict_ = YAML::Load("{mesh: {type: submesh}, domain-decomposition: {type: interior_penalty}}"); }

// a handler whose ports can be listed in another order and from the other side
struct Handler : public SubMeshTopologyHandler
{
   Handler(Mesh *m) : SubMeshTopologyHandler(m) {}
   void relist(const vector<int> &order, int swapMask, bool reverseRecords)
   {
      Array<PortInfo> p(port_infos); Array<Array<InterfaceInfo> *> ii(interface_infos);
      for (size_t k = 0; k < order.size(); k++) { port_infos[k] = p[order[k]]; interface_infos[k] = ii[order[k]]; }
      for (size_t k = 0; k < order.size(); k++)
      {
         PortInfo &q = port_infos[k]; Array<InterfaceInfo> &r = *interface_infos[k];
         if (swapMask >> k & 1) { swap(q.Mesh1, q.Mesh2); swap(q.Attr1, q.Attr2); for (int i = 0; i < r.Size(); i++) { swap(r[i].BE1, r[i].BE2); int a = r[i].Inf1, b = r[i].Inf2; r[i].Inf1 = b / 64 * 64; r[i].Inf2 = a / 64 * 64 + b % 64; /* the orientation of a pair is its own inverse */ } }
         if (reverseRecords) for (int i = 0; i < r.Size() / 2; i++) swap(r[i], r[r.Size() - 1 - i]);
      }
   }
};

// ---- coefficients (function of position) and the terms
static double fa(const Vector &x) { return 1.3 + 0.5 * x(0) - 0.25 * x(1) + 0.125 * (x.Size() > 2 ? x(2) : 0); }
static double fb(const Vector &x) { return 0.7 - 0.2 * x(0) + 0.4 * x(1) + 0.3 * (x.Size() > 2 ? x(2) : 0); }
static double one_(const Vector &) { return 1.0; }
static double cst(const Vector &) { return 1.7; }
static void mfn(const Vector &x, DenseMatrix &M) { int d = x.Size(); M.SetSize(d); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) M(i, j) = (i == j ? 2.0 + i : 0.3 * (i + 1) - 0.2 * j) + 0.1 * x(i) * (j + 1); }

enum Term { DIFF, DIFFQ, DIFFM, VDIFF, ELAST, FLUX, TEMAM, LAXF, NTERM };
static const char *tname[] = {"diffusion", "diffusion-Q", "diffusion-matrix", "vector-diffusion", "elasticity", "normal-flux", "temam", "lax-friedrichs"};
// materials: the coefficient is multiplied by a factor of the element's attribute
static double factor(int attr) { return 0.4 + 1.3 * ((attr * 7) % 5); }
struct ByAttr : Coefficient { unique_ptr<Coefficient> c; ByAttr(Coefficient *c_) : c(c_) {} double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { return factor(T.Attribute) * c->Eval(T, ip); } };
struct MatByAttr : MatrixCoefficient { unique_ptr<MatrixCoefficient> c; MatByAttr(MatrixCoefficient *c_, int d) : MatrixCoefficient(d), c(c_) {} void Eval(DenseMatrix &M, ElementTransformation &T, const IntegrationPoint &ip) override { c->Eval(M, T, ip); M *= factor(T.Attribute); } };
struct Coefs { unique_ptr<Coefficient> a, b; unique_ptr<MatrixCoefficient> m; Fn fa_, fb_; };
// variable: 0 constant, 1 function of position, 2 function of position and of the element's attribute
static Coefs coefs(int variable, int dim)
{
   Coefs c; c.fa_ = variable ? Fn(fa) : Fn(cst); c.fb_ = variable ? Fn(fb) : Fn(one_);
   if (variable) { c.a.reset(new FunctionCoefficient(fa)); c.b.reset(new FunctionCoefficient(fb)); } else { c.a.reset(new ConstantCoefficient(1.7)); c.b.reset(new ConstantCoefficient(1.0)); }
   c.m.reset(new MatrixFunctionCoefficient(dim, mfn)); if (variable == 2) { c.a.reset(new ByAttr(c.a.release())); c.b.reset(new ByAttr(c.b.release())); c.m.reset(new MatByAttr(c.m.release(), dim)); } return c;
}
static InterfaceNonlinearFormIntegrator *make(Term t, Coefs &c, double sigma, double kappa)
{
   switch (t) {
      case DIFF: return new InterfaceDGDiffusionIntegrator(sigma, kappa);
      case DIFFQ: return new InterfaceDGDiffusionIntegrator(*c.a, sigma, kappa);
      case DIFFM: return new InterfaceDGDiffusionIntegrator(*c.m, sigma, kappa);
      case VDIFF: return new InterfaceDGVectorDiffusionIntegrator(*c.a, sigma, kappa);
      case ELAST: return new InterfaceDGElasticityIntegrator(c.a.get(), c.b.get(), sigma, kappa);
      case FLUX: return new InterfaceDGNormalFluxIntegrator();
      case TEMAM: return new InterfaceDGTemamFluxIntegrator(*c.a);
      default: return new DGLaxFriedrichsFluxIntegrator(*c.a);
   }
}
static Bil refOf(Term t, Coefs &c, double sigma, double kappa)
{
   switch (t) {
      case DIFF: return diffusion(one_, sigma, kappa);
      case DIFFQ: case VDIFF: return diffusion(c.fa_, sigma, kappa);
      case DIFFM: return diffusionMatrix(mfn, sigma, kappa);
      case ELAST: return elasticity(c.fa_, c.fb_, sigma, kappa);
      default: return normalFlux();
   }
}

struct Domain
{
   Mesh *pm; Handler *th; int d, K; Array<Mesh *> ms; TopologyData td; map<Key, pair<int, int>> elem; vector<int> psub, pel;
   Domain(Mesh *p, Handler *h) : pm(p), th(h)
   {
      d = pm->Dimension(); th->ExportInfo(ms, td); K = ms.Size();
      for (int m = 0; m < K; m++) for (int e = 0; e < ms[m]->GetNE(); e++) elem[key(elemCentre(*ms[m], e))] = {m, e};
      for (int e = 0; e < pm->GetNE(); e++) { auto q = elem.at(key(elemCentre(*pm, e))); psub.push_back(q.first); pel.push_back(q.second); }
   }
   Domain(ComponentTopologyHandler *h) : pm(NULL), th(NULL) { h->ExportInfo(ms, td); K = ms.Size(); d = td.dim; }
   // which subdomain of the pair is listed first
   bool first(int a, int b) { for (int p = 0; p < th->GetNumPorts(); p++) { auto *q = th->GetPortInfo(p); if (q->Mesh1 == a && q->Mesh2 == b) return true; if (q->Mesh1 == b && q->Mesh2 == a) return false; } vc::fail("no port between neighbours"); }
   // all quadrature points on faces between subdomains
   void points(const Array<FiniteElementSpace *> &fes, const Array<FiniteElementSpace *> *fes2, int order, const function<void(FP &)> &f, bool &elem1First)
   {
      elem1First = true;
      for (int k = 0; k < pm->GetNumFaces(); k++)
      {
         FaceElementTransformations *tr = pm->GetInteriorFaceTransformations(k); if (!tr) continue; int e[2] = {tr->Elem1No, tr->Elem2No}; if (psub[e[0]] == psub[e[1]]) continue;
         bool fst = first(psub[e[0]], psub[e[1]]); if (!fst) elem1First = false;
         const IntegrationRule &ir = IntRules.Get(tr->GetGeometryType(), order);
         for (int q = 0; q < ir.GetNPoints(); q++)
         {
            tr = pm->GetInteriorFaceTransformations(k); tr->SetAllIntPoints(&ir.IntPoint(q)); FP p; p.dim = d; p.ns = 2; p.n.SetSize(d); p.x.SetSize(d);
            CalcOrtho(tr->Jacobian(), p.n); double l = p.n.Norml2(); p.n /= l; p.ds = ir.IntPoint(q).weight * l; tr->Transform(ir.IntPoint(q), p.x); if (!fst) p.n *= -1.0;
            for (int s = 0; s < 2; s++) { int pe = e[fst ? s : 1 - s], m = psub[pe]; p.s[s].sub = m; fillSide(p.s[s], *ms[m], pel[pe], p.x, l, fes[m]->GetFE(pel[pe]), fes2 ? (*fes2)[m]->GetFE(pel[pe]) : NULL); }
            f(p);
         }
      }
   }
};

static void blocks(Array2D<SparseMatrix *> &m, const Array<FiniteElementSpace *> &te, const Array<FiniteElementSpace *> &tr) { m.SetSize(te.Size(), tr.Size()); for (int i = 0; i < te.Size(); i++) for (int j = 0; j < tr.Size(); j++) m(i, j) = new SparseMatrix(te[i]->GetVSize(), tr[j]->GetVSize()); }
static void dense(Array2D<SparseMatrix *> &m, DenseMatrix &D)
{
   int h = 0, w = 0; for (int i = 0; i < m.NumRows(); i++) h += m(i, 0)->Height(); for (int j = 0; j < m.NumCols(); j++) w += m(0, j)->Width(); D.SetSize(h, w); D = 0.0;
   for (int i = 0, r = 0; i < m.NumRows(); r += m(i, 0)->Height(), i++) for (int j = 0, c = 0; j < m.NumCols(); c += m(0, j)->Width(), j++) { SparseMatrix A(*m(i, j)); if (!A.Finalized()) A.Finalize(); DenseMatrix B; A.ToDenseMatrix(B); for (int k = 0; k < B.Height(); k++) for (int l = 0; l < B.Width(); l++) D(r + k, c + l) += B(k, l); }
}
static void free2(Array2D<SparseMatrix *> &m) { for (int i = 0; i < m.NumRows(); i++) for (int j = 0; j < m.NumCols(); j++) delete m(i, j); }

struct Spaces
{
   vector<unique_ptr<FiniteElementCollection>> fec; vector<unique_ptr<FiniteElementSpace>> own; Array<FiniteElementSpace *> f; Array<int> off;
   Spaces(Array<Mesh *> &ms, int d, const vector<int> &p, int vdim, int ord) { f.SetSize(ms.Size()); off.SetSize(ms.Size() + 1); off = 0; for (int m = 0; m < ms.Size(); m++) { fec.emplace_back(new DG_FECollection(p[m % p.size()], d)); own.emplace_back(new FiniteElementSpace(ms[m], fec.back().get(), vdim, ord)); f[m] = own.back().get(); off[m + 1] = off[m] + f[m]->GetVSize(); } }
};

// adds one quadrature point of a bilinear kernel to the matrix R (test space Q, trial space U)
static void scatter(FP &p, const Bil &B, Spaces &Q, Spaces &U, bool mixed, DenseMatrix &R)
{
   for (int st = 0; st < 2; st++) for (int su = 0; su < 2; su++)
   {
      Array<int> vt, vu; Q.f[p.s[st].sub]->GetElementVDofs(p.s[st].elem, vt); U.f[p.s[su].sub]->GetElementVDofs(p.s[su].elem, vu);
      const int nt = mixed ? p.s[st].M.Size() : p.s[st].N.Size(), nu = p.s[su].N.Size(), ct = vt.Size() / nt, cu = vu.Size() / nu;
      for (int a = 0; a < ct; a++) for (int i = 0; i < nt; i++) for (int b = 0; b < cu; b++) for (int j = 0; j < nu; j++) R(Q.off[p.s[st].sub] + vt[a * nt + i], U.off[p.s[su].sub] + vu[b * nu + j]) += p.ds * B(p, st, i, a, su, j, b);
   }
}
// linear terms, against the reference
static void linear(Domain &D, Term t, const vector<int> &ord, int ordering, int variable, double sigma, double kappa, int rule)
{
   Coefs c = coefs(variable, D.d); const bool mixed = t == FLUX; const int vd = t <= DIFFM ? 1 : D.d;
   Spaces U(D.ms, D.d, ord, vd, ordering); vector<int> po; for (int o : ord) po.push_back(max(0, o - 1)); Spaces P(D.ms, D.d, mixed ? po : vector<int>{0}, 1, ordering);
   Array<FiniteElementSpace *> &te = mixed ? P.f : U.f; DenseMatrix R((mixed ? P : U).off.Last(), U.off.Last()); R = 0.0; Bil B = refOf(t, c, sigma, kappa); bool e1;
   int pm = *max_element(ord.begin(), ord.end());
   D.points(U.f, mixed ? &P.f : NULL, rule ? rule : 2 * pm + 4, [&](FP &p) { if (variable == 2 && t != DIFF) for (int s = 0; s < 2; s++) p.s[s].scale = factor(D.ms[p.s[s].sub]->GetAttribute(p.s[s].elem)); scatter(p, B, mixed ? P : U, U, mixed, R); X.transitions++; }, e1);
   InterfaceNonlinearFormIntegrator *I = make(t, c, sigma, kappa); if (rule) I->SetIntRule(&IntRules.Get(D.d == 2 ? Geometry::SEGMENT : D.ms[0]->GetElementBaseGeometry(0) == Geometry::CUBE ? Geometry::SQUARE : Geometry::TRIANGLE, rule));
   Array2D<SparseMatrix *> m; blocks(m, te, U.f); DenseMatrix G, G2;
   if (mixed) { MixedInterfaceForm F(D.ms, U.f, P.f, D.th); F.AddInterfaceIntegrator(I); F.AssembleInterfaceMatrices(m); dense(m, G); F.AssembleInterfaceMatrices(m); dense(m, G2); }
   else { InterfaceForm F(D.ms, U.f, D.th); vc::check(F.GetBlockOffsets().Size() == U.off.Size() && F.GetBlockOffsets() == U.off, "block offsets"); F.AddInterfaceIntegrator(I); F.AssembleInterfaceMatrices(m); dense(m, G); F.AssembleInterfaceMatrices(m); dense(m, G2); }
   free2(m); nearM(G, R, string("interface matrix of ") + tname[t]); R *= 2.0; nearM(G2, R, string("interface matrix assembled twice of ") + tname[t]);
   vc::Hash h; h.add((int) t); for (int k = 0; k < G.Height() * G.Width(); k += 7) h.add(G.Data()[k]); X.outcome(h.h);
}

static void state(Vector &x, const Array<int> &off, int k)
{
   if (k == 0) x = 0.0; else if (k == 1) x = 1.0; else if (k == 2) { irregular(x, 3); } else if (k == 3) { irregular(x, 3); x.Neg(); }
   else { irregular(x, 11 + k); for (int m = 0; m + 1 < off.Size(); m++) { double f = k == 4 ? (m % 2 ? 3.0 : 0.2) : k == 5 ? (m % 2 ? 0.2 : 3.0) : k == 6 ? (m % 2 ? 0.0 : 1.0) : (m % 2 ? 1.0 : 0.0); for (int i = off[m]; i < off[m + 1]; i++) x(i) = x(i) * f + (k < 6 ? f : 0.0); } }
}
// nonlinear terms: residual and Jacobian against the reference
static void nonlinear(Domain &D, Term t, const vector<int> &ord, int ordering, bool variable, int rule, int st, bool ties)
{
   Coefs c = coefs(variable, D.d); Spaces U(D.ms, D.d, ord, D.d, ordering); Vector x(U.off.Last()), y(x.Size()), R(x.Size()); state(x, U.off, st); R = 0.0; DenseMatrix J(x.Size()); J = 0.0; bool e1;
   Flux F = t == TEMAM ? temam(c.fa_) : laxFriedrichs(c.fa_); const int d = D.d;
   D.points(U.f, NULL, rule, [&](FP &p) {
      Array<int> vd[2]; DV u[2], f[2]; for (int s = 0; s < 2; s++) { U.f[p.s[s].sub]->GetElementVDofs(p.s[s].elem, vd[s]); for (int &v : vd[s]) v += U.off[p.s[s].sub]; u[s].assign(d, Dual()); f[s].assign(d, Dual()); int n = p.s[s].N.Size(); for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) u[s][a].v += p.s[s].N(i) * x(vd[s][a * n + i]); }
      F(p, u[0], u[1], f[0], f[1]);
      for (int s = 0; s < 2; s++) { int n = p.s[s].N.Size(); for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) R(vd[s][a * n + i]) += p.ds * f[s][a].v * p.s[s].N(i); }
      for (int su = 0; su < 2; su++) for (int b = 0; b < d; b++)
      {
         u[su][b].d = 1; F(p, u[0], u[1], f[0], f[1]); u[su][b].d = 0; int nu = p.s[su].N.Size();
         for (int s = 0; s < 2; s++) { int n = p.s[s].N.Size(); for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) for (int j = 0; j < nu; j++) J(vd[s][a * n + i], vd[su][b * nu + j]) += p.ds * f[s][a].d * p.s[s].N(i) * p.s[su].N(j); }
      } X.transitions++; }, e1);
   InterfaceNonlinearFormIntegrator *I = make(t, c, 0, 0); I->SetIntRule(&IntRules.Get(D.d == 2 ? Geometry::SEGMENT : D.ms[0]->GetElementBaseGeometry(0) == Geometry::CUBE ? Geometry::SQUARE : Geometry::TRIANGLE, rule));
   InterfaceForm Fm(D.ms, U.f, D.th); Fm.AddInterfaceIntegrator(I); y = 0.0; Vector x0(x); Fm.InterfaceAddMult(x, y); nearV(y, R, string("interface residual of ") + tname[t] + " at state " + S(st)); Fm.InterfaceAddMult(x, y); R *= 2.0; nearV(y, R, "interface residual added twice");
   Array2D<SparseMatrix *> m; blocks(m, U.f, U.f); Fm.InterfaceGetGradient(x, m); DenseMatrix G; dense(m, G); if (!ties) nearM(G, J, string("interface Jacobian of ") + tname[t] + " at state " + S(st)); Fm.InterfaceGetGradient(x, m); DenseMatrix G2; dense(m, G2); J *= 2.0; if (!ties) nearM(G2, J, "interface Jacobian added twice"); free2(m);
   x0 -= x; vc::eq(x0.Normlinf(), 0.0, "the state was changed"); y = 0.0; Fm.InterfaceAddMult(x, y); R *= 0.5; nearV(y, R, "residual after the Jacobian");
   vc::Hash h; h.add((int) t); for (int k = 0; k < y.Size(); k++) h.add(y(k)); X.outcome(h.h);
}

// subdomain terms + interface terms = undivided terms, everything with its default quadrature
static void monolithic(Domain &D, Term t, int ord, int ordering, double sigma, double kappa, bool jump = false)
{
   const bool mixed = t == FLUX, nl = t >= TEMAM; const int vd = t <= DIFFM ? 1 : D.d; Coefs c = coefs(nl ? 0 : jump ? 2 : 1, D.d); Spaces U(D.ms, D.d, {ord}, vd, ordering), P(D.ms, D.d, {max(0, ord - 1)}, 1, ordering);
   DG_FECollection ufec(ord, D.d), pfec(max(0, ord - 1), D.d); FiniteElementSpace gu(D.pm, &ufec, vd, ordering), gp(D.pm, &pfec, 1, ordering);
   // renumbering, by the positions of the nodes of the basis
   auto renumber = [&](Spaces &s, FiniteElementSpace &g, vector<int> &map_) {
      map_.assign(s.off.Last(), -1);
      for (int e = 0; e < D.pm->GetNE(); e++)
      {
         int m = D.psub[e], se = D.pel[e]; Array<int> vs, vg; s.f[m]->GetElementVDofs(se, vs); g.GetElementVDofs(e, vg); vector<Key> kg; const IntegrationRule &ng = g.GetFE(e)->GetNodes(), &ns = s.f[m]->GetFE(se)->GetNodes(); const int n = ng.GetNPoints(), nc = vg.Size() / n;
         for (int i = 0; i < n; i++) { Vector x; D.pm->GetElementTransformation(e)->Transform(ng.IntPoint(i), x); kg.push_back(key(toP(x))); }
         for (int i = 0; i < n; i++) { Vector x; D.ms[m]->GetElementTransformation(se)->Transform(ns.IntPoint(i), x); Key k = key(toP(x)); int j = 0; while (j < n && (kg[j] < k || k < kg[j])) j++; vc::check(j < n, "harness: no such node"); for (int a = 0; a < nc; a++) map_[s.off[m] + vs[a * n + i]] = vg[a * n + j]; }
      } };
   vector<int> mu, mp; renumber(U, gu, mu); if (mixed) renumber(P, gp, mp); else mp = mu;
   auto bil = [&](FiniteElementSpace *u, FiniteElementSpace *p, DenseMatrix &A) {
      if (mixed) { MixedBilinearFormDGExtension b(u, p); b.AddInteriorFaceIntegrator(new DGNormalFluxIntegrator); b.Assemble(); b.Finalize(); b.SpMat().ToDenseMatrix(A); return; }
      BilinearForm b(u);
      if (t == DIFF) { ConstantCoefficient o(1.0); b.AddInteriorFaceIntegrator(new DGDiffusionIntegrator(o, sigma, kappa)); b.Assemble(); }
      else { b.AddInteriorFaceIntegrator(t == DIFFQ ? (BilinearFormIntegrator *) new DGDiffusionIntegrator(*c.a, sigma, kappa) : t == DIFFM ? new DGDiffusionIntegrator(*c.m, sigma, kappa) : t == VDIFF ? (BilinearFormIntegrator *) new DGVectorDiffusionIntegrator(*c.a, sigma, kappa) : new DGElasticityIntegrator(*c.a, *c.b, sigma, kappa)); b.Assemble(); }
      b.Finalize(); b.SpMat().ToDenseMatrix(A); };
   auto integ = [&]() -> NonlinearFormIntegrator * { if (t == TEMAM) return new DGTemamFluxIntegrator(*c.a); return new DGLaxFriedrichsFluxIntegrator(*c.a); };
   if (!nl)
   {
      DenseMatrix A; bil(&gu, &gp, A); Array2D<SparseMatrix *> m; blocks(m, mixed ? P.f : U.f, U.f);
      if (mixed) { MixedInterfaceForm F(D.ms, U.f, P.f, D.th); F.AddInterfaceIntegrator(make(t, c, sigma, kappa)); F.AssembleInterfaceMatrices(m); } else { InterfaceForm F(D.ms, U.f, D.th); F.AddInterfaceIntegrator(make(t, c, sigma, kappa)); F.AssembleInterfaceMatrices(m); }
      DenseMatrix G; dense(m, G); free2(m); Spaces &Q = mixed ? P : U;
      for (int k = 0; k < D.K; k++) { DenseMatrix B; bil(U.f[k], P.f[k], B); for (int i = 0; i < B.Height(); i++) for (int j = 0; j < B.Width(); j++) G(Q.off[k] + i, U.off[k] + j) += B(i, j); }
      DenseMatrix W(G.Height(), G.Width()); for (int i = 0; i < W.Height(); i++) for (int j = 0; j < W.Width(); j++) W(i, j) = A(mp[i], mu[j]);
      nearM(G, W, string("decomposed ") + tname[t] + " against undivided");
   }
   else
   {
      if (t == TEMAM) { bool e1; D.points(U.f, NULL, 1, [](FP &) {}, e1); if (!e1) return; }
      Vector x(U.off.Last()), xg(x.Size()), y(x.Size()), yg(x.Size()); irregular(x, 5); for (int i = 0; i < x.Size(); i++) xg(mu[i]) = x(i);
      NonlinearForm N(&gu); N.AddInteriorFaceIntegrator(integ()); N.Mult(xg, yg); DenseMatrix A; dynamic_cast<SparseMatrix &>(N.GetGradient(xg)).ToDenseMatrix(A);
      InterfaceForm F(D.ms, U.f, D.th); F.AddInterfaceIntegrator(make(t, c, 0, 0)); y = 0.0; F.InterfaceAddMult(x, y); Array2D<SparseMatrix *> m; blocks(m, U.f, U.f); F.InterfaceGetGradient(x, m); DenseMatrix G; dense(m, G); free2(m);
      for (int k = 0; k < D.K; k++) { NonlinearForm Nk(U.f[k]); Nk.AddInteriorFaceIntegrator(integ()); Vector xk(x.GetData() + U.off[k], U.f[k]->GetVSize()), yk(xk.Size()); Nk.Mult(xk, yk); DenseMatrix B; dynamic_cast<SparseMatrix &>(Nk.GetGradient(xk)).ToDenseMatrix(B); for (int i = 0; i < yk.Size(); i++) { y(U.off[k] + i) += yk(i); for (int j = 0; j < yk.Size(); j++) G(U.off[k] + i, U.off[k] + j) += B(i, j); } }
      Vector w(x.Size()); DenseMatrix W(x.Size()); for (int i = 0; i < w.Size(); i++) { w(i) = yg(mu[i]); for (int j = 0; j < w.Size(); j++) W(i, j) = A(mu[i], mu[j]); }
      nearV(y, w, string("decomposed residual of ") + tname[t]); nearM(G, W, string("decomposed Jacobian of ") + tname[t]);
   }
}

// components: the interface form of the global configuration and the matrices of the reference ports
static void component(const Setup &s, Term t, const vector<int> &ord, int ordering, double sigma, double kappa, bool rule = false)
{
   ComponentTopologyHandler th; Domain D(&th); Coefs c = coefs(false, D.d); const bool mixed = t == FLUX; const int vd = t <= DIFFM ? 1 : D.d;
   DenseMatrix cm; { Vector o(D.d); o = 0.0; mfn(o, cm); } MatrixConstantCoefficient cmc(cm); MFn cmf = [&](const Vector &, DenseMatrix &M) { M = cm; };
   vector<int> om; for (auto &pl : s.places) om.push_back(ord[pl.comp % ord.size()]); vector<int> po; for (int o : om) po.push_back(max(0, o - 1)); Spaces U(D.ms, D.d, om, vd, ordering), P(D.ms, D.d, po, 1, ordering); Spaces &Q = mixed ? P : U;
   Array<Mesh *> cms(th.GetNumComponents()); for (int k = 0; k < cms.Size(); k++) cms[k] = th.GetComponentMesh(k); vector<int> oc, pc; for (int k = 0; k < cms.Size(); k++) { oc.push_back(ord[k % ord.size()]); pc.push_back(max(0, oc.back() - 1)); } Spaces CU(cms, D.d, oc, vd, ordering), CP(cms, D.d, pc, 1, ordering); Spaces &CQ = mixed ? CP : CU;
   auto mk = [&]() { InterfaceNonlinearFormIntegrator *I = t == DIFFM ? new InterfaceDGDiffusionIntegrator(cmc, sigma, kappa) : make(t, c, sigma, kappa); if (rule) I->SetIntRule(&IntRules.Get(D.ms[0]->GetBdrElementBaseGeometry(0), 2 * *max_element(ord.begin(), ord.end()) + 4)); return I; };
   Bil B = t == DIFFM ? diffusionMatrix(cmf, sigma, kappa) : refOf(t, c, sigma, kappa); DenseMatrix R(Q.off.Last(), U.off.Last()); R = 0.0; int pmax = *max_element(ord.begin(), ord.end());
   for (size_t k = 0; k < s.ports.size(); k++)
   {
      const Port &pt = s.ports[k]; Mesh *m1 = D.ms[pt.m1], *m2 = D.ms[pt.m2]; const int attr = th.GetPortInfo(k)->PortAttr; map<Key, int> at2;
      for (int b = 0; b < m2->GetNBE(); b++) if (m2->GetBdrAttribute(b) == attr) { P3 x = bdrCentre(*m2, b); for (int q = 0; q < 3; q++) x[q] += pt.shift[q]; at2[key(x)] = b; }
      for (int b = 0; b < m1->GetNBE(); b++)
      {
         if (m1->GetBdrAttribute(b) != attr) continue; auto it = at2.find(key(bdrCentre(*m1, b))); vc::check(it != at2.end(), "no opposite face"); int e1, e2, inf; m1->GetBdrElementAdjacentElement(b, e1, inf); m2->GetBdrElementAdjacentElement(it->second, e2, inf); P3 ec = elemCentre(*m1, e1);
         ElementTransformation *T = m1->GetBdrElementTransformation(b); const IntegrationRule &ir = IntRules.Get(m1->GetBdrElementBaseGeometry(b), 2 * pmax + 4);
         for (int q = 0; q < ir.GetNPoints(); q++)
         {
            T = m1->GetBdrElementTransformation(b); T->SetIntPoint(&ir.IntPoint(q)); FP p; p.dim = D.d; p.ns = 2; p.n.SetSize(D.d); p.x.SetSize(D.d); CalcOrtho(T->Jacobian(), p.n); double l = p.n.Norml2(); p.n /= l; p.ds = ir.IntPoint(q).weight * l; T->Transform(ir.IntPoint(q), p.x);
            double side = 0; for (int a = 0; a < D.d; a++) side += p.n(a) * (p.x(a) - ec[a]); if (side < 0) p.n *= -1.0; Vector x2(p.x); for (int a = 0; a < D.d; a++) x2(a) -= pt.shift[a];
            p.s[0].sub = pt.m1; p.s[1].sub = pt.m2; fillSide(p.s[0], *m1, e1, p.x, l, U.f[pt.m1]->GetFE(e1), mixed ? P.f[pt.m1]->GetFE(e1) : NULL); fillSide(p.s[1], *m2, e2, x2, l, U.f[pt.m2]->GetFE(e2), mixed ? P.f[pt.m2]->GetFE(e2) : NULL);
            scatter(p, B, Q, U, mixed, R); X.transitions++;
         }
      }
   }
   Array2D<SparseMatrix *> m, mp; blocks(m, Q.f, U.f); DenseMatrix G, W(R.Height(), R.Width()); W = 0.0; mp.SetSize(0, 0);
   auto addPort = [&](int k) { const Port &pt = s.ports[k]; int w[2] = {pt.m1, pt.m2}; vc::check(mp.NumRows() == 2 && mp.NumCols() == 2, "port matrix blocks"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { DenseMatrix E; vc::check(mp(i, j)->Finalized(), "port matrix is not finalized"); mp(i, j)->ToDenseMatrix(E); vc::check(E.Height() == Q.f[w[i]]->GetVSize() && E.Width() == U.f[w[j]]->GetVSize(), "size of a port matrix"); for (int a = 0; a < E.Height(); a++) for (int b = 0; b < E.Width(); b++) W(Q.off[w[i]] + a, U.off[w[j]] + b) += E(a, b); } };
   if (mixed) { MixedInterfaceForm F(D.ms, U.f, P.f, &th); F.AddInterfaceIntegrator(mk()); F.AssembleInterfaceMatrices(m); for (size_t k = 0; k < s.ports.size(); k++) { F.AssembleInterfaceMatrixAtPort(th.GetPortType(k), CU.f, CP.f, mp); addPort(k); } }
   else { InterfaceForm F(D.ms, U.f, &th); F.AddInterfaceIntegrator(mk()); F.AssembleInterfaceMatrices(m); for (size_t k = 0; k < s.ports.size(); k++) { F.AssembleInterfaceMatrixAtPort(th.GetPortType(k), CU.f, mp); addPort(k); } }
   dense(m, G); free2(m); free2(mp); nearM(G, R, string("interface matrix of ") + tname[t] + " between components"); nearM(W, R, string("reference port matrices of ") + tname[t]);
}
static void components(const Setup &s, const function<void()> &f)
{
   dir = vc::tmpfile("d"); mkdir(dir.c_str(), 0700); auto clean = [&]() { string c = "rm -rf ./" + dir; int r = system(c.c_str()); (void) r; setConfig(); };
   try { writeGlobal(s, dir + "/global.h5", dir + "/bdr.h5"); config.dict_ = yaml(s, false, false); f(); } catch (...) { clean(); throw; } clean();
}

void vc_main()
{
   config = InputParser(); setConfig();
   const bool T = X.thorough;
   struct Par { double s, k; }; const vector<Par> pars = {{-1, 10}, {1, 0}, {0, 3}, {-1, 0}, {0.5, 7}};
   // every relative orientation of two neighbours
   for (Kind k : {QUAD, TRI, HEX, TET}) for (int dir = 0; dir < (T ? dimOf(k) : 1); dir++)
   {
      auto G = k == QUAD ? Geometry::SQUARE : k == TRI ? Geometry::TRIANGLE : k == HEX ? Geometry::CUBE : Geometry::TETRAHEDRON; const int R = rotations(G).size();
      for (int r1 = 0; r1 < R; r1++) for (int r2 = 0; r2 < R; r2++) for (int sw = 0; sw < 2; sw++) for (int dis = 0; dis < 4; dis++)
      {
         const int code = (r1 * R + r2) * 8 + sw * 4 + dis; const bool big = k >= HEX; if (dis == 0 && big) continue; if (big && !T && (r1 + 2 * r2 + sw) % (k == HEX ? 4 : 2) != dis % 2) continue;
         X.run(string("neighbours ") + name(k) + " dir " + S(dir) + " turns " + S(r1) + "," + S(r2) + (sw ? " swapped" : "") + " shape " + S(dis), [=]() {
            int n[3] = {1, 1, 1}; n[dir] = 2; Mesh b = box(k, n[0], n[1], n[2]); int ne = b.GetNE(); vector<int> at(ne), rot(ne); for (int e = 0; e < ne; e++) { P3 c = elemCentre(b, e); bool hi = c[dir] > 1; at[e] = hi != (bool) sw ? 2 : 1; rot[e] = hi ? r2 : r1; }
            Mesh m = rebuild(b, at, rot); distort(m, dis); Handler th(&m); Domain D(&m, &th); const int p = big ? 1 + (code % 7 == 0 && T) : 1 + code % 3;
            for (int t = 0; t < FLUX; t++) { const Par &q = pars[(code + t) % pars.size()]; if (big && t != (code / 2) % 5 && t != (code / 2 + 2) % 5 && !T) continue; linear(D, (Term) t, {p}, (code + t) % 2, true, q.s, q.k, 2 * p + 2); if (dis < 2 && !big) linear(D, (Term) t, {p}, t % 2, false, q.s, q.k, t == DIFFM ? 2 * p + 2 : 0); }
            linear(D, FLUX, {p}, code % 2, true, 0, 0, 2 * p + 1);
            for (int st = 0; st < 8; st++) { if (big && st % 3 != code % 3) continue; nonlinear(D, TEMAM, {p}, st % 2, true, 3 * p, st, false); nonlinear(D, LAXF, {p}, (st + 1) % 2, true, 3 * p, st, false); }
            if (dis < 2 || k == TRI) for (int t = 0; t < NTERM; t++) if (!big || t == code % NTERM) monolithic(D, (Term) t, p, (t + code) % 2, pars[code % 5].s, pars[code % 5].k); });
      }
   }

   // several subdomains: all attribute assignments of a 2x2 block, all orders and directions of the ports, orders of the records, different orders per subdomain
   for (Kind k : {QUAD, TRI}) for (int K = 2; K <= 4; K++) vc::product(vector<int>(4, K), [&](const vector<int> &tv) {
      set<int> u(tv.begin(), tv.end()); if ((int) u.size() != K) return; vector<int> at4(tv); for (int &x : at4) x++;
      for (int var = 0; var < (T ? 16 : 4); var++) X.run(string("blocks ") + name(k) + " " + vc::str(at4) + " listing " + S(var), [=]() {
         Mesh b = box(k, 2, 2); int ne = b.GetNE(); vector<int> at(ne), rot(ne), order(ne); for (int e = 0; e < ne; e++) { P3 c = elemCentre(b, e); at[e] = at4[(c[0] > 1) + 2 * (c[1] > 1)]; rot[e] = (e * 5 + var) % 4; order[e] = var % 2 ? ne - 1 - e : e; }
         Mesh m = rebuild(b, at, rot, order); distort(m, var % 4); Handler th(&m); int np = th.GetNumPorts(); vector<int> po(np); for (int i = 0; i < np; i++) po[i] = i; for (int i = 0; i < var; i++) next_permutation(po.begin(), po.end()); th.relist(po, (var * 5 + 3) % (1 << np), var % 3 == 1);
         Domain D(&m, &th); vector<int> mixedOrd = {1 + var % 2, 2, 1 + (var + 1) % 3, 1}; int r = 2 * 3 + 2;
         for (int t = 0; t < FLUX; t++) { const Par &q = pars[(var + t) % 5]; linear(D, (Term) t, var % 2 ? mixedOrd : vector<int>{1 + t % 2}, (var + t) % 2, 1 + (var + t / 2) % 2, q.s, q.k, r); if (var % 4 < 2) monolithic(D, (Term) t, 1 + t % 2, t % 2, q.s, q.k, (var + t) % 2); }
         linear(D, FLUX, var % 2 ? mixedOrd : vector<int>{2}, var % 2, true, 0, 0, r); if (var % 4 < 2) monolithic(D, FLUX, 2, var % 2, 0, 0);
         for (int st = 2; st < 8; st++) { if ((st + var) % 2) continue; nonlinear(D, TEMAM, var % 2 ? mixedOrd : vector<int>{1}, st % 2, true, r, st, false); nonlinear(D, LAXF, var % 2 ? mixedOrd : vector<int>{2}, st % 2, true, r, st, false); } if (var % 4 < 2) { monolithic(D, TEMAM, 1, 0, 0, 0); monolithic(D, LAXF, 1, 1, 0, 0); } }); });
   // all orders and directions of the four ports of a 2x2 block of single elements
   { vector<int> perm = {0, 1, 2, 3}; do for (int sw = 0; sw < 16; sw++) { vector<int> pm_ = perm; X.run("ports order " + vc::str(perm) + " direction " + S(sw), [=]() { Mesh b = box(QUAD, 2, 2); Mesh m = rebuild(b, {1, 2, 3, 4}, {0, 1, 2, 3}); distort(m, 2 + sw % 2); Handler th(&m); vc::eq(th.GetNumPorts(), 4, "ports"); th.relist(pm_, sw, false); Domain D(&m, &th); int c = sw + pm_[0] * 3 + pm_[1]; linear(D, (Term) (c % 5), {1 + c % 2}, c % 2, true, pars[c % 5].s, pars[c % 5].k, 6); linear(D, FLUX, {1, 2}, c % 2, true, 0, 0, 6); nonlinear(D, LAXF, {1, 2}, 0, true, 6, 2 + c % 6, false); nonlinear(D, TEMAM, {2}, 1, true, 6, 2 + c % 6, false); }); } while (next_permutation(perm.begin(), perm.end())); }
   // higher orders, unequal orders, small and large elements
   for (Kind k : {QUAD, TRI, HEX, TET}) { const bool big = k >= HEX; const int top = big ? 3 : 5; for (int p1 = 1; p1 <= top; p1++) for (int p2 = 1; p2 <= top; p2++) for (int dis : {0, 2, 3, 4, 5}) { const bool high = max(p1, p2) > (big ? 2 : 3); if (!high && dis < 4) continue; if (big && !T && (p1 + p2 + dis) % 3) continue;
      X.run(string("orders ") + name(k) + " " + S(p1) + "," + S(p2) + " shape " + S(dis), [=]() {
         Mesh b = box(k, 2, 1, 1); vector<int> at, rot; for (int e = 0; e < b.GetNE(); e++) { at.push_back((elemCentre(b, e)[0] > 1) != (p1 % 2 == 0) ? 2 : 1); rot.push_back(e * 3 + p1 + dis); } Mesh m = rebuild(b, at, rot); distort(m, dis); Handler th(&m); Domain D(&m, &th); const int r = max(p1, p2) + 2, c = p1 + 2 * p2 + dis;
         for (int t = 0; t < FLUX; t++) { if (big && (t + c) % 3) continue; const Par &q = pars[(c + t) % 5]; linear(D, (Term) t, {p1, p2}, (c + t) % 2, 1 + (p1 + t) % 2, q.s, q.k, r); }
         linear(D, FLUX, {p1, p2}, c % 2, true, 0, 0, r); for (int st = 2; st < 8; st++) { if ((st + c) % (big ? 3 : 2)) continue; nonlinear(D, TEMAM, {p1, p2}, st % 2, true, r + 1, st, false); nonlinear(D, LAXF, {p1, p2}, (st + 1) % 2, true, r + 1, st, false); } }); } }
   // larger domains: many elements along the interface, many subdomains
   for (Kind k : {QUAD, TRI}) for (int n = 3; n <= (T ? 8 : 6); n++) for (int lay = 0; lay < 4; lay++) X.run(string("larger ") + name(k) + " " + S(n) + " layout " + S(lay), [=]() {
         Mesh b = box(k, n, n - 1); int ne = b.GetNE(); vector<int> at(ne), rot(ne), order(ne); map<int, int> num; for (int e = 0; e < ne; e++) { P3 c = elemCentre(b, e); int i = (int) c[0], j = (int) c[1]; int id = lay == 0 ? (i < n / 2 ? 0 : 1) : lay == 1 ? i : lay == 2 ? (i / 2) * 10 + j / 2 : (i + j) % 3 == 0 ? 0 : 1 + (i > n / 2); at[e] = id; num[id]; rot[e] = (e * 5 + n) % 4; order[e] = (e * 7 + 3) % ne; }
         int q0 = 0; for (auto &x : num) x.second = ++q0; for (int &a : at) a = num[a]; set<int> oo(order.begin(), order.end()); if ((int) oo.size() != ne) order.clear();
         Mesh m = order.empty() ? rebuild(b, at, rot) : rebuild(b, at, rot, order); distort(m, lay % 3); Handler th(&m); Domain D(&m, &th); const int c = n + lay;
         for (int t = 0; t < FLUX; t++) { if ((t + c) % 2) continue; const Par &q = pars[(c + t) % 5]; linear(D, (Term) t, {1 + c % 2}, c % 2, 1 + (t / 2) % 2, q.s, q.k, 5); } linear(D, FLUX, {1, 2}, c % 2, true, 0, 0, 5); for (int st = 2; st < 8; st++) { if ((st + c) % 3) continue; nonlinear(D, TEMAM, {1}, st % 2, true, 4, st, false); nonlinear(D, LAXF, {1, 2}, (st + 1) % 2, true, 5, st, false); } });
   // several terms in one form add up; all penalties and symmetries
   for (int t = 0; t < FLUX; t++) for (double s : {-1.0, 0.0, 0.5, 1.0}) for (double kp : {0.0, 1.0, 25.0, -2.0}) for (int p = 1; p <= (T ? 4 : 3); p++) X.run(string("parameters ") + tname[t] + " " + S(s) + " " + S(kp) + " order " + S(p), [=]() { Mesh b = box(QUAD, 2, 1); Mesh m = rebuild(b, {2, 1}, {1, 2}); distort(m, 2); Handler th(&m); Domain D(&m, &th); linear(D, (Term) t, {p}, 0, 1 + (p + (kp > 0)) % 2, s, kp, 2 * p + 2); distort(m, 0); linear(D, (Term) t, {p, p + 1}, 1, false, s, kp, 2 * p + 2); });
   for (int a = 0; a < 5; a++) for (int b2 = 0; b2 < 5; b2++) X.run(string("sum ") + tname[a] + "+" + tname[b2], [=]() {
      if ((a <= DIFFM) != (b2 <= DIFFM)) return; Mesh b = box(TRI, 2, 1); vector<int> at; for (int e = 0; e < 4; e++) at.push_back(elemCentre(b, e)[0] > 1 ? 1 : 2); Mesh m = rebuild(b, at, {1, 2, 0}); Handler th(&m); Domain D(&m, &th); Coefs c = coefs(true, 2); Spaces U(D.ms, 2, {2}, a <= DIFFM ? 1 : 2, 1);
      auto get = [&](vector<int> ts, DenseMatrix &G) { InterfaceForm F(D.ms, U.f, &th); for (int t : ts) F.AddInterfaceIntegrator(make((Term) t, c, -1 + t, 5 * (t % 2))); vc::eq(F.GetIntefaceIntegrators().Size(), (int) ts.size(), "number of terms"); Array2D<SparseMatrix *> mm; blocks(mm, U.f, U.f); F.AssembleInterfaceMatrices(mm); dense(mm, G); free2(mm); };
      DenseMatrix A, B, C; get({a}, A); get({b2}, B); get({a, b2}, C); A += B; nearM(C, A, "two terms in one form"); });
   // any number of terms
   for (int len = 3; len <= 5; len++) for (int code = 0; code < (len == 3 ? 6 : 9); code++) X.run("sum of " + S(len) + " terms " + S(code), [=]() {
      Mesh b = box(TRI, 2, 1); vector<int> at; for (int e = 0; e < 4; e++) at.push_back(elemCentre(b, e)[0] > 1 ? 1 : 2); Mesh m = rebuild(b, at, {1, 2, 0}); Handler th(&m); Domain D(&m, &th); Coefs c = coefs(2, 2); const bool vec = code % 2; Spaces U(D.ms, 2, {2}, vec ? 2 : 1, 1), P(D.ms, 2, {1}, 1, 1); vector<pair<int, double>> ts; for (int k = 0; k < len; k++) ts.push_back({vec ? VDIFF + (k + code) % 2 : (k * 2 + code) % 3, 0.5 + k});
      auto get = [&](const vector<pair<int, double>> &q, DenseMatrix &G) { InterfaceForm F(D.ms, U.f, &th); for (auto &t : q) F.AddInterfaceIntegrator(make((Term) t.first, c, -t.second, t.second)); Array2D<SparseMatrix *> mm; blocks(mm, U.f, U.f); F.AssembleInterfaceMatrices(mm); dense(mm, G); free2(mm); };
      DenseMatrix A, B, C; get(ts, C); A.SetSize(C.Height(), C.Width()); A = 0.0; for (auto &t : ts) { get({t}, B); A += B; } nearM(C, A, "several terms in one form");
      if (!vec) return; // nonlinear and mixed terms
      Vector x(U.off.Last()); irregular(x, 3 + code); auto nl = [&](const vector<int> &q, Vector &y, DenseMatrix &G) { InterfaceForm F(D.ms, U.f, &th); for (int t : q) F.AddInterfaceIntegrator(make((Term) t, c, 0, 0)); y.SetSize(x.Size()); y = 0.0; F.InterfaceAddMult(x, y); Array2D<SparseMatrix *> mm; blocks(mm, U.f, U.f); F.InterfaceGetGradient(x, mm); dense(mm, G); free2(mm); };
      vector<int> q; for (int k = 0; k < len; k++) q.push_back((code >> k & 1) ? TEMAM : LAXF); Vector y, z, w(x.Size()); w = 0.0; nl(q, y, C); A.SetSize(C.Height()); A = 0.0; for (int t : q) { nl({t}, z, B); w += z; A += B; } nearV(y, w, "several nonlinear terms in one form"); nearM(C, A, "Jacobian of several nonlinear terms");
      auto mx = [&](int n, DenseMatrix &G) { MixedInterfaceForm F(D.ms, U.f, P.f, &th); for (int k = 0; k < n; k++) F.AddInterfaceIntegrator(make(FLUX, c, 0, 0)); Array2D<SparseMatrix *> mm; blocks(mm, P.f, U.f); F.AssembleInterfaceMatrices(mm); dense(mm, G); free2(mm); }; mx(len, C); mx(1, A); A *= len; nearM(C, A, "several mixed terms in one form"); });
   // nothing remembered: an integrator used on one pair of elements gives the same as a new one on the next
   struct Conf { Kind k; int p1, p2; }; const vector<Conf> cf = {{QUAD, 1, 1}, {QUAD, 2, 1}, {QUAD, 1, 3}, {TRI, 1, 1}, {TRI, 2, 2}, {HEX, 1, 1}, {TET, 1, 1}, {TET, 2, 1}};
   for (int t = 0; t < NTERM; t++) for (size_t i = 0; i < cf.size(); i++) for (size_t j = 0; j < cf.size(); j++) for (int kz = 0; kz < 2; kz++) X.run(string("history ") + tname[t] + " " + S(i) + " then " + S(j) + (kz ? " penalty" : ""), [=]() {
      double kap = kz ? 4.0 : 0.0; bool lin = t < FLUX, mixed = t == FLUX; if (!lin && kz) return; Array2D<DenseMatrix *> used(2, 2), fresh(2, 2); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { used(a, b) = new DenseMatrix; fresh(a, b) = new DenseMatrix; } Vector y1, y2, z1, z2; Coefs c2 = coefs(true, 2), c3 = coefs(true, 3); Vector cv(3); cv = 1.0; DenseMatrix CM(1);
      // the coefficient may only be asked for its own dimension, so the matrix term stays in one dimension
      if (t == DIFFM && dimOf(cf[i].k) != dimOf(cf[j].k)) { for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { delete used(a, b); delete fresh(a, b); } return; }
      unique_ptr<InterfaceNonlinearFormIntegrator> I(make((Term) t, dimOf(cf[j].k) == 2 ? c2 : c3, -0.5, kap));
      auto call = [&](const Conf &q, InterfaceNonlinearFormIntegrator &in, Array2D<DenseMatrix *> &e, Vector &v1, Vector &v2, int seed) {
         Mesh b = box(q.k, 2, 1, 1); vector<int> at; for (int k = 0; k < b.GetNE(); k++) at.push_back(elemCentre(b, k)[0] > 1 ? 2 : 1); Mesh m = rebuild(b, at); distort(m, 1); Handler th(&m); Domain D(&m, &th); Spaces U(D.ms, D.d, {q.p1, q.p2}, 1, 0), P(D.ms, D.d, {max(0, q.p1 - 1), max(0, q.p2 - 1)}, 1, 0); InterfaceInfo &f = (*th.GetInterfaceInfos(0))[0]; FaceElementTransformations *t1, *t2; th.GetInterfaceTransformations(D.ms[0], D.ms[1], &f, t1, t2); const FiniteElement *f1 = U.f[0]->GetFE(t1->Elem1No), *f2 = U.f[1]->GetFE(t2->Elem1No);
         if (lin) in.AssembleInterfaceMatrix(*f1, *f2, *t1, *t2, e); else if (mixed) in.AssembleInterfaceMatrix(*f1, *f2, *P.f[0]->GetFE(t1->Elem1No), *P.f[1]->GetFE(t2->Elem1No), *t1, *t2, e);
         else { Vector x1(f1->GetDof() * D.d), x2(f2->GetDof() * D.d); irregular(x1, seed); irregular(x2, seed + 1); if (kz == 0) in.AssembleInterfaceGrad(*f1, *f2, *t1, *t2, x1, x2, e); in.AssembleInterfaceVector(*f1, *f2, *t1, *t2, x1, x2, v1, v2); in.AssembleInterfaceGrad(*f1, *f2, *t1, *t2, x1, x2, e); } };
      if (t == DIFFM || t < DIFFM || t >= VDIFF) call(cf[i], *I, used, y1, y2, 50); call(cf[j], *I, used, y1, y2, 60);
      unique_ptr<InterfaceNonlinearFormIntegrator> N(make((Term) t, dimOf(cf[j].k) == 2 ? c2 : c3, -0.5, kap)); call(cf[j], *N, fresh, z1, z2, 60);
      for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { nearM(*used(a, b), *fresh(a, b), "after another pair of elements", 1e-13); delete used(a, b); delete fresh(a, b); } if (!lin && !mixed) { nearV(y1, z1, "residual after another pair of elements", 1e-13); nearV(y2, z2, "residual after another pair of elements", 1e-13); } });
   // components and reference ports
   struct Grid { const char *n; vector<array<int, 3>> c; array<int, 3> per; };
   vector<Grid> gs = {{"2x1", {{{0, 0, 0}}, {{1, 0, 0}}}, {{0, 0, 0}}}, {"1x2", {{{0, 1, 0}}, {{0, 0, 0}}}, {{0, 0, 0}}}, {"2x2", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}, {{0, 0, 0}}}, {"ring", {{{0, 0, 0}}, {{1, 0, 0}}}, {{2, 0, 0}}}, {"3x1", {{{2, 0, 0}}, {{1, 0, 0}}, {{0, 0, 0}}}, {{0, 0, 0}}}};
   for (Kind k : {QUAD, TRI, HEX, TET}) for (auto &g : gs) for (int same = 0; same < 2; same++) for (int flip = 0; flip < 4; flip++) for (int r1 = 0; r1 < (k == QUAD ? 4 : k == TRI ? 3 : T ? 12 : 2); r1++) { if (k >= HEX && g.c.size() > 2 && !T) continue;
      X.run(string("components ") + name(k) + " " + g.n + (same ? " same" : "") + " flip " + S(flip) + " turn " + S(r1), [=]() {
         const int n = k >= HEX ? 1 : 2; Setup s; s.names = {"a"}; s.files = {meshFile(k, n, n, 1, {r1, 0, 1})}; if (!same) { s.names.push_back("b"); s.files.push_back(meshFile(k, n, n, 1, {2, r1}, 1)); } for (size_t m = 0; m < g.c.size(); m++) place(s, same ? 0 : m % 2, g.c[m], 0); connect(s, dimOf(k), g.c, flip, 0, {}, g.per);
         components(s, [&]() { for (int t = 0; t <= FLUX; t++) { if (k >= HEX && t != FLUX && (t + flip) % 3) continue; const Par &q = pars[(t + flip) % 5]; component(s, (Term) t, k >= HEX ? vector<int>{1} : same ? vector<int>{1 + (t + flip) % 2} : vector<int>{1, 2}, flip % 2, q.s, q.k); } }); }); }
   // curved components
   for (Kind k : {QUAD, TRI, HEX, TET}) for (auto &g : gs) for (int same = 0; same < 2; same++) for (int flip = 0; flip < 4; flip++) for (int r1 = 0; r1 < (k == QUAD ? 4 : k == TRI ? 3 : 2); r1++) { if (k >= HEX && g.c.size() > 2 && !T) continue;
      X.run(string("curved components ") + name(k) + " " + g.n + (same ? " same" : "") + " flip " + S(flip) + " turn " + S(r1), [=]() {
         const int n = k >= HEX ? 1 : 2; Setup s; s.names = {"a"}; s.files = {meshFile(k, n, n, 1, {r1, 0, 1}, 0, 12)}; if (!same) { s.names.push_back("b"); s.files.push_back(meshFile(k, n, n, 1, {2, r1}, 1, 12)); } for (size_t m = 0; m < g.c.size(); m++) place(s, same ? 0 : m % 2, g.c[m], 0); connect(s, dimOf(k), g.c, flip, 0, {}, g.per);
         components(s, [&]() { for (int t = 0; t <= FLUX; t++) { if ((t + flip) % (k >= HEX ? 3 : 2)) continue; const Par &q = pars[(t + flip) % 5]; component(s, (Term) t, k >= HEX ? vector<int>{1} : same ? vector<int>{1 + (t + flip) % 2} : vector<int>{1, 2}, flip % 2, q.s, q.k, true); } }); }); }
   // no coefficient: one
   for (int p = 1; p <= 2; p++) for (double kp : {0.0, 4.0}) X.run("vector diffusion without coefficient order " + S(p) + " " + S(kp), [=]() { int st = vc::in_child([=]() { Mesh b = box(QUAD, 2, 1); Mesh m = rebuild(b, {1, 2}); Handler th(&m); Domain D(&m, &th); Spaces U(D.ms, 2, {p}, 2, 0); ConstantCoefficient o(1.0); DenseMatrix G[2]; for (int w = 0; w < 2; w++) { InterfaceForm F(D.ms, U.f, &th); F.AddInterfaceIntegrator(w ? new InterfaceDGVectorDiffusionIntegrator(o, -1.0, kp) : new InterfaceDGVectorDiffusionIntegrator(-1.0, kp)); Array2D<SparseMatrix *> mm; blocks(mm, U.f, U.f); F.AssembleInterfaceMatrices(mm); dense(mm, G[w]); } G[0] -= G[1]; _exit(G[0].MaxMaxNorm() < 1e-12 ? 0 : 3); }); vc::check(vc::child_ok(st), "vector diffusion constructed without a coefficient"); });
}
