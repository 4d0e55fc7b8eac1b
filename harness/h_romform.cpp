// C16: reduced nonlinear forms (within a mesh and across interfaces) evaluated at weighted samples, against formulas
// evaluated point by point and projected on the basis; training of the samples; precomputation; saving and loading.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "comp.hpp"
#include "nlref.hpp"
#include "rom_nonlinearform.hpp"
#include "rom_interfaceform.hpp"
using namespace mfem; using namespace std; using vc::X; using vc::S; using namespace nlref; using topo::QUAD; using topo::TRI; using topo::HEX; using topo::TET;
extern "C" int MPI_Abort(MPI_Comm, int) { _exit(3); }
static int g_size = 1, g_rank = 0; static function<int(int)> g_local;   // a simulated communicator for the training systems
extern "C" int MPI_Comm_size(MPI_Comm, int *n) { *n = g_size; return 0; }
extern "C" int MPI_Comm_rank(MPI_Comm, int *r) { *r = g_rank; return 0; }
extern "C" int MPI_Allgather(const void *s, int, MPI_Datatype, void *r, int, MPI_Datatype, MPI_Comm) { for (int k = 0; k < g_size; k++) ((int *) r)[k] = g_size == 1 ? *(const int *) s : g_local(k); return 0; }
extern "C" int MPI_Allgatherv(const void *s, int n, MPI_Datatype, void *r, const int *, const int *, MPI_Datatype, MPI_Comm) { vc::check(g_size == 1, "harness: gather"); memcpy(r, s, n * sizeof(double)); return 0; }

static void setConfig(const char *crit = NULL) { config.dict_ = YAML::Load("{mesh: {type: submesh}, domain-decomposition: {type: interior_penalty}}"); if (crit) config.dict_["model_reduction"]["eqp"]["criterion"] = crit; }
typedef vector<SampleInfo> Samples;
static Array<SampleInfo> arr(const Samples &s) { Array<SampleInfo> a; for (auto &x : s) a.Append(x); return a; }
static Samples listOf(EQPElement *e) { Samples s; if (e) for (int i = 0; i < e->Size(); i++) s.push_back(e->GetSample(i)->info); return s; }
// lists of samples of a set of places, each with the points of a rule
enum { ALL, SCRAMBLED, SPARSE, EMPTY_, BACK, NSET };
static const char *setname[] = {"all points", "all points scrambled, two weights each", "some points", "no points", "points backwards and again"};
static Samples samples(int set, const vector<int> &places, const IntegrationRule &ir, int seed)
{
   Samples s; const int nq = ir.GetNPoints(), n = places.size() * nq;
   auto at = [&](int k, double f) { k %= n; s.push_back({.el = places[k / nq], .qp = k % nq, .qw = ir.IntPoint(k % nq).weight * f}); };
   if (n == 0) return s;
   if (set == ALL) for (int k = 0; k < n; k++) at(k, 1);
   if (set == SCRAMBLED) { int st = 7; while (n % st == 0) st += 2; for (int k = 0; k < n; k++) { at(k * st + seed, 0.7); at(k * st + seed + st / 2, 0.3 * (1 + irr(k))); } }
   if (set == SPARSE) for (int k = seed % 2; k < n; k += 3) at((k * 5 + seed) % n, 1.5 + irr(k + seed));
   if (set == BACK) { for (int k = n - 1; k >= 0; k--) if (k % 2 == 0) at(k, 2 + irr(k)); for (int k = n - 1; k >= 0; k -= 3) at(k, 0.4); at(0, 0); at(n / 2, -0.3); }
   return s;
}

static void basisMatrix(DenseMatrix &B, int rows, int cols, int seed) { B.SetSize(rows, cols); for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) B(i, j) = seed % 3 == 2 && j == 0 ? 0.0 : irr(1009 * j + i + 31 * seed); }
static void spdense(Array2D<SparseMatrix *> &m, const vector<int> &off, DenseMatrix &G) { G.SetSize(off.back()); G = 0.0; for (int i = 0; i < m.NumRows(); i++) for (int j = 0; j < m.NumCols(); j++) { DenseMatrix E; m(i, j)->Finalize(); m(i, j)->ToDenseMatrix(E); for (int a = 0; a < E.Height(); a++) for (int b = 0; b < E.Width(); b++) G(off[i] + a, off[j] + b) = E(a, b); } }

// ---------------------------------------------------------------- forms within one mesh
struct Term { int mode; unique_ptr<Made> M; Array<int> marker; bool all; const IntegrationRule *ir; vector<int> places; Samples s; int idx; };
struct Form
{
   int d, k, nb; unique_ptr<Mesh> m; unique_ptr<FiniteElementCollection> fec; unique_ptr<FiniteElementSpace> fes; vector<Term> t; DenseMatrix B; int N; unique_ptr<ROMNonlinearForm> f; vector<int> faceOfBdr; bool ref;
   Form(int kind, int p, int ordering, int bend, const vector<int> &rot, int set, int mk, int rule, int nb_, bool ref_ = true, double shift = 0) : k(kind), nb(nb_), ref(ref_)
   {
      Mesh b = boxOf(kind, 2, kdim(kind) == 3 ? 1 : 2, 1); m.reset(new Mesh(topo::rebuild(b, {}, rot))); distort(*m, bend); d = m->Dimension();
      if (shift) { Vector v; m->GetVertices(v); if (bend < 3) for (int i = 0; i < m->GetNV(); i++) m->GetVertex(i)[0] += shift; }
      fec.reset(new DG_FECollection(p, d)); fes.reset(new FiniteElementSpace(m.get(), fec.get(), d, ordering)); N = fes->GetVSize(); f.reset(new ROMNonlinearForm(nb, fes.get(), ref));
      for (int be = 0; be < m->GetNBE(); be++) faceOfBdr.push_back(m->GetBdrElementEdgeIndex(be));
      const IntegrationRule &ie = IntRules.Get(m->GetElementBaseGeometry(0), rule), &iff = IntRules.Get(faceGeom(kind), rule + (set % 2));
      // sets of terms: q, form, prescribed velocity
      auto add = [&](int mode, NTerm nt, int marker) {
         t.emplace_back(); Term &T = t.back(); T.mode = mode; T.M.reset(new Made(nt, d, mode)); T.ir = mode == ELEM ? &ie : &iff; T.M->nl->SetIntRule(T.ir); T.all = marker == 0; T.idx = 0; for (auto &o : t) if (&o != &T && o.mode == mode) T.idx++;
         T.marker.SetSize(m->bdr_attributes.Max()); T.marker = 0; for (int i = 0; i < T.marker.Size(); i++) if (marker == 0 || (marker == 1 && i % 2) || (marker == 2 && i % 2 == 0)) T.marker[i] = 1;
         HyperReductionIntegrator *h = T.M->hr; T.M->nl.release();
         if (mode == ELEM) { f->AddDomainIntegrator(h); for (int e = 0; e < m->GetNE(); e++) T.places.push_back(e); }
         else if (mode == FACE) { f->AddInteriorFaceIntegrator(h); for (int q = 0; q < m->GetNumFaces(); q++) { int a, c; m->GetFaceElements(q, &a, &c); if (c >= 0) T.places.push_back(q); } }
         else { if (T.all) f->AddBdrFaceIntegrator(h); else f->AddBdrFaceIntegrator(h, T.marker); for (int be = 0; be < m->GetNBE(); be++) if (T.marker[m->GetBdrAttribute(be) - 1]) T.places.push_back(be); }
      };
      if (set == 0) { add(ELEM, {"", false, false, 2, 1, false}, 0); add(FACE, {"", true, false, 2, 4, false}, 0); add(BDR, {"", true, true, 2, 4, false}, mk); }
      if (set == 1) { add(ELEM, {"", false, false, 2, 2, false}, 0); add(ELEM, {"", false, false, 1, 1, true}, 0); add(FACE, {"", true, false, 1, 4, false}, 0); add(BDR, {"", true, false, 2, 4, false}, mk); add(BDR, {"", true, true, 3, 4, false}, (mk + 1) % 3); }
      if (set == 2) add(ELEM, {"", false, false, 0, 2, false}, 0);
      if (set == 3) { add(FACE, {"", true, false, 3, 4, false}, 0); add(FACE, {"", true, false, 2, 4, false}, 0); }
      if (set == 4) { add(BDR, {"", true, true, 1, 4, false}, mk); add(ELEM, {"", false, false, 0, 1, false}, 0); }
   }
   void basis(int seed, int offset) { DenseMatrix F; basisMatrix(F, N + offset + (seed % 2), nb, seed); f->SetBasis(F, offset); B.SetSize(N, nb); for (int j = 0; j < nb; j++) for (int i = 0; i < N; i++) B(i, j) = F(i + offset, j); F = 17.0; }
   void give(Term &T, const Samples &s) { T.s = s; Array<SampleInfo> a = arr(s); if (T.mode == ELEM) f->UpdateDomainIntegratorSampling(T.idx, a); else if (T.mode == FACE) f->UpdateInteriorFaceIntegratorSampling(T.idx, a); else f->UpdateBdrFaceIntegratorSampling(T.idx, a); a = SampleInfo({.el = 1, .qp = 1, .qw = 1e9}); }
   void sampling(int set, int seed) { for (size_t i = 0; i < t.size(); i++) give(t[i], samples(set, t[i].places, *t[i].ir, seed + i)); }
   static IntegratorType type(int mode) { return mode == ELEM ? IntegratorType::DOMAIN : mode == FACE ? IntegratorType::INTERIORFACE : IntegratorType::BDRFACE; }
   // contribution of samples of one term at the full state u
   void addTerm(const Term &T, const Samples &s, const Vector &u, Vector &R, DenseMatrix *J)
   {
      for (auto &q : s)
      {
         const IntegrationPoint &ip = T.ir->IntPoint(q.qp); Array<int> vd, v2; Vector ue;
         if (T.mode == ELEM) { fes->GetElementVDofs(q.el, vd); u.GetSubVector(vd, ue); Vector r(vd.Size()); DenseMatrix j(vd.Size()); r = 0.0; j = 0.0; domainPoint(*m, q.el, *fes->GetFE(q.el), ip, q.qw, T.M->dom(), ue, r, j); put(vd, r, j, R, J); }
         else { int fc = T.mode == BDR ? faceOfBdr[q.el] : q.el, e1, e2; m->GetFaceElements(fc, &e1, &e2); fes->GetElementVDofs(e1, vd); if (e2 >= 0) { fes->GetElementVDofs(e2, v2); vd.Append(v2); } u.GetSubVector(vd, ue); FP pt = facePoint(*m, fc, ip, fes->GetFE(e1), e2 >= 0 ? fes->GetFE(e2) : NULL); Vector r(vd.Size()); DenseMatrix j(vd.Size()); r = 0.0; j = 0.0; fluxPoint(pt, pt.ds / ip.weight * q.qw, T.M->flux(T.mode == BDR), ue, r, &j); put(vd, r, j, R, J); }
         X.transitions++;
      }
   }
   static void put(const Array<int> &vd, const Vector &r, const DenseMatrix &j, Vector &R, DenseMatrix *J) { for (int a = 0; a < vd.Size(); a++) { R(vd[a]) += r(a); if (J) for (int c = 0; c < vd.Size(); c++) (*J)(vd[a], vd[c]) += j(a, c); } }
   void project(const Vector &R, const DenseMatrix &J, Vector &r, DenseMatrix &j) { r.SetSize(nb); B.MultTranspose(R, r); DenseMatrix JB(N, nb); Mult(J, B, JB); j.SetSize(nb); MultAtB(B, JB, j); }
   void expect(const Vector &x, Vector &r, DenseMatrix &j) { Vector u(N), R(N); DenseMatrix J(N); B.Mult(x, u); R = 0.0; J = 0.0; for (auto &T : t) addTerm(T, T.s, u, R, &J); project(R, J, r, j); }
   void evaluate(const string &what, int seed)
   {
      for (int st = 0; st < 3; st++) { Vector x(nb), x0, y(nb), r; DenseMatrix j; if (st == 1) x = 0.0; else irregular(x, seed + 5 * st); x0 = x; y = 99.0; expect(x, r, j); f->Mult(x, y); nearV(y, r, what + ": reduced residual"); DenseMatrix *G = dynamic_cast<DenseMatrix *>(&f->GetGradient(x)); vc::check(G != NULL, "the reduced Jacobian is a dense matrix"); nearM(*G, j, what + ": reduced Jacobian"); if (st == 0) { f->Mult(x, y); nearV(y, r, what + ": reduced residual again"); G = dynamic_cast<DenseMatrix *>(&f->GetGradient(x)); nearM(*G, j, what + ": reduced Jacobian again"); } x0 -= x; vc::eq(x0.Normlinf(), 0.0, "the state was changed"); vc::Hash h; for (int i = 0; i < nb; i++) h.add(y(i)); X.outcome(h.h); }
   }
   void save(const string &file) { hid_t id = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (size_t i = 0; i < t.size(); i++) f->SaveEQPForIntegrator(type(t[i].mode), t[i].idx, id, "term" + S(i)); H5Fclose(id); }
   void load(const string &file) { hid_t id = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); for (size_t i = 0; i < t.size(); i++) f->LoadEQPForIntegrator(type(t[i].mode), t[i].idx, id, "term" + S(i)); H5Fclose(id); }
   EQPElement *eqp(const Term &T) { return f->GetEQPForIntegrator(type(T.mode), T.idx); }
};
static void same(const Samples &a, const Samples &b, const string &what) { vc::eq(a.size(), b.size(), what + ": number of samples"); for (size_t i = 0; i < a.size(); i++) vc::check(a[i].el == b[i].el && a[i].qp == b[i].qp && a[i].qw == b[i].qw, what + ": sample " + S(i)); }

// weights of a fit, large and small, at every position in turn: the points with a positive weight are sampled with that weight, negligible ones (1e-12) are not
static const vector<double> fitted = {0.0, 5e-13, 2e-12, 1e-7, 0.4, 2.0, 0.0, 1e-5, 1e-3};
static void supply(int shift) { if (shift < 0) CAROM::shim::weights() = nullptr; else CAROM::shim::weights() = [=](CAROM::Vector &x) { for (int k = 0; k < x.dim(); k++) x(k) = fitted[(k + shift) % fitted.size()]; }; }
static void extracted(Samples got, const vector<int> &places, int nq, int shift, const string &what)
{
   Samples want; for (int k = 0; k < (int) places.size() * nq; k++) { const double w = fitted[(k + shift) % fitted.size()]; if (w > 1e-12) want.push_back({.el = places[k / nq], .qp = k % nq, .qw = w}); } auto less = [](const SampleInfo &a, const SampleInfo &b) { return make_pair(a.el, a.qp) < make_pair(b.el, b.qp); }; sort(got.begin(), got.end(), less); sort(want.begin(), want.end(), less); same(got, want, what + ", weights given");
}
// a form trained on snapshots: every term matches its full quadrature on every snapshot and basis vector within the tolerance
static void train(int kind, int p, int ordering, int bend, int set, int mk, int nb, int nsnap, double tol, const char *crit, int offset, int extra)
{
   setConfig(crit); Form F(kind, p, ordering, bend, {0, 1, 2}, set, mk, 2, nb); F.basis(3 + nb, offset); CAROM::Matrix sn(F.N + extra, nsnap, true); vector<Vector> us(nsnap, Vector(F.N)); for (int i = 0; i < nsnap; i++) { irregular(us[i], 70 + i); if (i == 2) us[i] *= 30.0; for (int q = 0; q < F.N; q++) sn(q, i) = us[i](q); for (int q = 0; q < extra; q++) sn(F.N + q, i) = 1e3; }
   for (int again = 0; again < 2; again++)
   {
   F.f->TrainEQP(sn, tol); vc::eq(sn.numRows(), F.N + extra, "the snapshots were changed"); vc::check(sn.distributed(), "the snapshots were changed");
   for (size_t i = 0; i < F.t.size(); i++)
   {
      Term &T = F.t[i]; T.s = listOf(F.eqp(T)); const string what = "trained term " + S(i); set_of: ; std::set<pair<int, int>> seen; for (auto &q : T.s) { vc::check(find(T.places.begin(), T.places.end(), q.el) != T.places.end(), what + " samples a place where the term is not active"); vc::check(q.qp >= 0 && q.qp < T.ir->GetNPoints(), what + ": quadrature point out of range"); vc::check(q.qw > 0, what + ": weight is not positive"); vc::check(seen.insert({q.el, q.qp}).second, what + ": the same point twice"); }
      Samples all = samples(ALL, T.places, *T.ir, 0); double num = 0, den = 0; bool inf = true;
      for (int q = 0; q < nsnap; q++) { Vector R(F.N), W(F.N), r(nb), w(nb); R = 0.0; W = 0.0; F.addTerm(T, T.s, us[q], R, NULL); F.addTerm(T, all, us[q], W, NULL); F.B.MultTranspose(R, r); F.B.MultTranspose(W, w); for (int a = 0; a < nb; a++) { num += (r(a) - w(a)) * (r(a) - w(a)); den += w(a) * w(a); if (fabs(r(a) - w(a)) > tol * fabs(w(a)) * (1 + 1e-6) + 1e-9) inf = false; } }
      if (string(crit) == "linf") vc::check(inf, what + ": sampled projection differs from the full one by more than the tolerance in some entry"); else vc::check(sqrt(num) <= tol * sqrt(den) * (1 + 1e-6) + 1e-9, what + ": sampled projection differs from the full one by " + S(sqrt(num) / sqrt(den)) + " (tolerance " + S(tol) + ")");
      vc::check(T.s.size() > 0, what + ": no samples"); if (nb * nsnap < (int) all.size() / 2) vc::check(T.s.size() < all.size(), what + ": no reduction");
   }
   F.evaluate("trained form", 9); F.f->PrecomputeCoefficients(); F.f->SetPrecomputeMode(true); F.evaluate("trained form, precomputed", 10); F.f->SetPrecomputeMode(false);
   }
   for (int shift = 0; shift < (int) fitted.size(); shift++) { supply(shift); F.f->TrainEQP(sn, tol); supply(-1); for (size_t i = 0; i < F.t.size(); i++) extracted(listOf(F.eqp(F.t[i])), F.t[i].places, F.t[i].ir->GetNPoints(), shift, "term " + S(i)); X.transitions++; }
   setConfig();
}
// the training system of every process is its share of the rows of the whole system
static void distributed(int kind, int set, int mk, int nproc)
{
   Form F(kind, 1, 0, 2, {0, 1, 2}, set, mk, 2, 3); F.basis(4, 0); const int ns = 2; CAROM::Matrix sn(F.N, ns, false); vector<Vector> us(ns, Vector(F.N)); for (int i = 0; i < ns; i++) { irregular(us[i], 40 + i); for (int q = 0; q < F.N; q++) sn(q, i) = us[i](q); }
   for (auto &T : F.t)
   {
      const int nq = T.ir->GetNPoints(), n = T.places.size(); int row = 0; vector<double> sum(3 * ns, 0.0); g_size = nproc;
      g_local = [&](int k) { return n / nproc + (k < n % nproc ? 1 : 0); };
      for (g_rank = 0; g_rank < nproc; g_rank++)
      {
         CAROM::Matrix Gt(1, 1, true); CAROM::Vector rhs(1, false); Array<int> ids;
         if (T.mode == ELEM) { F.f->SetupEQPSystemForDomainIntegrator(sn, T.M->hr, Gt, rhs); for (int q : T.places) ids.Append(q); } else if (T.mode == FACE) F.f->SetupEQPSystemForInteriorFaceIntegrator(sn, T.M->hr, Gt, rhs, ids); else F.f->SetupEQPSystemForBdrFaceIntegrator(sn, T.M->hr, T.marker, Gt, rhs, ids);
         vc::eq(ids.Size(), n, "places of the term"); vc::eq(Gt.numRows(), g_local(g_rank) * nq, "rows of a process"); vc::eq(Gt.numColumns(), 3 * ns, "columns"); vc::eq(rhs.dim(), 3 * ns, "right-hand side"); for (int k = 0; k < rhs.dim(); k++) sum[k] += rhs(k);
         for (int r = 0; r < Gt.numRows(); r++, row++) for (int i = 0; i < ns; i++) { Vector R(F.N), w(3); R = 0.0; F.addTerm(T, {{.el = ids[row / nq], .qp = row % nq, .qw = 1.0}}, us[i], R, NULL); F.B.MultTranspose(R, w); for (int j = 0; j < 3; j++) vc::near(Gt(r, j + 3 * i), w(j), "entry of the training system"); }
      }
      g_size = 1; g_rank = 0; vc::eq(row, n * nq, "all rows"); for (int i = 0; i < ns; i++) { Vector R(F.N), w(3); R = 0.0; F.addTerm(T, samples(ALL, T.places, *T.ir, 0), us[i], R, NULL); F.B.MultTranspose(R, w); for (int j = 0; j < 3; j++) vc::near(sum[j + 3 * i], w(j), "right-hand side of the training system"); }
   }
}

// ---------------------------------------------------------------- forms across interfaces
struct IForm
{
   TopologyHandler &th; Array<Mesh *> ms; TopologyData td; int K, NC, d, np, nr; unique_ptr<FiniteElementCollection> fec[3]; Array<FiniteElementSpace *> fes, cfes; vector<unique_ptr<FiniteElementSpace>> own; vector<DenseMatrix> Bfull, B; vector<int> off, comp; vector<unique_ptr<Made>> t; vector<const IntegrationRule *> ir; unique_ptr<ROMInterfaceForm> f; vector<vector<Samples>> s; /* term, reference port */ vector<int> cnb;
   IForm(TopologyHandler &th_, int p, int ordering, const vector<int> &nbs, const vector<pair<int, bool>> &terms, int rule) : th(th_)
   {
      th.ExportInfo(ms, td); K = ms.Size(); NC = th.GetNumComponents(); d = ms[0]->Dimension(); np = th.GetNumPorts(); nr = th.GetNumRefPorts(); for (int q = 0; q < 2; q++) fec[q].reset(new DG_FECollection(p + q, d)); fes.SetSize(K); cfes.SetSize(NC);
      for (int c = 0; c < NC; c++) { cnb.push_back(nbs[c % nbs.size()]); cfes[c] = new FiniteElementSpace(th.GetComponentMesh(c), fec[c % 2].get(), d, ordering); own.emplace_back(cfes[c]); }
      off.push_back(0); for (int m = 0; m < K; m++) { int c = th.GetMeshType(m); comp.push_back(c); if (ms[m] == th.GetComponentMesh(c)) fes[m] = cfes[c]; else { fes[m] = new FiniteElementSpace(ms[m], fec[c % 2].get(), d, ordering); own.emplace_back(fes[m]); } vc::eq(fes[m]->GetVSize(), cfes[c]->GetVSize(), "harness: sizes"); off.push_back(off.back() + cnb[c]); }
      f.reset(new ROMInterfaceForm(ms, fes, cfes, &th)); const Geometry::Type g = d == 2 ? Geometry::SEGMENT : ms[0]->GetElementBaseGeometry(0) == Geometry::CUBE ? Geometry::SQUARE : Geometry::TRIANGLE;
      for (auto &q : terms) { NTerm nt = {"", true, q.second, q.first, 4, false}; t.emplace_back(new Made(nt, d, INTF)); ir.push_back(&IntRules.Get(g, rule)); t.back()->nl->SetIntRule(ir.back()); f->AddInterfaceIntegrator(t.back()->itf); t.back()->nl.release(); }
      s.assign(t.size(), vector<Samples>(nr)); Bfull.resize(NC); B.resize(NC);
   }
   void basis(int seed, int offset) { for (int c = 0; c < NC; c++) { const int N = cfes[c]->GetVSize(); basisMatrix(Bfull[c], N + offset * (c + 1) + seed % 2, cnb[c], seed + c); f->SetBasisAtComponent(c, Bfull[c], offset * (c + 1)); B[c].SetSize(N, cnb[c]); for (int j = 0; j < cnb[c]; j++) for (int i = 0; i < N; i++) B[c](i, j) = Bfull[c](i + offset * (c + 1), j); } f->UpdateBlockOffsets(); }
   vector<int> places(int r) { vector<int> v; for (int i = 0; i < th.GetRefInterfaceInfos(r)->Size(); i++) v.push_back(i); return v; }
   void give(int k, int r, const Samples &q) { s[k][r] = q; Array<SampleInfo> a = arr(q); f->UpdateInterFaceIntegratorSampling(k, r, a); a = SampleInfo({.el = 1, .qp = 1, .qw = 1e9}); }
   void sampling(int set, int seed) { for (size_t k = 0; k < t.size(); k++) for (int r = 0; r < nr; r++) if (s[k][r].empty() || set != ALL || true) give(k, r, samples(set, places(r), *ir[k], seed + k + 3 * r)); }
   // one sample at a port: contribution to the two reduced blocks
   void addSample(int k, Mesh &m1, Mesh &m2, FiniteElementSpace &f1, FiniteElementSpace &f2, const DenseMatrix &B1, const DenseMatrix &B2, InterfaceInfo &info, const P3 &shift, const SampleInfo &q, const Vector &u1, const Vector &u2, Vector &y1, Vector &y2, DenseMatrix *J)
   {
      FaceElementTransformations *t1, *t2; th.GetInterfaceTransformations(&m1, &m2, &info, t1, t2); const IntegrationPoint &ip = ir[k]->IntPoint(q.qp); const int e1 = t1->Elem1No, e2 = t2->Elem1No; FP p; p.dim = d; p.ns = 2; p.n.SetSize(d); p.x.SetSize(d); t1->SetAllIntPoints(&ip); t1->Transform(ip, p.x); CalcOrtho(t1->Jacobian(), p.n); double l = p.n.Norml2(); p.n /= l;
      P3 c = topo::elemCentre(m1, e1); double o = 0; for (int a = 0; a < d; a++) o += p.n(a) * (p.x(a) - c[a]); if (o < 0) p.n *= -1.0; Vector x2(p.x); for (int a = 0; a < d; a++) x2(a) -= shift[a];
      p.s[0].sub = 0; fillSide(p.s[0], m1, e1, p.x, l, f1.GetFE(e1), NULL); p.s[1].sub = 1; fillSide(p.s[1], m2, e2, x2, l, f2.GetFE(e2), NULL); Array<int> v1, v2; f1.GetElementVDofs(e1, v1); f2.GetElementVDofs(e2, v2); Vector a, b; u1.GetSubVector(v1, a); u2.GetSubVector(v2, b); const int n1 = a.Size(), n2 = b.Size(); Vector x(n1 + n2), r(n1 + n2); for (int i = 0; i < n1; i++) x(i) = a(i); for (int i = 0; i < n2; i++) x(n1 + i) = b(i); r = 0.0; DenseMatrix j(n1 + n2); j = 0.0; fluxPoint(p, l * q.qw, t[k]->flux(false), x, r, J ? &j : NULL);
      const int c1 = B1.Width(), c2 = B2.Width(); DenseMatrix P(n1 + n2, c1 + c2); P = 0.0; for (int i = 0; i < n1; i++) for (int q2 = 0; q2 < c1; q2++) P(i, q2) = B1(v1[i], q2); for (int i = 0; i < n2; i++) for (int q2 = 0; q2 < c2; q2++) P(n1 + i, c1 + q2) = B2(v2[i], q2);
      Vector rr(c1 + c2); P.MultTranspose(r, rr); for (int i = 0; i < c1; i++) y1(i) += rr(i); for (int i = 0; i < c2; i++) y2(i) += rr(c1 + i); if (J) { DenseMatrix T(n1 + n2, c1 + c2), R(c1 + c2); Mult(j, P, T); MultAtB(P, T, R); *J += R; } X.transitions++;
   }
   vector<P3> shift;   // per port, periodic displacement
   void expect(const Vector &x, Vector &y, DenseMatrix &J)
   {
      y.SetSize(off.back()); y = 0.0; J.SetSize(off.back()); J = 0.0; vector<Vector> u(K); for (int m = 0; m < K; m++) { Vector xm(x.GetData() + off[m], cnb[comp[m]]); u[m].SetSize(fes[m]->GetVSize()); B[comp[m]].Mult(xm, u[m]); }
      for (size_t k = 0; k < t.size(); k++) for (int p = 0; p < np; p++) { const PortInfo &pi = *th.GetPortInfo(p); const int a = pi.Mesh1, b = pi.Mesh2; Vector y1(y.GetData() + off[a], cnb[comp[a]]), y2(y.GetData() + off[b], cnb[comp[b]]); DenseMatrix R(y1.Size() + y2.Size()); R = 0.0; for (auto &q : s[k][th.GetPortType(p)]) addSample(k, *ms[a], *ms[b], *fes[a], *fes[b], B[comp[a]], B[comp[b]], (*th.GetInterfaceInfos(p))[q.el], shift.empty() ? P3{0, 0, 0} : shift[p], q, u[a], u[b], y1, y2, &R);
         const int n1 = y1.Size(), n = R.Height(); auto at = [&](int i) { return i < n1 ? off[a] + i : off[b] + i - n1; }; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J(at(i), at(j)) += R(i, j); }
   }
   void evaluate(const string &what, int seed)
   {
      for (int st = 0; st < 3; st++)
      {
         Vector x(off.back()), x0, y(off.back()), r; DenseMatrix j, G; irregular(x, seed + 3 * st); if (st == 1) for (int m = 0; m < K; m += 2) for (int i = off[m]; i < off[m + 1]; i++) x(i) = 0; x0 = x; expect(x, r, j); irregular(y, 5); Vector want(y); want += r; f->InterfaceAddMult(x, y); nearV(y, want, what + ": reduced interface residual, added");
         Array2D<SparseMatrix *> m(K, K); for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) m(a, b) = new SparseMatrix(cnb[comp[a]], cnb[comp[b]]); if (st == 2) for (int a = 0; a < K; a++) for (int i = 0; i < cnb[comp[a]]; i++) { m(a, a)->Set(i, i, 2.5); j(off[a] + i, off[a] + i) += 2.5; } f->InterfaceGetGradient(x, m); spdense(m, off, G); for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) delete m(a, b); nearM(G, j, what + ": reduced interface Jacobian, added");
         x0 -= x; vc::eq(x0.Normlinf(), 0.0, "the state was changed"); if (st == 0) { y = 0.0; f->InterfaceAddMult(x, y); nearV(y, r, what + ": reduced interface residual again"); } vc::Hash h; for (int i = 0; i < r.Size(); i++) h.add(r(i)); X.outcome(h.h);
      }
   }
   void save(const string &file) { hid_t id = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (size_t k = 0; k < t.size(); k++) f->SaveEQPForIntegrator(k, id, "interface" + S(k)); H5Fclose(id); }
   void load(const string &file) { hid_t id = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); for (size_t k = 0; k < t.size(); k++) f->LoadEQPForIntegrator(k, id, "interface" + S(k)); H5Fclose(id); }
   void everything(int seed, int offset)
   {
      basis(seed, offset); for (int set = 0; set < NSET; set++) { sampling((set + seed) % NSET, seed); string w = string(setname[(set + seed) % NSET]); evaluate(w, seed + 11 * set); f->PrecomputeCoefficients(); f->SetPrecomputeMode(true); evaluate(w + ", precomputed", seed + 11 * set); f->SetPrecomputeMode(false); if (set == 2) evaluate(w + ", after precomputing", seed); }
   }
   // training on pairs of snapshots
   void trained(int nsnap, double tol, const string &crit, int extra)
   {
      vector<CAROM::Matrix> sn; vector<vector<Vector>> us(NC); for (int c = 0; c < NC; c++) { const int N = cfes[c]->GetVSize(); sn.emplace_back(N + extra, nsnap + c, true); us[c].assign(nsnap + c, Vector(N)); for (int i = 0; i < nsnap + c; i++) { irregular(us[c][i], 90 + 7 * c + i); for (int q = 0; q < N; q++) sn[c](q, i) = us[c][i](q); for (int q = 0; q < extra; q++) sn[c](N + q, i) = 1e3; } }
      for (int r = 0; r < nr; r++)
      {
         int c1, c2, a1, a2; th.GetRefPortInfo(r, c1, c2, a1, a2); Array2D<int> pr(nsnap, 2); for (int i = 0; i < nsnap; i++) { pr(i, 0) = (i + 1) % (nsnap + c1); pr(i, 1) = nsnap + c2 - 1 - i; }
         for (int shift = 0; shift < (int) fitted.size(); shift += 2) { supply(shift); f->TrainEQPForRefPort(r, sn[c1], sn[c2], pr, tol); supply(-1); string file = vc::tmpfile("itw.h5"); for (int q = r + 1; q < nr; q++) for (size_t k = 0; k < t.size(); k++) give(k, q, {}); save(file); hid_t id = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); for (size_t k = 0; k < t.size(); k++) { EQPElement e; hid_t g = H5Gopen2(id, ("interface" + S(k)).c_str(), H5P_DEFAULT); e.Load(g, th.GetComponentName(c1) + ":" + th.GetComponentName(c2) + "-" + S(a1) + ":" + S(a2), IntegratorType::INTERFACE); H5Gclose(g); extracted(listOf(&e), places(r), ir[k]->GetNPoints(), shift, "port " + S(r)); } H5Fclose(id); unlink(file.c_str()); X.transitions++; }
         f->TrainEQPForRefPort(r, sn[c1], sn[c2], pr, tol);
         // what was chosen is visible in the saved samples only
         string file = vc::tmpfile("itf.h5"); for (int q = 0; q < nr; q++) if (q > r) for (size_t k = 0; k < t.size(); k++) give(k, q, {}); save(file); hid_t id = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
         for (size_t k = 0; k < t.size(); k++)
         {
            EQPElement e; hid_t g = H5Gopen2(id, ("interface" + S(k)).c_str(), H5P_DEFAULT); e.Load(g, th.GetComponentName(c1) + ":" + th.GetComponentName(c2) + "-" + S(a1) + ":" + S(a2), IntegratorType::INTERFACE); H5Gclose(g); s[k][r] = listOf(&e); const string what = "trained port " + S(r); std::set<pair<int, int>> seen; const int ni = th.GetRefInterfaceInfos(r)->Size();
            for (auto &q : s[k][r]) { vc::check(q.el >= 0 && q.el < ni && q.qp >= 0 && q.qp < ir[k]->GetNPoints() && q.qw > 0, what + ": sample out of range"); vc::check(seen.insert({q.el, q.qp}).second, what + ": the same point twice"); }
            vc::check(s[k][r].size() > 0, what + ": no samples"); Samples all = samples(ALL, places(r), *ir[k], 0); double num = 0, den = 0; bool inf = true; Mesh *m1 = th.GetComponentMesh(c1); unique_ptr<Mesh> cp; Mesh *m2 = th.GetComponentMesh(c2); if (m1 == m2) { cp.reset(new Mesh(*m1)); m2 = cp.get(); }
            for (int i = 0; i < nsnap; i++) { Vector y1(cnb[c1]), y2(cnb[c2]), w1(cnb[c1]), w2(cnb[c2]); y1 = 0.0; y2 = 0.0; w1 = 0.0; w2 = 0.0; const P3 &sh = refshift.empty() ? P3{0, 0, 0} : refshift[r]; for (auto &q : s[k][r]) addSample(k, *m1, *m2, *cfes[c1], *cfes[c2], B[c1], B[c2], (*th.GetRefInterfaceInfos(r))[q.el], sh, q, us[c1][pr(i, 0)], us[c2][pr(i, 1)], y1, y2, NULL); for (auto &q : all) addSample(k, *m1, *m2, *cfes[c1], *cfes[c2], B[c1], B[c2], (*th.GetRefInterfaceInfos(r))[q.el], sh, q, us[c1][pr(i, 0)], us[c2][pr(i, 1)], w1, w2, NULL);
               for (int sd = 0; sd < 2; sd++) { Vector &y = sd ? y2 : y1, &w = sd ? w2 : w1; for (int a = 0; a < y.Size(); a++) { num += pow(y(a) - w(a), 2); den += pow(w(a), 2); if (fabs(y(a) - w(a)) > tol * fabs(w(a)) * (1 + 1e-6) + 1e-9) inf = false; } } }
            if (crit == "linf") vc::check(inf, what + ": sampled projection differs from the full one by more than the tolerance in some entry"); else vc::check(sqrt(num) <= tol * sqrt(den) * (1 + 1e-6) + 1e-9, what + ": sampled projection differs from the full one by " + S(sqrt(num / den)) + " (tolerance " + S(tol) + ")");
         }
         H5Fclose(id); unlink(file.c_str());
      }
   }
   vector<P3> refshift;   // between the two component meshes of a reference port
};
static void components(const Setup &s, const function<void()> &f)
{
   dir = vc::tmpfile("d"); mkdir(dir.c_str(), 0700); auto clean = [&]() { string c = "rm -rf ./" + dir; int r = system(c.c_str()); (void) r; setConfig(); };
   try { writeGlobal(s, dir + "/global.h5", dir + "/bdr.h5"); config.dict_ = yaml(s, false, false); f(); } catch (...) { clean(); throw; } clean();
}
static void shifts(IForm &F, const Setup &s)
{
   for (auto &p : s.ports) F.shift.push_back(p.shift);
   // the reference configuration of a port: the second component displaced, in its own coordinates
   for (int r = 0; r < F.nr; r++) for (size_t p = 0; p < s.ports.size(); p++) if (F.th.GetPortType(p) == r) { const Place &A = s.places[s.ports[p].m1], &B = s.places[s.ports[p].m2]; P3 q; for (int k = 0; k < 3; k++) q[k] = B.t[k] + s.ports[p].shift[k] - A.t[k]; F.refshift.push_back(q); break; }
}

void vc_main()
{
   config = InputParser(); setConfig(); const bool T = X.thorough; const vector<int> kinds = {QUAD, TRI, HEX, TET};
   const int NTS = 5;
   // ---- forms within a mesh: every kind of samples, precomputed and not, saved and loaded
   for (int k : kinds) for (int p = 1; p <= (kdim(k) == 3 ? 1 + T : 3); p++) for (int ord = 0; ord < 2; ord++) for (int bend = 0; bend < 4; bend++) for (int set = 0; set < NTS; set++) for (int mk = 0; mk < 3; mk++) for (int nb = 1; nb <= 5; nb += 2) {
      if (mk && (set == 2 || set == 3)) continue; if (!T && (p + ord + bend + set + mk + nb / 2) % (kdim(k) == 3 ? 3 : 2)) continue;
      X.run(string("form ") + kname(k) + " order " + S(p) + " ordering " + S(ord) + " shape " + S(bend) + " terms " + S(set) + " boundaries " + S(mk) + " basis " + S(nb), [=]() {
         const int c = p + ord + bend + set + mk + nb; Form F(k, p, ord, bend, {c % 4, 1, 2, 3, 0}, set, mk, 1 + c % 3, nb); F.basis(c, c % 3 == 0 ? 0 : c % 5); F.f->SetPrecomputeMode(false); vc::check(!F.f->PrecomputeMode(), "precompute mode");
         for (int s = 0; s < NSET; s++) { const int ss = (s + c) % NSET; F.sampling(ss, c); F.evaluate(setname[ss], c); F.f->PrecomputeCoefficients(); F.evaluate(string(setname[ss]) + ", after precomputing", c); F.f->SetPrecomputeMode(true); F.evaluate(string(setname[ss]) + ", precomputed", c + 1); F.f->SetPrecomputeMode(false); for (auto &t : F.t) same(listOf(F.eqp(t)), t.s, "stored samples"); }
         F.basis(c + 1, c % 4); F.sampling(BACK, c + 2); F.f->PrecomputeCoefficients(); F.f->SetPrecomputeMode(true); F.evaluate("another basis, precomputed", c); }); }
   // a complete basis: the reduced form is the full form in other coordinates
   for (int k : kinds) for (int ord = 0; ord < 2; ord++) for (int set = 0; set < 2; set++) X.run(string("complete basis ") + kname(k) + " ordering " + S(ord) + " terms " + S(set), [=]() { Form A(k, 1, ord, 2, {0, 1}, set, 1, 2, 1); Form F(k, 1, ord, 2, {0, 1}, set, 1, 2, A.N); F.basis(7, 0); F.sampling(ALL, 0); F.evaluate("complete basis", 3); F.f->PrecomputeCoefficients(); F.f->SetPrecomputeMode(true); F.evaluate("complete basis, precomputed", 3); });
   // ---- histories: all sequences of changes to one form, evaluated after every one
   { const char *on[] = {"sample A", "sample B", "basis A", "basis B", "precompute", "not precomputed", "save", "load"}; const int len = T ? 6 : 4;
     for (int k : {QUAD, TET}) for (int set : {0, 1}) { if (k == TET && set) continue; for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) X.run(string("history ") + kname(k) + " terms " + S(set) + ": " + on[a] + ", " + on[b], [=]() {
        string file = vc::tmpfile("hist.h5"); vc::product(vector<int>(len - (k == TET) - 2, 8), [&](const vector<int> &rest) {
           if (!T && (rest[0] * 3 + rest.back() + a + b) % 2) return; vector<int> ops = {a, b}; ops.insert(ops.end(), rest.begin(), rest.end()); Form F(k, 1, 0, 2, {0, 1, 2}, set, 1, 2, 2); F.basis(2, 3); F.sampling(SPARSE, 1);
           bool valid = false, mode = false, saved = false; vector<Samples> disk; Vector x(2), y(2), r; irregular(x, 7); DenseMatrix j;
           for (size_t i = 0; i < ops.size(); i++) { int o = ops[i]; if (o < 2) { F.sampling(o ? BACK : SPARSE, o); valid = false; } else if (o < 4) { F.basis(o * 5, o - 2); valid = false; } else if (o == 4) { F.f->PrecomputeCoefficients(); F.f->SetPrecomputeMode(true); valid = mode = true; } else if (o == 5) { F.f->SetPrecomputeMode(false); mode = false; } else if (o == 6) { F.save(file); saved = true; disk.clear(); for (auto &t : F.t) disk.push_back(t.s); } else { if (!saved) continue; F.load(file); for (size_t q = 0; q < disk.size(); q++) F.t[q].s = disk[q]; valid = false; }
              vc::eq(F.f->PrecomputeMode(), mode, "mode"); for (auto &t : F.t) same(listOf(F.eqp(t)), t.s, "samples"); if (mode && !valid) continue; const string w = "after operation " + S(i) + " of " + vc::str(ops); F.expect(x, r, j); F.f->Mult(x, y); nearV(y, r, w + ": residual"); nearM(dynamic_cast<DenseMatrix &>(F.f->GetGradient(x)), j, w + ": Jacobian"); vc::Hash h; for (int q = 0; q < 2; q++) h.add(y(q)); X.outcome(h.h); } });
        unlink(file.c_str()); }); } }
   // ---- samples of a component shared by several placed copies
   for (int k : kinds) for (int bend = 0; bend < 3; bend++) for (int set = 0; set < NTS; set++) for (int pre = 0; pre < 2; pre++) X.run(string("shared samples ") + kname(k) + " shape " + S(bend) + " terms " + S(set) + (pre ? " precomputed" : ""), [=]() {
      const int nb = 3; unique_ptr<Form> R(new Form(k, 1, 0, bend, {0, 1, 2}, set, 1, 2, nb)); R->basis(4, 0); R->sampling(BACK, 5); if (pre) R->f->PrecomputeCoefficients();
      for (double sh : {0.0, 3.5, -1.25}) { Form F(k, 1, 0, bend, {0, 1, 2}, set, 1, 2, nb, false, sh); F.basis(4, 0); for (size_t i = 0; i < F.t.size(); i++) { Term &t = F.t[i]; t.s = R->t[i].s; EQPElement *e = R->eqp(R->t[i]); if (t.mode == ELEM) F.f->SetDomainEQPElems(t.idx, e); else if (t.mode == FACE) F.f->SetInteriorEQPElems(t.idx, e); else F.f->SetBdrEQPElems(t.idx, e); } F.f->SetPrecomputeMode(pre); F.evaluate("samples of the component", 3); }
      R->f->SetPrecomputeMode(pre); R->evaluate("the component, after its copies are gone", 3); });
   // ---- where the samples are
   for (int k : kinds) for (int bend = 0; bend < 4; bend++) for (int set = 0; set < NSET; set++) { if (set == EMPTY_) continue; X.run(string("coordinates ") + kname(k) + " shape " + S(bend) + " samples " + S(set), [=]() {
      Form F(k, 2, 0, bend, {0, 1, 2}, 1, 1, 3, 2); F.basis(1, 0); F.sampling(set, 4); string file = vc::tmpfile("co.h5"); hid_t id = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (int q = 0; q < 2; q++) { volatile double junk[64]; for (int i = 0; i < 64; i++) junk[i] = 1e5; F.f->SaveDomainEQPCoords(q, id, "c" + S(q)); } H5Fclose(id); id = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
      for (int q = 0; q < 2; q++) { hid_t g = H5Gopen2(id, ("c" + S(q)).c_str(), H5P_DEFAULT); DenseMatrix C; hdf5_utils::ReadDataset(g, "coords", C); H5Gclose(g); Term &t = F.t[q]; vc::eq(C.Height(), (int) t.s.size(), "number of coordinates"); vc::eq(C.Width(), 3, "three coordinates"); for (size_t i = 0; i < t.s.size(); i++) { Vector x; F.m->GetElementTransformation(t.s[i].el)->Transform(t.ir->IntPoint(t.s[i].qp), x); for (int a = 0; a < 3; a++) vc::near(C(i, a), a < F.d ? x(a) : 0.0, "coordinate " + S(a) + " of sample " + S(i), 0, 1e-12); } }
      H5Fclose(id); unlink(file.c_str()); }); }
   // ---- training
   for (int k : kinds) for (int set = 0; set < NTS; set++) for (int mk = 0; mk < 3; mk++) for (int cr = 0; cr < 2; cr++) for (int nb = 1; nb <= 3; nb++) for (int ns = 1; ns <= 3; ns++) for (double tol : {1e-2, 1e-6, 0.3}) {
      if (mk && (set == 2 || set == 3)) continue; if (!T && (nb * ns > 4 || (set + mk + cr + nb + ns) % 2)) continue; if (kdim(k) == 3 && (nb + ns > 4 || (set + cr + ns) % 3)) continue;
      X.run(string("training ") + kname(k) + " terms " + S(set) + " boundaries " + S(mk) + (cr ? " linf" : " l2") + " basis " + S(nb) + " snapshots " + S(ns) + " tolerance " + S(tol), [=]() { const int c = set + mk + nb + ns; train(k, 1, c % 2, c % 4, set, mk, nb, ns, tol, cr ? "linf" : "l2", c % 3, (c / 2) % 2 * 5); }); }
   for (int k : kinds) for (int set = 0; set < 2; set++) for (int mk = 0; mk < 3; mk++) for (int n = 1; n <= (T ? 7 : 4); n++) { if (kdim(k) == 3 && (mk || n % 2)) continue; X.run(string("training system ") + kname(k) + " terms " + S(set) + " boundaries " + S(mk) + " processes " + S(n), [=]() { distributed(k, set, mk, n); }); }
   X.run("unknown criterion", []() { int st = vc::in_child([]() { setConfig("l1"); Form F(QUAD, 1, 0, 0, {}, 2, 0, 1, 1); _exit(0); }); vc::check(!vc::child_ok(st), "an unknown criterion is accepted"); });
   // ---- interfaces of a divided mesh
   const vector<vector<pair<int, bool>>> iterms = {{{2, false}}, {{1, false}, {2, false}}, {{3, false}}};
   for (int k : kinds) for (int cut = 0; cut < 8; cut++) for (int p = 1; p <= (kdim(k) == 3 ? 1 : 2); p++) for (int bend = 0; bend < 4; bend++) for (int it = 0; it < 3; it++) {
      if (kdim(k) == 3 && cut > 2) continue; if (!T && (cut + p + bend + it) % (kdim(k) == 3 ? 3 : 2)) continue;
      X.run(string("interfaces ") + kname(k) + " division " + S(cut) + " order " + S(p) + " shape " + S(bend) + " terms " + S(it), [=]() {
         static const int at4[8][4] = {{1, 2, 1, 2}, {1, 2, 3, 4}, {2, 1, 1, 2}, {1, 1, 2, 3}, {1, 2, 2, 2}, {3, 2, 1, 1}, {4, 2, 3, 1}, {1, 2, 2, 3}}; Mesh b = topo::box((topo::Kind) k, 2, 2); vector<int> at; for (int e = 0; e < b.GetNE(); e++) { P3 c = topo::elemCentre(b, e); at.push_back(at4[cut][(c[0] > 1) + 2 * (c[1] > 1)]); }
         Mesh m = topo::rebuild(b, at, {0, 1, 2, 3, bend}); distort(m, bend); SubMeshTopologyHandler th(&m); const int c = cut + p + bend + it; IForm F(th, p, c % 2, {2, 1, 3, 4}, iterms[it], 1 + c % 3); F.everything(c, c % 3); }); }
   // ---- interfaces of components: samples shared by ports of the same kind
   struct Grid { const char *n; vector<array<int, 3>> c; vector<int> comp; array<int, 3> per; };
   vector<Grid> gs = {{"ab", {{{0, 0, 0}}, {{1, 0, 0}}}, {0, 1}, {{0, 0, 0}}}, {"ba stacked", {{{0, 1, 0}}, {{0, 0, 0}}}, {1, 0}, {{0, 0, 0}}}, {"aa", {{{0, 0, 0}}, {{1, 0, 0}}}, {0, 0}, {{0, 0, 0}}}, {"aaaa", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}, {0, 0, 0, 0}, {{0, 0, 0}}}, {"abba", {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}}, {0, 1, 1, 0}, {{0, 0, 0}}}, {"aba", {{{2, 0, 0}}, {{1, 0, 0}}, {{0, 0, 0}}}, {0, 1, 0}, {{0, 0, 0}}}, {"ring", {{{0, 0, 0}}, {{1, 0, 0}}}, {0, 1}, {{2, 0, 0}}}, {"aab", {{{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}}, {0, 0, 1}, {{0, 0, 0}}}};
   for (int k : kinds) for (size_t g = 0; g < gs.size(); g++) for (int flip = 0; flip < 4; flip++) for (int tr = 0; tr < 4; tr++) {
      if (kdim(k) == 3 && (gs[g].c.size() > 3 || (flip + tr) % 2) && !T) continue; if (kdim(k) == 3 && tr == 3 && !T) continue;
      X.run(string("components ") + kname(k) + " " + gs[g].n + " flip " + S(flip) + (tr ? " training " + S(tr) : ""), [=]() {
         const Grid &G = gs[g]; const topo::Kind kk = (topo::Kind) k; const int n = kdim(k) == 3 ? 1 : 2; Setup s; s.names = {"a", "b"}; s.files = {meshFile(kk, n, n, 1, {flip, 0, 1}), meshFile(kk, n, n, 1, {2, flip}, 1)}; bool two = false; for (int c : G.comp) two |= c == 1; if (!two) { s.names.pop_back(); s.files.pop_back(); }
         for (size_t m = 0; m < G.c.size(); m++) place(s, G.comp[m], G.c[m], 0); connect(s, kdim(k), G.c, flip, 0, {}, G.per);
         components(s, [&]() { if (tr) config.dict_["model_reduction"]["eqp"]["criterion"] = tr == 2 ? "linf" : "l2"; ComponentTopologyHandler th; const int c = flip + (int) g; IForm F(th, 1, c % 2, {2, 3}, {{1, false}, {1, false}}, 1 + (c % 2)); shifts(F, s);
            if (!tr) { F.everything(c, 0); F.everything(c + 1, 1 + c % 3); string file = vc::tmpfile("rt.h5"); F.sampling(SCRAMBLED, 3); auto keep = F.s; F.save(file); F.sampling(EMPTY_, 0); F.evaluate("no samples", 2); F.load(file); F.s = keep; F.evaluate("samples loaded again", 2); F.f->PrecomputeCoefficients(); F.f->SetPrecomputeMode(true); F.evaluate("samples loaded again, precomputed", 3); unlink(file.c_str()); }
            else { F.basis(c, tr == 3 ? 0 : c % 3); F.trained(1 + tr % 3, tr == 3 ? 1e-6 : 0.02, tr == 2 ? "linf" : "l2", c % 2 * 4); F.evaluate("trained form", 6); F.f->PrecomputeCoefficients(); F.f->SetPrecomputeMode(true); F.evaluate("trained form, precomputed", 7); } }); }); }
}
