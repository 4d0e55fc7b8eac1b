// C09: evaluation at single quadrature points, its sum over all points, and the precomputed evaluation on a reduced basis.
#define VC_MAIN
#define VC_WRAP_SUBMESH
#include "nlref.hpp"
using namespace mfem; using namespace std; using vc::X; using vc::S; using namespace nlref; using topo::QUAD; using topo::TRI; using topo::HEX; using topo::TET;

static string id(const char *what, const NTerm &t, const Site &s) { return string(what) + " of " + t.name + " on " + mname(s.mode); }

// what is stored for a sample: values and gradients of the basis at the point, computed here
struct Basis { DenseMatrix B1, B2; int nb1, nb2; };
static void basisOf(Site &s, int nb1, int nb2, int seed, Basis &b)
{
   b.nb1 = nb1; b.nb2 = s.mode == INTF ? nb2 : nb1; auto fill = [&](DenseMatrix &m, int n, int c, int sd) { m.SetSize(n, c); for (int j = 0; j < c; j++) for (int i = 0; i < n; i++) m(i, j) = seed == 0 && j == 0 ? 0.0 : seed == 1 ? (i % c == j ? 1.0 : 0.0) : irr(sd * 101 + j * 997 + i + 13 * seed); };
   fill(b.B1, s.n1, b.nb1, 1); fill(b.B2, s.n2, b.nb2, 2);
}
static EQPSample *sample(Site &s, const Basis &b, const IntegrationRule &ir, int qp, double qw)
{
   EQPSample *e = new EQPSample(SampleInfo({.el = s.which, .qp = qp, .qw = qw})); const IntegrationPoint &ip = ir.IntPoint(qp); const int d = s.d;
   if (s.mode == ELEM)
   {
      s.bind(); const int n = s.f1->GetDof(); s.T->SetIntPoint(&ip); Vector N(n); DenseMatrix g(n, d), dN(n, d), Ji(d); s.f1->CalcShape(ip, N); s.f1->CalcDShape(ip, g); CalcInverse(s.T->Jacobian(), Ji); Mult(g, Ji, dN); e->shape1 = new DenseMatrix(d, b.nb1); *e->shape1 = 0.0;
      for (int k = 0; k < b.nb1; k++) { DenseMatrix *G = new DenseMatrix(d); *G = 0.0; for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) { (*e->shape1)(a, k) += N(i) * b.B1(a * n + i, k); for (int l = 0; l < d; l++) (*G)(a, l) += dN(i, l) * b.B1(a * n + i, k); } e->dshape1.Append(G); }
   }
   else { FP p = s.point(ip); for (int sd = 0; sd < p.ns; sd++) { const DenseMatrix &B = sd ? b.B2 : b.B1; DenseMatrix *m = new DenseMatrix(d, B.Width()); *m = 0.0; const int n = p.s[sd].N.Size(); for (int k = 0; k < B.Width(); k++) for (int a = 0; a < d; a++) for (int i = 0; i < n; i++) (*m)(a, k) += p.s[sd].N(i) * B(a * n + i, k); (sd ? e->shape2 : e->shape1) = m; } s.bind(); }
   return e;
}
// the reduced unknowns: one set for elements and faces of one mesh, two for interfaces
static int nred(const Site &s, const Basis &b) { return s.mode == INTF ? b.nb1 + b.nb2 : b.nb1; }
static void full(const Site &s, const Basis &b, const Vector &x, Vector &u)
{
   u.SetSize(s.size()); u = 0.0; for (int i = 0; i < s.n1; i++) for (int k = 0; k < b.nb1; k++) u(i) += b.B1(i, k) * x(k); for (int i = 0; i < s.n2; i++) for (int k = 0; k < b.nb2; k++) u(s.n1 + i) += b.B2(i, k) * x((s.mode == INTF ? b.nb1 : 0) + k);
}
static void projector(const Site &s, const Basis &b, DenseMatrix &P) { P.SetSize(s.size(), nred(s, b)); P = 0.0; for (int i = 0; i < s.n1; i++) for (int k = 0; k < b.nb1; k++) P(i, k) = b.B1(i, k); for (int i = 0; i < s.n2; i++) for (int k = 0; k < b.nb2; k++) P(s.n1 + i, (s.mode == INTF ? b.nb1 : 0) + k) += b.B2(i, k); }
// adds to y and J
static void fastVec(Site &s, Made &M, const Basis &b, const EQPSample &e, const Vector &x, Vector &y)
{
   s.bind(); if (s.mode == ELEM) M.hr->AddAssembleVector_Fast(e, *s.T, x, y); else if (s.mode != INTF) M.hr->AddAssembleVector_Fast(e, *s.t1, x, y);
   else { Vector x1(b.nb1), x2(b.nb2), y1(b.nb1), y2(b.nb2); for (int i = 0; i < b.nb1; i++) { x1(i) = x(i); y1(i) = y(i); } for (int i = 0; i < b.nb2; i++) { x2(i) = x(b.nb1 + i); y2(i) = y(b.nb1 + i); } M.itf->AddAssembleVector_Fast(e, *s.t1, *s.t2, x1, x2, y1, y2); for (int i = 0; i < b.nb1; i++) y(i) = y1(i); for (int i = 0; i < b.nb2; i++) y(b.nb1 + i) = y2(i); }
}
static void fastGrad(Site &s, Made &M, const Basis &b, const EQPSample &e, const Vector &x, DenseMatrix &J)
{
   s.bind(); if (s.mode == ELEM) M.hr->AddAssembleGrad_Fast(e, *s.T, x, J); else if (s.mode != INTF) M.hr->AddAssembleGrad_Fast(e, *s.t1, x, J);
   else { Vector x1(b.nb1), x2(b.nb2); for (int i = 0; i < b.nb1; i++) x1(i) = x(i); for (int i = 0; i < b.nb2; i++) x2(i) = x(b.nb1 + i); Array2D<SparseMatrix *> m(2, 2); int n[2] = {b.nb1, b.nb2}, o[2] = {0, b.nb1}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { m(i, j) = new SparseMatrix(n[i], n[j]); for (int r = 0; r < n[i]; r++) for (int c = 0; c < n[j]; c++) m(i, j)->Set(r, c, J(o[i] + r, o[j] + c)); }
      M.itf->AddAssembleGrad_Fast(e, *s.t1, *s.t2, x1, x2, m); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { m(i, j)->Finalize(); DenseMatrix D; m(i, j)->ToDenseMatrix(D); for (int r = 0; r < n[i]; r++) for (int c = 0; c < n[j]; c++) J(o[i] + r, o[j] + c) = D(r, c); delete m(i, j); } }
}

// every point by itself, with several weights; the sum over all points is the full integral
static void points(Site &s, Made &M, const IntegrationRule &ir, int st)
{
   const int n = s.size(); Vector x(n), y, R(n), sum(n), F; DenseMatrix G, J(n), Gs(n), FG; stateOf(x, s.n1, st); sum = 0.0; Gs = 0.0; M.nl->SetIntRule(&ir);
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); const double ws[] = {ip.weight, -0.7, 0.0, 2.3};
      for (int k = 0; k < (q % 3 == 0 ? 4 : 1); k++) { R = 0.0; J = 0.0; s.refPoint(M, ip, ws[k], x, R, J); s.qvec(M, ip, ws[k], x, y); nearV(y, R, id("residual at one point", M.t, s) + ", point " + S(q) + " weight " + S(ws[k]) + " state " + stname(st)); s.qgrad(M, ip, ws[k], x, G); nearM(G, J, id("Jacobian at one point", M.t, s) + ", point " + S(q) + " weight " + S(ws[k]) + " state " + stname(st)); if (k == 0) { sum += y; Gs += G; } }
   }
   s.vec(M, x, F); nearV(sum, F, id("sum over the points", M.t, s) + " state " + stname(st)); s.grad(M, x, FG); nearM(Gs, FG, id("sum of the Jacobians over the points", M.t, s) + " state " + stname(st));
   vc::Hash h; h.add(M.t.name); for (int i = 0; i < n; i++) h.add(F(i)); X.outcome(h.h);
}
// the precomputed evaluation against the projected formula; samples add up, in any order, onto what is there
static void fast(Site &s, Made &M, const IntegrationRule &ir, const Basis &b, int st)
{
   const int r = nred(s, b), nq = ir.GetNPoints(); M.nl->SetIntRule(&ir); Vector x(r), u, y(r), R(s.size()), Rr(r), all(r), want(r); DenseMatrix J(s.size()), P, Jr(r), G(r), Ga(r), Gw(r), T1(s.size(), r); stateOf(x, s.mode == INTF ? b.nb1 : r, st); if (s.mode != INTF && st >= 4) for (int i = 0; i < r; i++) x(i) += 0.1 * st; full(s, b, x, u); projector(s, b, P);
   irregular(want, 71); all = want; for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) Gw(i, j) = irr(3 * i + 17 * j); Ga = Gw; vector<unique_ptr<EQPSample>> es; vector<double> qw;
   for (int q = 0; q < nq; q++)
   {
      qw.push_back(q % 4 == 1 ? 0.0 : 0.5 + irr(q + 5)); es.emplace_back(sample(s, b, ir, q, qw[q])); R = 0.0; J = 0.0; s.refPoint(M, ir.IntPoint(q), qw[q], u, R, J); P.MultTranspose(R, Rr); Mult(J, P, T1); MultAtB(P, T1, Jr);
      Vector x0(x); y = 0.0; fastVec(s, M, b, *es[q], x, y); nearV(y, Rr, id("precomputed residual", M.t, s) + ", point " + S(q) + " state " + stname(st)); G = 0.0; fastGrad(s, M, b, *es[q], x, G); nearM(G, Jr, id("precomputed Jacobian", M.t, s) + ", point " + S(q) + " state " + stname(st)); x0 -= x; vc::eq(x0.Normlinf(), 0.0, "the state was changed");
      want += Rr; Gw += Jr;
   }
   // all samples in a scrambled order, Jacobians and residuals alternating, onto a nonzero start
   for (int k = 0; k < nq; k++) { int q = (k * 7 + 3) % nq; if (nq % 7 == 0) q = nq - 1 - k; if (k % 2) { fastVec(s, M, b, *es[q], x, all); fastGrad(s, M, b, *es[q], x, Ga); } else { fastGrad(s, M, b, *es[q], x, Ga); fastVec(s, M, b, *es[q], x, all); } }
   nearV(all, want, id("sum of precomputed residuals", M.t, s)); nearM(Ga, Gw, id("sum of precomputed Jacobians", M.t, s)); vc::Hash h; h.add(M.t.name); for (int i = 0; i < r; i++) h.add(all(i)); X.outcome(h.h);
}

void vc_main()
{
   config = InputParser(); config.dict_ = YAML::Load("{mesh: {type: submesh}, domain-decomposition: {type: interior_penalty}}");
   const bool T = X.thorough; const vector<NTerm> dt = domainTerms(true), ft = faceTerms(true); const vector<int> kinds = {SEG1, QUAD, TRI, HEX, TET};
   for (int k : kinds) for (int mode : {ELEM, FACE, BDR, INTF}) { if (k == SEG1 && mode == INTF) continue;
      Mesh b0 = boxOf(k, 2); const int R = topo::rotations(b0.GetElementBaseGeometry(0)).size(), cnt = Site::count(k, mode); const bool big = kdim(k) == 3, two = mode == FACE || mode == INTF;
      for (int p1 = 1; p1 <= (big && !T ? 2 : 3); p1++) for (int p2 = 1; p2 <= (two ? (big && !T ? 2 : 3) : 1); p2++) for (int bend = 0; bend < (k == SEG1 ? 3 : 4); bend++) for (int r1 = 0; r1 < R; r1++) for (int r2 = 0; r2 < (two ? R : 1); r2++) {
         if (big && (r1 * 5 + r2 * 3 + bend + p1) % ((T ? 1 : 3) * (two ? 12 : 1))) continue; if (big && p1 * p2 > 4 && (r1 + r2) % 5) continue;
         X.run(string("points ") + kname(k) + " " + mname(mode) + " orders " + S(p1) + "," + S(p2) + " shape " + S(bend) + " vertex orders " + S(r1) + "," + S(r2), [=]() {
            int w0 = big ? (r1 + 7 * r2 + bend) % cnt : 0, w1 = big ? w0 + 1 : cnt; int c = r1 + r2;
            for (int w = w0; w < w1; w++) { Site s(k, mode, p1, p2, bend, {r1, r2}, w); for (auto &t : mode == ELEM ? dt : ft) { if (t.ud && mode != BDR && t.q != 2) continue; Made M(t, s.d, mode); c++;
               for (int st = 0; st < NSTATE; st++) { if (!two && (st == 4 || st == 5)) continue; if ((st + c) % (big ? 4 : T ? 1 : 2)) continue; points(s, M, s.rule((st + c) % 3 ? 2 * max(p1, two ? p2 : p1) : 3), st); } } } });
         X.run(string("precomputed ") + kname(k) + " " + mname(mode) + " orders " + S(p1) + "," + S(p2) + " shape " + S(bend) + " vertex orders " + S(r1) + "," + S(r2), [=]() {
            int w0 = big ? (r1 + 5 * r2 + bend) % cnt : 0, w1 = big ? w0 + 1 : cnt; int c = r1 + r2;
            for (int w = w0; w < w1; w++) { Site s(k, mode, p1, p2, bend, {r1, r2}, w); for (int nb1 = 1; nb1 <= 4; nb1++) for (int nb2 = 1; nb2 <= (mode == INTF ? 4 : 1); nb2++) { if (mode == INTF && !T && (nb1 + nb2 + w + r1) % 2) continue; for (auto &t : mode == ELEM ? dt : ft) { if (t.ud && mode != BDR && t.q != 2) continue; Made M(t, s.d, mode); c++;
               for (int st = 0; st < NSTATE; st++) { if (!two && (st == 4 || st == 5)) continue; if ((st + c) % (big ? 4 : T ? 1 : 3)) continue; Basis b; basisOf(s, nb1, nb2, (c + st / 3) % 4, b); fast(s, M, s.rule((st + c) % 2 ? 2 : 3), b, st); } } } } }); } }
   // higher orders, unequal orders, small and large elements, many basis vectors
   for (int k : kinds) for (int mode : {ELEM, FACE, BDR, INTF}) { if (k == SEG1 && mode == INTF) continue; const bool big = kdim(k) == 3, two = mode == FACE || mode == INTF; const int cnt = Site::count(k, mode), top = k == SEG1 ? 6 : big ? 3 : 5;
      for (int p1 = 1; p1 <= top; p1++) for (int p2 = 1; p2 <= (two ? top : 1); p2++) for (int bend : {0, 2, 3, 4, 5}) { if (k == SEG1 && bend > 2) continue; const bool high = max(p1, p2) > (big ? 2 : 3); if (!high && bend < 4) continue; if (two && abs(p1 - p2) > 1 && min(p1, p2) > 1) continue; if (big && !T && (p1 + p2 + bend) % 2) continue;
         X.run(string("orders ") + kname(k) + " " + mname(mode) + " " + S(p1) + "," + S(p2) + " shape " + S(bend), [=]() {
            const int w = (p1 + 2 * p2 + bend) % cnt; Site s(k, mode, p1, p2, bend, {w + p1, w + bend + 1}, w); int pm = max(p1, two ? p2 : p1), c = w;
            for (auto &t : mode == ELEM ? dt : ft) { if (t.ud && mode != BDR && t.q != 2) continue; c++; if (big && high && c % 2 != p1 % 2) continue; Made M(t, s.d, mode); for (int st = 2; st < NSTATE; st++) { if (!two && (st == 4 || st == 5)) continue; if ((st + c) % (big ? 4 : 3)) continue; points(s, M, s.rule(big || high ? pm + 1 : 2 * pm + 1), st); Basis b; basisOf(s, 5 + (st + c) % 4, 4 + (c + w) % 5, 2 + c % 3, b); fast(s, M, s.rule(2 + c % 2), b, st); } } }); } }
   // basis sizes up to a dozen, unequal on the two sides
   for (int k : {QUAD, TRI, HEX}) for (int mode : {ELEM, FACE, BDR, INTF}) for (int nb1 = 1; nb1 <= 12; nb1++) for (int nb2 = 1; nb2 <= (mode == INTF ? 12 : 1); nb2++) { if (kdim(k) == 3 && (nb1 + nb2) % 3) continue; X.run(string("basis sizes ") + kname(k) + " " + mname(mode) + " " + S(nb1) + "," + S(nb2), [=]() { Site s(k, mode, 1, 2, 2, {1, 2}, 0); for (auto &t : mode == ELEM ? dt : ft) { if (t.q != 2) continue; Made M(t, s.d, mode); for (int st : {2, 6, 7}) { if ((st + nb1 + nb2) % 2) continue; Basis b; basisOf(s, nb1, nb2, 2 + st % 2, b); fast(s, M, s.rule(2), b, st); } } }); }
   // a basis as large as the space itself
   for (int k : kinds) for (int mode : {ELEM, FACE, BDR, INTF}) for (int p = 1; p <= 2; p++) for (int bend = 0; bend < 3; bend++) { if (k == SEG1 && mode == INTF) continue; if (kdim(k) == 3 && p == 2 && !T) continue; X.run(string("complete basis ") + kname(k) + " " + mname(mode) + " order " + S(p) + " shape " + S(bend), [=]() { Site s(k, mode, p, p, bend, {1, 2}, 0); for (auto &t : mode == ELEM ? dt : ft) { if (kdim(k) == 3 && t.q != 2) continue; Made M(t, s.d, mode); for (int st : {2, 6, 7}) { Basis b; basisOf(s, s.n1, s.n2, 1 + st % 2, b); fast(s, M, s.rule(2), b, st); } } }); }
   // sequences of evaluations of all kinds through one object
   struct Conf { int k, mode, p1, p2; }; const vector<Conf> cf = {{QUAD, FACE, 1, 2}, {QUAD, BDR, 2, 1}, {QUAD, INTF, 1, 2}, {TRI, BDR, 1, 1}, {HEX, FACE, 1, 1}, {TET, BDR, 1, 1}, {SEG1, FACE, 2, 1}}; const vector<Conf> ce = {{QUAD, ELEM, 1, 1}, {QUAD, ELEM, 2, 1}, {TRI, ELEM, 2, 1}, {TET, ELEM, 1, 1}, {SEG1, ELEM, 2, 1}};
   for (int face = 0; face < 2; face++) for (auto &t : face ? ft : dt) { if (t.q > 2 || (t.q == 1 && !t.ud && !t.vq)) continue; auto &cc = face ? cf : ce; const int n = cc.size(), no = 6 * n;
      for (int a0 = 0; a0 < no; a0++) for (int a1 = 0; a1 < no; a1++) X.run("history " + t.name + " " + S(a0) + "," + S(a1), [=]() {
         auto okc = [&](int c) { return !((t.ud || t.vq) && kdim(cc[c].k) != kdim(cc[a1 / 6].k)); }; if (!okc(a0 / 6)) return; const int d = kdim(cc[a1 / 6].k);
         struct Place { unique_ptr<Site> s; Basis b; unique_ptr<EQPSample> e; Vector x, xr; vector<Vector> v; vector<DenseMatrix> m; const IntegrationRule *ir; int q; }; vector<Place> pl(n);
         auto op = [&](Made &M, int c, int o, Vector &y, DenseMatrix &G) {
            Place &p = pl[c]; Site &s = *p.s; M.nl->SetIntRule(p.ir); int r = nred(s, p.b); const IntegrationPoint &ip = p.ir->IntPoint(p.q);
            if (o == 0) s.vec(M, p.x, y); else if (o == 1) s.grad(M, p.x, G); else if (o == 2) s.qvec(M, ip, 0.8, p.x, y); else if (o == 3) s.qgrad(M, ip, 0.8, p.x, G); else if (o == 4) { y.SetSize(r); y = 0.0; fastVec(s, M, p.b, *p.e, p.xr, y); } else { G.SetSize(r); G = 0.0; fastGrad(s, M, p.b, *p.e, p.xr, G); } };
         for (int c = 0; c < n; c++) { if (!okc(c)) continue; Place &p = pl[c]; p.s.reset(new Site(cc[c].k, cc[c].mode, cc[c].p1, cc[c].p2, 2, {1, 2}, 0)); p.ir = &p.s->rule(2); p.q = p.ir->GetNPoints() - 1; basisOf(*p.s, 2 + c % 2, 3, 2, p.b); p.e.reset(sample(*p.s, p.b, *p.ir, p.q, 0.9)); p.x.SetSize(p.s->size()); stateOf(p.x, p.s->n1, c % 2 ? 6 : 7); p.xr.SetSize(nred(*p.s, p.b)); irregular(p.xr, 5 + c); p.v.resize(6); p.m.resize(6); }
         auto want = [&](int c, int o, Vector &y, DenseMatrix &G) { Place &p = pl[c]; if (p.v[o].Size() == 0 && p.m[o].Height() == 0) { Made F(t, d, ELEM); op(F, c, o, p.v[o], p.m[o]); } y = p.v[o]; G = p.m[o]; };
         for (int a2 = 0; a2 < no; a2++) { if (!okc(a2 / 6) || (!T && (a2 + a0 + a1) % 3)) continue; Made M(t, d, ELEM); int ops[3] = {a0, a1, a2}; for (int i = 0; i < 3; i++) { Vector y, wy; DenseMatrix G, wG; int c = ops[i] / 6, o = ops[i] % 6; op(M, c, o, y, G); want(c, o, wy, wG); if (o % 2) nearM(G, wG, "Jacobian after other evaluations, operation " + S(i), 1e-13); else nearV(y, wy, "residual after other evaluations, operation " + S(i), 1e-13); X.transitions++; } } }); }
   // stored samples come back
   const vector<SampleInfo> pool = {SampleInfo({.el = 0, .qp = 0, .qw = 0.25}), SampleInfo({.el = 3, .qp = 1, .qw = 1e-17}), SampleInfo({.el = 1, .qp = 7, .qw = -0.3}), SampleInfo({.el = 3, .qp = 1, .qw = 0.1})}; const vector<IntegratorType> types = {IntegratorType::DOMAIN, IntegratorType::INTERIORFACE, IntegratorType::BDRFACE, IntegratorType::INTERFACE};
   for (int len : {0, 1, 17, 100, 300}) for (int ty = 0; ty < 4; ty++) X.run("stored samples, " + S(len) + " of them, type " + S(ty), [=]() {
      string f = vc::tmpfile("eqp.h5"); Array<SampleInfo> a; for (int i = 0; i < len; i++) a.Append(SampleInfo({.el = (i * 37) % 101 + (i % 5 ? 0 : 100000), .qp = (i * 11) % 29, .qw = irr(i) * pow(10.0, i % 30 - 20)})); { EQPElement e(a); hid_t fid = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); e.Save(fid, "elem0", types[ty]); H5Fclose(fid); }
      EQPElement g; hid_t fid = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); g.Load(fid, "elem0", types[ty]); H5Fclose(fid); unlink(f.c_str()); vc::eq(g.Size(), len, "samples loaded");
      for (int i = 0; i < len; i++) { EQPSample *s = g.GetSample(i); vc::check(s->info.el == a[i].el && s->info.qp == a[i].qp && s->info.qw == a[i].qw, "sample " + S(i) + " differs"); } });
   for (int len = 1; len <= (T ? 5 : 4); len++) vc::product(vector<int>(len, pool.size()), [&](const vector<int> &pk_) { vector<int> pk = pk_; for (int ty = 0; ty < 4; ty++) X.run("stored samples " + vc::str(pk) + " type " + S(ty), [=]() {
      string f = vc::tmpfile("eqp.h5"); Array<SampleInfo> a; for (int q : pk) a.Append(pool[q]); Array<SampleInfo> other; other.Append(pool[2]); { EQPElement e(a), o(other); vc::eq(e.Size(), (int) pk.size(), "number of samples"); hid_t fid = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); o.Save(fid, "before", types[(ty + 1) % 4]); e.Save(fid, "elem0", types[ty]); o.Save(fid, "after", types[ty]); H5Fclose(fid); }
      EQPElement g, h(a); hid_t fid = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); g.Load(fid, "elem0", types[ty]); h.Load(fid, "after", types[ty]); H5Fclose(fid); unlink(f.c_str()); vc::eq(h.Size(), 1, "samples loaded over others"); vc::eq(g.Size(), (int) pk.size(), "samples loaded");
      for (size_t i = 0; i < pk.size(); i++) { EQPSample *s = g.GetSample(i); vc::check(s->info.el == pool[pk[i]].el && s->info.qp == pool[pk[i]].qp && s->info.qw == pool[pk[i]].qw, "sample " + S(i) + " differs"); vc::check(!s->shape1 && !s->shape2 && s->dshape1.Size() == 0, "a loaded sample has no precomputed values"); } }); });
}
