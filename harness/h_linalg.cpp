// C12: algebra kernels against naive loops, for all shapes and row selections within bounds.
#define VC_MAIN
#define VC_NO_MPI
#include "vc.hpp"
#include "linalg_utils.hpp"
#include <memory>
#include <fstream>
using namespace std; using namespace mfem; using vc::X; using vc::S;

// size of all inputs of a case: the kernels have no length scale
static double SC = 1;
struct Sized { Sized(double s) { SC = s; } ~Sized() { SC = 1; } };
static double hv(unsigned a, unsigned b, unsigned c) { unsigned h = a * 2654435761u ^ (b + 17) * 40503u ^ (c + 5) * 69069u; h ^= h >> 13; h *= 2246822519u; h ^= h >> 15; return (int(h % 4001) - 2000) / 1000.0; }
static DenseMatrix dm(int h, int w, int s) { DenseMatrix m(h, w); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) m(i, j) = SC * (hv(s, i, j) + (i == j ? 0.7 : 0)); return m; }
static Vector dv(int n, int s) { Vector v(n); for (int i = 0; i < n; i++) v[i] = SC * (hv(s, i, 77) + 0.01); return v; }
static DenseTensor dt(int a, int b, int c, int s) { DenseTensor t(a, b, c); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) t(i, j, k) = SC * hv(s + k, i, j); return t; }
static SparseMatrix *sp(int h, int w, int s, unsigned pat = ~0u) { SparseMatrix *m = new SparseMatrix(h, w); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (pat >> ((i * w + j) % 31) & 1) m->Set(i, j, SC * hv(s, i, j)); m->Finalize(); return m; }
static double unitOf(double mx) { double f = SC < 1 ? 1e-3 * SC * SC * SC : 1e-3; mx = max(mx, f); return mx > 0 ? mx : 1; }
template <class A, class B> static void cmpM(const A &g, const B &w, const string &m, double tol = 1e-10) { vc::eq(g.Height(), w.Height(), m + " height"); vc::eq(g.Width(), w.Width(), m + " width"); double u = 0; for (int i = 0; i < w.Height(); i++) for (int j = 0; j < w.Width(); j++) u = max(u, fabs(w(i, j))); u = unitOf(u); for (int i = 0; i < w.Height(); i++) for (int j = 0; j < w.Width(); j++) vc::near(g(i, j) / u, w(i, j) / u, m + " entry " + S(i) + "," + S(j), 0, tol); }
static void cmpV(const Vector &g, const Vector &w, const string &m) { vc::eq(g.Size(), w.Size(), m + " size"); double u = unitOf(w.Normlinf()); for (int i = 0; i < w.Size(); i++) vc::near(g[i] / u, w[i] / u, m + " entry " + S(i), 0, 1e-10); }
static DenseMatrix rtap(const DenseMatrix &R, const DenseMatrix &A, const DenseMatrix &P) { DenseMatrix o(R.Width(), P.Width()); o = 0.0; for (int i = 0; i < R.Width(); i++) for (int j = 0; j < P.Width(); j++) for (int p = 0; p < R.Height(); p++) for (int q = 0; q < P.Height(); q++) o(i, j) += R(p, i) * A(p, q) * P(q, j); return o; }
static DenseMatrix lin(double a, const DenseMatrix &x, double b, const DenseMatrix &y) { DenseMatrix o(x.Height(), x.Width()); for (int i = 0; i < x.Height(); i++) for (int j = 0; j < x.Width(); j++) o(i, j) = a * x(i, j) + b * y(i, j); return o; }
static DenseMatrix dense(const SparseMatrix &m) { DenseMatrix o(m.Height(), m.Width()); o = 0.0; for (int i = 0; i < m.Height(); i++) for (int j = 0; j < m.Width(); j++) o(i, j) = const_cast<SparseMatrix &>(m)(i, j); return o; }
static double elem(SparseMatrix &m, int i, int j) { double v = 0; Array<int> c; Vector r; m.GetRow(i, c, r); for (int k = 0; k < c.Size(); k++) if (c[k] == j) v += r[k]; return v; }
static DenseMatrix denseRows(SparseMatrix &m) { DenseMatrix o(m.Height(), m.Width()); for (int i = 0; i < m.Height(); i++) for (int j = 0; j < m.Width(); j++) o(i, j) = elem(m, i, j); return o; }
static void hashout(const DenseMatrix &m) { vc::Hash h; for (int i = 0; i < m.Height(); i++) for (int j = 0; j < m.Width(); j++) h.add(m(i, j)); X.outcome(h.h); }

struct RandOp : Operator { DenseMatrix m; RandOp(const DenseMatrix &a) : Operator(a.Height(), a.Width()), m(a) {} void Mult(const Vector &x, Vector &y) const override { y.SetSize(height); m.Mult(x, y); } };

// nonlinear/linear residual for the optimiser
struct Res : Operator
{
   DenseMatrix A; double nl; mutable DenseMatrix J;
   Res(const DenseMatrix &a, double n) : Operator(a.Height(), a.Width()), A(a), nl(n) {}
   void Mult(const Vector &x, Vector &y) const override { A.Mult(x, y); for (int i = 0; i < height && i < width; i++) y[i] += nl * x[i] * x[i] * x[i]; }
   Operator &GetGradient(const Vector &x) const override { J = A; for (int i = 0; i < height && i < width; i++) J(i, i) += 3 * nl * x[i] * x[i]; return J; }
};

static void rows(int h, int maxlen, const function<void(const vector<int> &)> &f) { for (int l = 1; l <= maxlen; l++) vc::product(vector<int>(l, h), f); }
static Array<int> arr(const vector<int> &v) { Array<int> a(v.size()); for (size_t i = 0; i < v.size(); i++) a[i] = v[i]; return a; }

// a case for inputs of ordinary size, and for small, large and zero inputs
static void sized(const string &n, const function<void()> &f) { for (double sc : {1.0, 1e-5, 1e4, 0.0}) X.run(sc == 1 ? n : n + " size " + S(sc), [=]() { Sized q(sc); f(); }); }

void vc_main()
{
   const int N = X.thorough ? 5 : 4;
   // --- projections R^T A P
   for (int a = 1; a <= N; a++) for (int b = 1; b <= N; b++) for (int r = 1; r <= N; r++) for (int c = 1; c <= N; c++)
      sized("project A" + S(a) + "x" + S(b) + " R" + S(r) + " P" + S(c), [=]() {
         DenseMatrix R = dm(a, r, 1), P = dm(b, c, 2), A0 = dm(a, b, 3);
         for (int kind = 0; kind < 5; kind++)
         {
            unique_ptr<Operator> op; DenseMatrix A = A0;
            if (kind == 0) op.reset(new DenseMatrix(A0)); else if (kind == 4) op.reset(new RandOp(A0));
            else { unsigned pat = kind == 1 ? ~0u : kind == 2 ? 0x5B6DB6DBu : 1u; SparseMatrix *s = sp(a, b, 4, pat); A = denseRows(*s); op.reset(s); }
            const DenseMatrix R0 = R, P0 = P, W = rtap(R, A, P);
            DenseMatrix G(2, 3); G = 5.0; RtAP(R, *op, P, G); cmpM(G, W, "RtAP"); RtAP(R, *op, P, G); cmpM(G, W, "RtAP again");
            unique_ptr<DenseMatrix> D(DenseRtAP(R, *op, P)); cmpM(*D, W, "DenseRtAP");
            unique_ptr<SparseMatrix> Q(SparseRtAP(R, *op, P)); vc::check(Q->Finalized(), "SparseRtAP result is not finalized"); vc::eq(Q->Height(), r, "h"); vc::eq(Q->Width(), c, "w"); cmpM(denseRows(*Q), W, "SparseRtAP");
            for (double w : {1.0, -2.5, 0.0})
            {
               DenseMatrix acc = dm(r, c, 9), acc0 = acc; AddwRtAP(R, *op, P, acc, w); cmpM(acc, lin(1, acc0, w, W), "AddwRtAP dense"); AddwRtAP(R, *op, P, acc, 1.0); cmpM(acc, lin(1, acc0, w + 1, W), "AddwRtAP twice");
               SparseMatrix sa(r, c); for (int i = 0; i < r; i++) sa.Add(i, (i * 2) % c, 1.5); DenseMatrix s0 = denseRows(sa); AddwRtAP(R, *op, P, sa, w); AddwRtAP(R, *op, P, sa, w); cmpM(denseRows(sa), lin(1, s0, 2 * w, W), "AddwRtAP sparse");
            }
            DenseMatrix acc = dm(r, c, 9), acc0 = acc; AddwRtAP(R, *op, P, acc); cmpM(acc, lin(1, acc0, 1, W), "AddwRtAP default weight");
            cmpM(R, R0, "R changed"); cmpM(P, P0, "P changed"); X.transitions += 8; hashout(W);
         }
      });
   // --- larger shapes of the same kernels (remainders of any blocking, long loops)
   { vector<int> big = {1, 5, 8, 9, 17, 33}; if (X.thorough) big.push_back(64), big.push_back(130);
   for (int a : big) for (int b : big) for (int r : {1, 3, 9}) for (int c : {2, 8})
      sized("project large A" + S(a) + "x" + S(b) + " R" + S(r) + " P" + S(c), [=]() {
         DenseMatrix R = dm(a, r, 1), P = dm(b, c, 2), A0 = dm(a, b, 3);
         for (int kind = 0; kind < 3; kind++)
         {
            unique_ptr<Operator> op; DenseMatrix A = A0; if (kind == 0) op.reset(new DenseMatrix(A0)); else if (kind == 1) op.reset(new RandOp(A0)); else { SparseMatrix *s = sp(a, b, 4, 0x5B6DB6DBu); A = denseRows(*s); op.reset(s); }
            const DenseMatrix W = rtap(R, A, P); DenseMatrix G; RtAP(R, *op, P, G); cmpM(G, W, "RtAP"); unique_ptr<DenseMatrix> D(DenseRtAP(R, *op, P)); cmpM(*D, W, "DenseRtAP"); unique_ptr<SparseMatrix> Q(SparseRtAP(R, *op, P)); cmpM(denseRows(*Q), W, "SparseRtAP");
            DenseMatrix acc = dm(r, c, 9), acc0 = acc; AddwRtAP(R, *op, P, acc, -2.5); cmpM(acc, lin(1, acc0, -2.5, W), "AddwRtAP dense"); SparseMatrix sa(r, c); AddwRtAP(R, *op, P, sa, 0.5); AddwRtAP(R, *op, P, sa, 1.0); cmpM(denseRows(sa), lin(0, W, 1.5, W), "AddwRtAP sparse"); X.transitions += 6; hashout(W);
         }
      });
   for (int h : big) for (int w : big) for (int how = 0; how < 4; how++) sized("rows large " + S(h) + "x" + S(w) + " how " + S(how), [=]() {
         vector<int> rs; for (int i = 0; i < (how == 3 ? 2 * h + 1 : h); i++) if (how != 1 || i % 2) rs.push_back(how == 2 ? h - 1 - i : how == 3 ? (7 * i + 3) % h : i); if (rs.empty()) rs.push_back(0);
         DenseMatrix M = dm(h, w, 5); Array<int> R = arr(rs); const int n = rs.size(); Vector x = dv(w, 1), xt = dv(n, 2), want(n), wt(w), g; wt = 0.0;
         for (int i = 0; i < n; i++) { want[i] = 0; for (int j = 0; j < w; j++) { want[i] += M(rs[i], j) * x[j]; wt[j] += M(rs[i], j) * xt[i]; } }
         MultSubMatrix(M, R, x, g); cmpV(g, want, "MultSubMatrix"); Vector q(w); q = 3.0; MultTransposeSubMatrix(M, R, xt, q); cmpV(q, wt, "MultTransposeSubMatrix"); AddMultTransposeSubMatrix(M, R, xt, q); wt *= 2.0; cmpV(q, wt, "AddMultTransposeSubMatrix"); X.transitions += 3;
         DenseMatrix A = dm(n, 4, 8), P = dm(6, 3, 2), Rs(n, w), Ps(4, 3); Array<int> a2({5, 0, 3, 5}); for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) Rs(i, j) = M(rs[i], j); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) Ps(i, j) = P(a2[i], j);
         DenseMatrix W = rtap(Rs, A, Ps), acc; AddSubMatrixRtAP(M, R, A, P, a2, acc); cmpM(acc, W, "AddSubMatrixRtAP"); SparseMatrix sa(w, 3); AddSubMatrixRtAP(M, R, A, P, a2, sa); cmpM(denseRows(sa), W, "AddSubMatrixRtAP sparse");
         Array<int> d(n); Vector e(n); for (int i = 0; i < n; i++) { d[i] = i % 3 == 1 ? -1 - rs[i] : rs[i]; } for (int c = 0; c < w; c++) { GetBasisElement(M, c, d, g); for (int i = 0; i < n; i++) e[i] = (i % 3 == 1 ? -1 : 1) * M(rs[i], c); cmpV(g, e, "basis element"); X.transitions++; }
      });
   for (int I : {1, 6, 9, 17}) for (int J : {1, 7, 10, 16}) for (int K : {1, 5, 8, 13}) sized("tensor large " + S(I) + "x" + S(J) + "x" + S(K), [=]() {
         DenseTensor T = dt(I, J, K, 3); Vector xi = dv(I, 1), xj = dv(J, 2), xk = dv(K, 3), w(K), g; for (int k = 0; k < K; k++) { w[k] = 0; for (int i = 0; i < I; i++) for (int j = 0; j < J; j++) w[k] += T(i, j, k) * xi[i] * xj[j]; }
         TensorContract(T, xi, xj, g); cmpV(g, w, "TensorContract"); { Vector q = dv(K, 8), e(q); TensorAddScaledContract(T, -0.5, xi, xj, q); e.Add(-0.5, w); cmpV(q, e, "TensorAddScaledContract"); }
         DenseMatrix M(I, J), W(I, J), MJ = dm(I, K, 2), WJ = MJ, m0 = dm(K, J, 2), w0 = m0, m1 = dm(K, I, 2), w1 = m1; W = 0.0; for (int i = 0; i < I; i++) for (int j = 0; j < J; j++) for (int k = 0; k < K; k++) { const double t = T(i, j, k); W(i, j) += t * xk[k]; WJ(i, k) += t * xj[j]; w0(k, j) -= 1.5 * t * xi[i]; w1(k, i) += t * xj[j]; }
         TensorMult(T, xk, M); cmpM(M, W, "TensorMult"); TensorAddMultOnJ(T, xj, MJ); cmpM(MJ, WJ, "TensorAddMultOnJ"); TensorAddScaledMultTranspose(T, -1.5, xi, 0, m0); cmpM(m0, w0, "TensorAddScaledMultTranspose axis 0"); TensorAddMultTranspose(T, xj, 1, m1); cmpM(m1, w1, "TensorAddMultTranspose axis 1"); X.transitions += 6; hashout(W);
      });
   }
   // --- row-restricted products: all selections (unsorted, repeated)
   for (int h = 1; h <= N; h++) for (int w = 1; w <= N; w++) rows(h, h <= 2 ? 4 : 3, [&](const vector<int> &rs) {
      sized("rows " + S(h) + "x" + S(w) + " [" + vc::str(rs) + "]", [=]() {
         DenseMatrix M = dm(h, w, 5); Array<int> R = arr(rs); const int n = rs.size(); Vector x = dv(w, 1), xt = dv(n, 2), y, want(n), wt(w);
         for (int i = 0; i < n; i++) { want[i] = 0; for (int j = 0; j < w; j++) want[i] += M(rs[i], j) * x[j]; }
         for (int j = 0; j < w; j++) { wt[j] = 0; for (int i = 0; i < n; i++) wt[j] += M(rs[i], j) * xt[i]; }
         for (int pre : {0, 1, 2}) { Vector g(pre == 0 ? 0 : pre == 1 ? n : n + 3); g = 8.0; MultSubMatrix(M, R, x, g); cmpV(g, want, "MultSubMatrix"); }
         Vector g(w), g0 = dv(w, 6); g = 3.0; MultTransposeSubMatrix(M, R, xt, g); cmpV(g, wt, "MultTransposeSubMatrix"); MultTransposeSubMatrix(M, R, xt, g); cmpV(g, wt, "MultTransposeSubMatrix again");
         g = g0; AddMultTransposeSubMatrix(M, R, xt, g); Vector e(g0); e += wt; cmpV(g, e, "AddMultTransposeSubMatrix"); AddMultTransposeSubMatrix(M, R, xt, g); e += wt; cmpV(g, e, "AddMultTransposeSubMatrix twice");
         X.transitions += 7; vc::Hash hh; for (int i = 0; i < n; i++) hh.add(want[i]); for (int j = 0; j < w; j++) hh.add(wt[j]); X.outcome(hh.h);
      }); });
   for (int h1 = 1; h1 <= 3; h1++) for (int h2 = 1; h2 <= 3; h2++) rows(h1, 2, [&](const vector<int> &r1) { rows(h2, 3, [&](const vector<int> &r2) {
      sized("subRtAP R" + S(h1) + "[" + vc::str(r1) + "] P" + S(h2) + "[" + vc::str(r2) + "]", [=]() {
         for (int cr = 1; cr <= 3; cr++) for (int cp = 1; cp <= 3; cp++)
         {
            DenseMatrix R = dm(h1, cr, 1), P = dm(h2, cp, 2), A = dm(r1.size(), r2.size(), 3), Rs(r1.size(), cr), Ps(r2.size(), cp);
            for (size_t i = 0; i < r1.size(); i++) for (int j = 0; j < cr; j++) Rs(i, j) = R(r1[i], j); for (size_t i = 0; i < r2.size(); i++) for (int j = 0; j < cp; j++) Ps(i, j) = P(r2[i], j);
            DenseMatrix W = rtap(Rs, A, Ps), acc = dm(cr, cp, 4), acc0 = acc; Array<int> a1 = arr(r1), a2 = arr(r2);
            AddSubMatrixRtAP(R, a1, A, P, a2, acc); cmpM(acc, lin(1, acc0, 1, W), "AddSubMatrixRtAP"); AddSubMatrixRtAP(R, a1, A, P, a2, acc); cmpM(acc, lin(1, acc0, 2, W), "AddSubMatrixRtAP twice");
            DenseMatrix fresh; AddSubMatrixRtAP(R, a1, A, P, a2, fresh); cmpM(fresh, W, "AddSubMatrixRtAP into an empty matrix");
            SparseMatrix sa(cr, cp); sa.Add(0, 0, 2.0); DenseMatrix s0 = denseRows(sa); AddSubMatrixRtAP(R, a1, A, P, a2, sa); AddSubMatrixRtAP(R, a1, A, P, a2, sa); cmpM(denseRows(sa), lin(1, s0, 2, W), "AddSubMatrixRtAP sparse");
            X.transitions += 5; hashout(W);
         } }); }); });
   // --- tensors
   for (int I = 1; I <= N; I++) for (int J = 1; J <= N; J++) for (int K = 1; K <= N; K++)
      sized("tensor " + S(I) + "x" + S(J) + "x" + S(K), [=]() {
         DenseTensor T = dt(I, J, K, 3); Vector xi = dv(I, 1), xj = dv(J, 2), xk = dv(K, 3), y, w(K);
         for (int k = 0; k < K; k++) { w[k] = 0; for (int i = 0; i < I; i++) for (int j = 0; j < J; j++) w[k] += T(i, j, k) * xi[i] * xj[j]; }
         for (int pre : {0, 1, 2}) { Vector g(pre == 0 ? 0 : pre == 1 ? K : K + 2); g = 4.0; TensorContract(T, xi, xj, g); cmpV(g, w, "TensorContract"); }
         for (double c : {1.0, -0.5, 3.0, 0.0}) { Vector g = dv(K, 8), e(g); TensorAddScaledContract(T, c, xi, xj, g); e.Add(c, w); cmpV(g, e, "TensorAddScaledContract"); TensorAddScaledContract(T, c, xi, xj, g); e.Add(c, w); cmpV(g, e, "TensorAddScaledContract twice"); }
         DenseMatrix M(I, J), W(I, J); M = 6.0; for (int i = 0; i < I; i++) for (int j = 0; j < J; j++) { W(i, j) = 0; for (int k = 0; k < K; k++) W(i, j) += T(i, j, k) * xk[k]; }
         TensorMult(T, xk, M); cmpM(M, W, "TensorMult"); TensorMult(T, xk, M); cmpM(M, W, "TensorMult again"); { Vector z(K); z = 0.0; M = 6.0; TensorMult(T, z, M); DenseMatrix Z(I, J); Z = 0.0; cmpM(M, Z, "TensorMult by zero"); }
         DenseMatrix MJ = dm(I, K, 2), WJ = MJ; for (int i = 0; i < I; i++) for (int k = 0; k < K; k++) for (int j = 0; j < J; j++) WJ(i, k) += T(i, j, k) * xj[j]; TensorAddMultOnJ(T, xj, MJ); cmpM(MJ, WJ, "TensorAddMultOnJ");
         DenseMatrix m0 = dm(K, J, 2), w0 = m0, m1 = dm(K, I, 2), w1 = m1, ms0 = m0, ws0 = m0, ms1 = m1, ws1 = m1;
         for (int i = 0; i < I; i++) for (int j = 0; j < J; j++) for (int k = 0; k < K; k++) { w0(k, j) += T(i, j, k) * xi[i]; w1(k, i) += T(i, j, k) * xj[j]; ws0(k, j) -= 1.5 * T(i, j, k) * xi[i]; ws1(k, i) -= 1.5 * T(i, j, k) * xj[j]; }
         TensorAddMultTranspose(T, xi, 0, m0); cmpM(m0, w0, "TensorAddMultTranspose axis 0"); TensorAddMultTranspose(T, xj, 1, m1); cmpM(m1, w1, "TensorAddMultTranspose axis 1");
         TensorAddScaledMultTranspose(T, -1.5, xi, 0, ms0); cmpM(ms0, ws0, "TensorAddScaledMultTranspose axis 0"); TensorAddScaledMultTranspose(T, -1.5, xj, 1, ms1); cmpM(ms1, ws1, "TensorAddScaledMultTranspose axis 1");
         // the Jacobian of the contraction is the sum of the two transposed products (what a Newton iteration relies on)
         if (I == J) { DenseMatrix jac(K, I); jac = 0.0; TensorAddMultTranspose(T, xi, 0, jac); TensorAddMultTranspose(T, xi, 1, jac); Vector p(xi), q(xi), fp(K), fq(K), jd(K), d = dv(I, 9); p.Add(0.5, d); q.Add(-0.5, d); TensorContract(T, p, p, fp); TensorContract(T, q, q, fq); jac.Mult(d, jd); fp -= fq; cmpV(jd, fp, "Jacobian of the quadratic form"); }
         X.transitions += 14; hashout(W);
      });
   // --- orthonormalisation
   for (int h = 1; h <= 6; h++) for (int c1 = 0; c1 <= h; c1++) for (int c = 1; c + c1 <= h; c++) for (int s = 0; s < (X.thorough ? 8 : 3); s++)
      for (double bs : {1.0, 1e-6, 1e5}) for (double ms : {1.0, 1e-8, 1e6}) X.run("orthonormalize " + S(h) + ": " + S(c1) + "+" + S(c) + " seed " + S(s) + (bs == 1 ? "" : " basis size " + S(bs)) + (ms == 1 ? "" : " size " + S(ms)), [=]() {
         if (!c1 && bs != 1) return; DenseMatrix B = dm(h, max(c1, 1), s + 1), M = dm(h, c, s + 20), M0 = M; M *= ms;
         // first block must have orthogonal (not normal) columns for a projection; scale them
         if (c1) { modifiedGramSchmidt(B); for (int j = 0; j < c1; j++) for (int i = 0; i < h; i++) B(i, j) *= (j % 2 ? -3.0 : 0.5) * bs; }
         DenseMatrix B0 = B, Bu = B; Bu *= 1 / bs;
         if (c1) Orthonormalize(B, M); else modifiedGramSchmidt(M);
         if (c1) cmpM(B, B0, "the fixed basis changed");
         for (int a = 0; a < c; a++) { for (int b = 0; b < c; b++) { double d = 0; for (int i = 0; i < h; i++) d += M(i, a) * M(i, b); vc::near(d, a == b, "column product", 0, 1e-8); } if (c1) for (int b = 0; b < c1; b++) { double d = 0; for (int i = 0; i < h; i++) d += M(i, a) * Bu(i, b); vc::near(d, 0, "orthogonality to the fixed basis", 0, 1e-7); } }
         // same span: the old columns are reproduced by projection on both bases
         for (int a = 0; a < c; a++) { Vector r(h); for (int i = 0; i < h; i++) r[i] = M0(i, a); for (int b = 0; b <= a; b++) { double d = 0; for (int i = 0; i < h; i++) d += M(i, b) * M0(i, a); for (int i = 0; i < h; i++) r[i] -= d * M(i, b); }
            if (c1) for (int b = 0; b < c1; b++) { double d = 0, n = 0; for (int i = 0; i < h; i++) { d += B(i, b) * M0(i, a); n += B(i, b) * B(i, b); } for (int i = 0; i < h; i++) r[i] -= d / n * B(i, b); }
            vc::near(r.Norml2(), 0, "column " + S(a) + " left the span", 0, 1e-7); }
         hashout(M); X.transitions++;
      });
   // --- block tables
   const int NB = 2;
   for (int r = 1; r <= 2; r++) for (int c = 1; c <= 2; c++) for (int pat = 0; pat < (1 << (r * c)); pat++) vc::product({3, 3, 3, 3, 4}, [&](const vector<int> &q) {
      if ((r == 1 && q[1]) || (c == 1 && q[3])) return;
      X.run("blocktable " + S(r) + "x" + S(c) + " pat " + S(pat) + " idx " + vc::str(q), [=]() {
         const int bs[3] = {1, 2, 3}; Array<int> off({0, 1, 3, 6}); BlockMatrix bm(off); bm.owns_blocks = true; DenseMatrix W(6, 6); W = 0.0;
         for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if ((q[4] == 1 && i == j) || q[4] == 2 || (q[4] == 3 && (i + j) % 2)) { SparseMatrix *s = sp(bs[i], bs[j], 3 + i + j); bm.SetBlock(i, j, s); for (int a = 0; a < bs[i]; a++) for (int b = 0; b < bs[j]; b++) W(off[i] + a, off[j] + b) += elem(*s, a, b); }
         Array<int> ri(r), ci(c); for (int i = 0; i < r; i++) ri[i] = q[i]; for (int j = 0; j < c; j++) ci[j] = q[2 + j];
         MatrixBlocks mb(r, c); vc::eq(mb.nrows, r, "rows"); vc::eq(mb.ncols, c, "cols");
         for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { vc::check(mb(i, j) == NULL, "a new table is not empty"); if (pat >> (i * c + j) & 1) { mb(i, j) = sp(bs[ri[i]], bs[ci[j]], 7 + i * 2 + j); for (int a = 0; a < bs[ri[i]]; a++) for (int b = 0; b < bs[ci[j]]; b++) W(off[ri[i]] + a, off[ci[j]] + b) += elem(*mb(i, j), a, b); } }
         AddToBlockMatrix(ri, ci, mb, bm); X.transitions++;
         bm.Finalize(); DenseMatrix G(6, 6); for (int a = 0; a < 6; a++) { Vector e(6), y(6); e = 0.0; e[a] = 1; bm.Mult(e, y); for (int i = 0; i < 6; i++) G(i, a) = y[i]; } cmpM(G, W, "AddToBlockMatrix"); hashout(G);
      }); });
   for (int n1 = 0; n1 <= 2; n1++) for (int m1 = 0; m1 <= 2; m1++) for (int n2 = 0; n2 <= 3; n2++) for (int m2 = 0; m2 <= 2; m2++) for (int how = 0; how < 4; how++) for (int pat = 0; pat < 4; pat++)
      X.run("copytable " + S(n1) + S(m1) + S(n2) + S(m2) + " how " + S(how) + " pat " + S(pat), [=]() {
         unique_ptr<MatrixBlocks> a(new MatrixBlocks(n1, m1)); for (int i = 0; i < n1; i++) for (int j = 0; j < m1; j++) (*a)(i, j) = sp(1, 1, 1);
         MatrixBlocks src(n2, m2); for (int i = 0; i < n2; i++) for (int j = 0; j < m2; j++) if ((i + j + pat) % 2 || pat == 3) src(i, j) = sp(i + 1, j + 1, 4 + i);
         if (how == 0) *a = src; else if (how == 1) { a.reset(new MatrixBlocks(src)); } else if (how == 2) { *a = src; *a = *a; } else { a->SetSize(n2, m2); vc::eq(a->nrows, n2, "rows"); vc::eq(a->ncols, m2, "cols"); for (int i = 0; i < n2; i++) for (int j = 0; j < m2; j++) vc::check((*a)(i, j) == NULL, "a resized table is not empty"); *a = src; }
         vc::eq(a->nrows, n2, "rows"); vc::eq(a->ncols, m2, "cols");
         for (int i = 0; i < n2; i++) for (int j = 0; j < m2; j++) { vc::eq((*a)(i, j) == NULL, src(i, j) == NULL, "presence"); if (src(i, j)) { vc::check((*a)(i, j) != src(i, j), "the copy shares a block with its source"); cmpM(denseRows(*(*a)(i, j)), denseRows(*src(i, j)), "copied block"); } }
         a.reset(); for (int i = 0; i < n2; i++) for (int j = 0; j < m2; j++) if (src(i, j)) vc::near(elem(*src(i, j), 0, 0), hv(4 + i, 0, 0), "the source after destroying the copy");
         X.transitions++;
      });
   // --- basis extraction: all dof lists, negative (orientation-flipped) dofs as MFEM defines them
   for (int h = 1; h <= 3; h++) for (int w = 1; w <= 3; w++) for (int len = 1; len <= 3; len++) vc::product(vector<int>(len, 2 * h), [&](const vector<int> &q) {
      sized("basis " + S(h) + "x" + S(w) + " [" + vc::str(q) + "]", [=]() {
         DenseMatrix B = dm(h, w, 4); Array<int> d(len); for (int i = 0; i < len; i++) d[i] = q[i] < h ? q[i] : -1 - (q[i] - h);
         for (int c = 0; c < w; c++) { Vector g(5), e(len); g = 2.0; GetBasisElement(B, c, d, g); for (int i = 0; i < len; i++) e[i] = q[i] < h ? B(q[i], c) : -B(q[i] - h, c); cmpV(g, e, "basis element"); X.transitions++; }
      }); });
   // dofs of a rotated element: transforming the extracted dofs back gives the entries of the basis
   for (int p = 1; p <= 3; p++) for (int f = 0; f < 6; f++) for (int v = 0; v < 2; v++) X.run("basis transformed order " + S(p) + " faces " + S(f) + " block " + S(v), [=]() {
      ND_TetDofTransformation t(p); Array<int> fo({f, (f + 2) % 6, (f * 3 + 1) % 6, 5 - f}); t.SetFaceOrientations(fo); const int n = t.Size(); DenseMatrix B = dm(2 * n, 4, 4); Array<int> d(n); for (int i = 0; i < n; i++) d[i] = v ? (i % 3 == 1 ? -1 - (2 * n - 1 - i) : 2 * n - 1 - i) : (7 * i + 3) % n;
      for (int c = 0; c < 4; c++) { Vector g, e(n), raw(n); GetBasisElement(B, c, d, g, &t); GetBasisElement(B, c, d, raw); for (int i = 0; i < n; i++) e[i] = d[i] < 0 ? -B(-1 - d[i], c) : B(d[i], c); cmpV(raw, e, "dofs"); t.TransformPrimal(g); cmpV(g, e, "transformed dofs"); X.transitions++; } });
   // --- printing
   for (int h = 1; h <= 3; h++) for (int w = 1; w <= 3; w++) X.run("print " + S(h) + "x" + S(w), [=]() {
      DenseMatrix m = dm(h, w, 2); m(0, 0) = 1.0 / 3e-7; string f = vc::tmpfile("p.txt"); PrintMatrix(m, f); { ifstream i(f); for (int a = 0; a < h; a++) for (int b = 0; b < w; b++) { double v = -99; i >> v; vc::near(v, m(a, b), "printed matrix", 0, 1e-13); } string rest; vc::check(!(i >> rest), "printed too much"); }
      Vector v = dv(h * w, 3); PrintVector(v, f); { ifstream i(f); for (int a = 0; a < h * w; a++) { double x = -99; i >> x; vc::near(x, v[a], "printed vector", 0, 1e-13); } string rest; vc::check(!(i >> rest), "printed too much"); } unlink(f.c_str()); });
   // --- optimiser: all 2x2 matrices with entries in a small set, right-hand sides, starts
   const vector<double> ev = {-1, 0, 1, 2};
   vc::product({4, 4, 4, 4}, [&](const vector<int> &q) {
      double det = ev[q[0]] * ev[q[3]] - ev[q[1]] * ev[q[2]]; if (det == 0) return;
      X.run("optimise " + vc::str(q), [=]() {
         DenseMatrix A(2, 2); for (int k = 0; k < 4; k++) A(k / 2, k % 2) = ev[q[k]];
         for (int nl = 0; nl < 1; nl++) for (int b = 0; b < 4; b++) for (int s = 0; s < 3; s++)
         {
            Res op(A, 0.1 * nl); Vector rhs({b == 0 ? 0.0 : 1.0, b == 1 ? 0.0 : b - 2.5}), x({s * 1.0, s == 1 ? -2.0 : 0.0}); if (s == 2) { DenseMatrix I(A); I.Invert(); I.Mult(rhs, x); x[0] += 1e-1; }
            Vector r(2); op.Mult(x, r); r -= rhs; double j0 = r.Norml2();
            CGOptimizer o; o.SetOperator(op); o.SetMaxIter(300); o.SetRelTol(1e-6); o.SetAbsTol(1e-8); o.Mult(rhs, x);
            op.Mult(x, r); r -= rhs; double j1 = r.Norml2(); vc::check(j1 <= j0 * (1 + 1e-12) + 1e-8, "the objective grew from " + S(j0) + " to " + S(j1)); vc::check(j1 <= max(1e-6 * j0, 1e-8) * 1.0001, "not converged: " + S(j0) + " to " + S(j1)); vc::check(o.GetConverged(), "not flagged as converged");
            X.transitions++; vc::Hash h; h.add(x[0]).add(x[1]); X.outcome(h.h);
         }
      }); });
   // more unknowns, as many or more equations: the least-squares minimiser
   for (int n = 1; n <= 5; n++) for (int m = n; m <= n + 2; m++) for (int seed = 0; seed < (X.thorough ? 12 : 4); seed++) for (int fit = 0; fit < 2; fit++)
      X.run("optimise " + S(m) + "x" + S(n) + " seed " + S(seed) + (fit ? " consistent" : ""), [=]() {
         DenseMatrix A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = 0.5 * hv(seed + 3, i, j) + (i == j ? 3 : 0); Res op(A, 0); Vector x(n), rhs(m), z = dv(n, seed + 5), r(m); if (fit) op.Mult(z, rhs); else rhs = dv(m, seed + 9);
         // normal equations
         DenseMatrix N(n, n); Vector q(n), best(n); for (int i = 0; i < n; i++) { q[i] = 0; for (int k = 0; k < m; k++) q[i] += A(k, i) * rhs[k]; for (int j = 0; j < n; j++) { N(i, j) = 0; for (int k = 0; k < m; k++) N(i, j) += A(k, i) * A(k, j); } } N.Invert(); N.Mult(q, best);
         op.Mult(best, r); r -= rhs; const double jb = r.Norml2(); x = 0.3; op.Mult(x, r); r -= rhs; const double j0 = r.Norml2();
         CGOptimizer o; o.SetOperator(op); o.SetMaxIter(fit ? 300 : 8); o.SetRelTol(1e-7); o.SetAbsTol(1e-9); o.Mult(rhs, x); op.Mult(x, r); r -= rhs; const double j1 = r.Norml2();
         vc::check(j1 <= j0 * (1 + 1e-12), "the objective grew"); vc::check(j1 <= jb + (fit ? 1e-6 : 1e-2) * j0, "not the minimum: " + S(j1) + " instead of " + S(jb)); vc::check(o.GetConverged() || j1 >= max(1e-9, 1e-7 * j0), "not flagged as converged"); vc::check(!o.GetConverged() || j1 <= max(max(1e-9, 1e-7 * j0), jb + 1e-7 * j0), "flagged as converged"); X.transitions++; vc::Hash h; h.add(j1); X.outcome(h.h);
      });
   // the iteration ends with the first iterate that meets either tolerance
   for (int n = 2; n <= 4; n++) for (int nl = 0; nl < 2; nl++) for (int seed = 0; seed < 4; seed++) X.run("optimise until " + S(n) + " nonlinear " + S(nl) + " seed " + S(seed), [=]() {
      DenseMatrix A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = hv(seed + 3, i, j) + (i == j ? 3 : 0); Res op(A, 0.2 * nl); Vector rhs = dv(n, seed + 5); const int K = 12; vector<Vector> x(K + 1, Vector(n)); vector<double> r(K + 1);
      for (int k = 0; k <= K; k++) { x[k] = 0.7; if (k) { CGOptimizer o; o.SetOperator(op); o.SetMaxIter(k); o.SetRelTol(1e-300); o.SetAbsTol(1e-300); o.Mult(rhs, x[k]); } Vector q(n); op.Mult(x[k], q); q -= rhs; r[k] = q.Norml2(); vc::check(!k || r[k] <= r[k - 1] * (1 + 1e-10) + 1e-13, "the objective grew"); }
      for (int kr = 1; kr <= K; kr += 2) for (int ka = 1; ka <= K; ka += 2) for (int mx : {3, K})
      {
         if (!(r[kr] > 1e-9) || !(r[ka] > 1e-9)) continue; const double rt = r[kr] / r[0] * (1 + 1e-6), at = r[ka] * (1 + 1e-6); int k = 1; while (k < mx && !(r[k] < at || r[k] / r[0] < rt)) k++; const bool met = r[k] < at || r[k] / r[0] < rt;
         CGOptimizer o; o.SetOperator(op); o.SetMaxIter(mx); o.SetRelTol(rt); o.SetAbsTol(at); Vector y(n); y = 0.7; o.Mult(rhs, y); vc::check(o.GetConverged() == met, "flag of convergence"); for (int i = 0; i < n; i++) vc::near(y[i], x[k][i], "iterate " + S(k), 0, 1e-12); X.transitions++;
      } });
   X.run("optimise from the solution", [=]() { DenseMatrix A(2, 2); A = 0.0; A(0, 0) = 2; A(1, 1) = 1; Res op(A, 0); Vector x({1.0, 3.0}), rhs(2); op.Mult(x, rhs); CGOptimizer o; o.SetOperator(op); o.SetMaxIter(10); o.SetRelTol(1e-6); o.SetAbsTol(1e-8); o.Mult(rhs, x); vc::near(x[0], 1, "x"); vc::near(x[1], 3, "y"); });
   X.run("optimise from zero to zero", [=]() { DenseMatrix A(3, 2); A = 1.0; A(1, 1) = -2; Res op(A, 0); Vector x(2), rhs(3); x = 0.0; rhs = 0.0; CGOptimizer o; o.SetOperator(op); o.SetMaxIter(10); o.SetRelTol(1e-6); o.SetAbsTol(1e-8); o.Mult(rhs, x); vc::near(x[0], 0, "x"); vc::near(x[1], 0, "y"); });
   for (int first = 0; first < 2; first++) X.run("optimise twice " + S(first), [=]() { DenseMatrix A(2, 2); A = 1.0; A(1, 1) = -2; A(0, 1) = 7; Res op(A, 0.3); Vector x(2), rhs({1.0, 2.0}); CGOptimizer o; o.SetOperator(op); o.SetRelTol(1e-9); o.SetAbsTol(1e-9);
      if (first) { o.SetMaxIter(500); x = 0.5; o.Mult(rhs, x); vc::check(o.GetConverged(), "first run did not converge"); }
      o.SetMaxIter(1); x = 3.0; o.Mult(rhs, x); Vector r(2); op.Mult(x, r); r -= rhs; vc::check(r.Norml2() > 1e-4, "harness: one step suffices"); vc::check(!o.GetConverged(), "a run that did not converge is flagged as converged"); });
   // --- sparse matrices in libROM databases; libROM matrix helpers (with the stand-in for libROM)
   for (int h = 1; h <= 3; h++) for (int w = 1; w <= 3; w++) for (unsigned pat = 1; pat < (1u << (h * w)); pat++) { if (h * w > 6 && !X.thorough) continue;
      X.run("sparse file " + S(h) + "x" + S(w) + ":" + S(pat), [=]() { unique_ptr<SparseMatrix> m(sp(h, w, 3, pat)); string f = vc::tmpfile("s.h5"); WriteSparseMatrixToHDF(m.get(), f); unique_ptr<SparseMatrix> g(ReadSparseMatrixFromHDF(f)); vc::eq(g->NumNonZeroElems(), m->NumNonZeroElems(), "entries"); vc::eq(g->Height(), h, "height"); vc::eq(g->Width(), w, "width"); cmpM(denseRows(*g), denseRows(*m), "sparse matrix from a file"); unlink(f.c_str()); }); }
   for (int h = 1; h <= 3; h++) for (int w = 1; w <= 3; w++) X.run("libROM matrices " + S(h) + "x" + S(w), [=]() {
      for (int i0 = 0; i0 <= 4 - h; i0++) for (int j0 = 0; j0 <= 4 - w; j0++)
      {
         CAROM::Matrix b(h, w, false), g(4, 4, false); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) g(i, j) = 100 + i * 4 + j; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) b(i, j) = hv(1, i, j);
         CAROM::SetBlock(b, i0, i0 + h, j0, j0 + w, g); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { bool in = i >= i0 && i < i0 + h && j >= j0 && j < j0 + w; vc::eq(g(i, j), in ? hv(1, i - i0, j - j0) : 100.0 + i * 4 + j, "SetBlock"); }
         CAROM::Vector bv(h, false), gv(4, false); for (int i = 0; i < 4; i++) gv(i) = 50 + i; for (int i = 0; i < h; i++) bv(i) = hv(2, i, 1); CAROM::SetBlock(bv, i0, i0 + h, gv); for (int i = 0; i < 4; i++) vc::eq(gv(i), i >= i0 && i < i0 + h ? hv(2, i - i0, 1) : 50.0 + i, "SetBlock vector");
         DenseMatrix d(1, 5); CAROM::CopyMatrix(b, d); vc::eq(d.Height(), h, "h"); vc::eq(d.Width(), w, "w"); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) vc::eq(d(i, j), b(i, j), "CopyMatrix");
      }
      for (int c = 1; c <= 3; c++) for (int r = 1; r <= 3; r++) { CAROM::Matrix B(w, c, true), C(h, r, true), G(1, 1, false); DenseMatrix R = dm(h, r, 1), P = dm(w, c, 2), A = dm(h, w, 3); for (int i = 0; i < w; i++) for (int j = 0; j < c; j++) B(i, j) = P(i, j); for (int i = 0; i < h; i++) for (int j = 0; j < r; j++) C(i, j) = R(i, j); CAROM::ComputeCtAB(A, B, C, G); DenseMatrix W = rtap(R, A, P), D; CAROM::CopyMatrix(G, D); cmpM(D, W, "ComputeCtAB"); }
   });
}
