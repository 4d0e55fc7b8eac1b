// Reference evaluation of face integrals, independent of the code under test: every quadrature point is a point in
// space on a face of the undivided mesh; shape functions of the two sides are evaluated by mapping that point back into
// the element of each side. No face orientation, local face number or interface record is used.
#ifndef VERIF_DGREF_HPP
#define VERIF_DGREF_HPP
#include "vc.hpp"
#include "mfem.hpp"
#include <functional>
#include <memory>

namespace dgref
{
using namespace mfem;
using std::vector; using std::string; using vc::S;

// scale: factor of the coefficient in the element (materials that differ from element to element)
struct Side { int sub, elem; double scale = 1.0; const FiniteElement *fe, *fe2; Vector N, M; DenseMatrix dN; double hinv; };
// one quadrature point: position, unit normal pointing from side 0 to side 1 (outward on a boundary), weight, sides
struct FP { int dim, ns; Vector x, n; double ds; Side s[2]; double avg() const { return ns == 2 ? 0.5 : 1.0; } };

// coefficients as plain functions of position (the code under test gets them as mfem coefficients)
typedef std::function<double(const Vector &)> Fn;
typedef std::function<void(const Vector &, DenseMatrix &)> MFn;

inline void fillSide(Side &s, Mesh &m, int elem, const Vector &x, double nor, const FiniteElement *fe, const FiniteElement *fe2)
{
   s.elem = elem; s.fe = fe; s.fe2 = fe2; ElementTransformation *T = m.GetElementTransformation(elem);
   IntegrationPoint ip; InverseElementTransformation inv(T); inv.SetInitialGuessType(InverseElementTransformation::ClosestPhysNode);
   inv.SetPhysicalRelTol(1e-15); inv.SetReferenceTol(1e-15); inv.SetMaxIter(60); inv.SetElementTol(1e-6); inv.SetSolverType(InverseElementTransformation::Newton);
   inv.Transform(x, ip); Vector y; T->Transform(ip, y); y -= x; vc::check(y.Normlinf() < 1e-10, "harness: cannot map a point back into its element");
   T->SetIntPoint(&ip); const int nd = fe->GetDof(), d = m.Dimension(); s.N.SetSize(nd); s.dN.SetSize(nd, d); fe->CalcShape(ip, s.N); DenseMatrix g(nd, d); fe->CalcDShape(ip, g);
   DenseMatrix Ji(d); CalcInverse(T->Jacobian(), Ji); Mult(g, Ji, s.dN); s.hinv = nor / std::fabs(T->Jacobian().Det());
   if (fe2) { s.M.SetSize(fe2->GetDof()); fe2->CalcShape(ip, s.M); }
}

// bilinear kernels: value at one point for test function (side st, dof i, component ci) and trial function (su, j, cj)
typedef std::function<double(const FP &, int st, int i, int ci, int su, int j, int cj)> Bil;
inline double sgn(int s) { return s ? -1.0 : 1.0; }
inline double dot(const DenseMatrix &g, int j, const Vector &n) { double r = 0; for (int d = 0; d < n.Size(); d++) r += g(j, d) * n(d); return r; }

// -<{Q grad u.n},[v]> + sigma <[u],{Q grad v.n}> + kappa <{Q/h}[u],[v]>, per component
inline Bil diffusion(Fn q, double sigma, double kappa)
{
   return [=](const FP &p, int st, int i, int ci, int su, int j, int cj) {
      if (ci != cj) return 0.0;
      double Q = q(p.x), a = p.avg(), pen = 0; for (int s = 0; s < p.ns; s++) pen += a * Q * p.s[s].scale * p.s[s].hinv;
      return -a * Q * p.s[su].scale * dot(p.s[su].dN, j, p.n) * sgn(st) * p.s[st].N(i) + sigma * a * Q * p.s[st].scale * dot(p.s[st].dN, i, p.n) * sgn(su) * p.s[su].N(j) + kappa * pen * sgn(st) * p.s[st].N(i) * sgn(su) * p.s[su].N(j);
   };
}
inline Bil diffusionMatrix(MFn q, double sigma, double kappa)
{
   return [=](const FP &p, int st, int i, int, int su, int j, int) {
      DenseMatrix M(p.dim); q(p.x, M); Vector m(p.dim); M.MultTranspose(p.n, m); double a = p.avg(), pen = 0; for (int s = 0; s < p.ns; s++) pen += a * (m * p.n) * p.s[s].scale * p.s[s].hinv;
      return -a * p.s[su].scale * dot(p.s[su].dN, j, m) * sgn(st) * p.s[st].N(i) + sigma * a * p.s[st].scale * dot(p.s[st].dN, i, m) * sgn(su) * p.s[su].N(j) + kappa * pen * sgn(st) * p.s[st].N(i) * sgn(su) * p.s[su].N(j);
   };
}
// -<{sigma(u)n},[v]> + alpha <[u],{sigma(v)n}> + kappa <{(lambda+2mu)/h}[u],[v]>
inline Bil elasticity(Fn la, Fn mu, double alpha, double kappa)
{
   return [=](const FP &p, int st, int i, int ci, int su, int j, int cj) {
      double L = la(p.x), M = mu(p.x), a = p.avg(), pen = 0; for (int s = 0; s < p.ns; s++) pen += a * (L + 2 * M) * p.s[s].scale * p.s[s].hinv;
      auto trac = [&](int s, int k, int comp, int dir) { const DenseMatrix &g = p.s[s].dN; return a * p.s[s].scale * (L * g(k, comp) * p.n(dir) + M * ((comp == dir ? dot(g, k, p.n) : 0.0) + g(k, dir) * p.n(comp))); };
      return -trac(su, j, cj, ci) * sgn(st) * p.s[st].N(i) + alpha * trac(st, i, ci, cj) * sgn(su) * p.s[su].N(j) + (ci == cj ? kappa * pen * sgn(st) * p.s[st].N(i) * sgn(su) * p.s[su].N(j) : 0.0);
   };
}
// <{q},[u.n]>: test functions are the second (scalar) space
inline Bil normalFlux() { return [](const FP &p, int st, int i, int, int su, int j, int cj) { return p.avg() * p.s[st].M(i) * sgn(su) * p.s[su].N(j) * p.n(cj); }; }

// forward-mode differentiation for the nonlinear kernels
struct Dual { double v, d; Dual(double v_ = 0, double d_ = 0) : v(v_), d(d_) {} };
inline Dual operator+(Dual a, Dual b) { return Dual(a.v + b.v, a.d + b.d); }
inline Dual operator-(Dual a, Dual b) { return Dual(a.v - b.v, a.d - b.d); }
inline Dual operator-(Dual a) { return Dual(-a.v, -a.d); }
inline Dual operator*(Dual a, Dual b) { return Dual(a.v * b.v, a.v * b.d + a.d * b.v); }
inline Dual sqrt(Dual a) { double r = std::sqrt(a.v); return Dual(r, r == 0 ? 0.0 : a.d / (2 * r)); }
inline Dual max(Dual a, Dual b) { return a.v >= b.v ? a : b; }
typedef vector<Dual> DV;
inline Dual dot(const DV &a, const Vector &n) { Dual r; for (int i = 0; i < n.Size(); i++) r = r + a[i] * Dual(n(i)); return r; }
inline Dual nrm(const DV &a) { Dual r; for (auto &x : a) r = r + x * x; return sqrt(r); }
// what multiplies the test functions of the two sides, per component
typedef std::function<void(const FP &, const DV &u1, const DV &u2, DV &f1, DV &f2)> Flux;
inline Flux temam(Fn q)
{
   return [=](const FP &p, const DV &u1, const DV &u2, DV &f1, DV &f2) {
      Dual c = Dual(0.5 * q(p.x)) * dot(u1, p.n);
      for (int k = 0; k < p.dim; k++) if (p.ns == 2) { f2[k] = c * u1[k]; f1[k] = -(c * u2[k]); } else f1[k] = c * u1[k];
   };
}
// ud: boundary value for the outer side, if given
inline Flux laxFriedrichs(Fn q, std::function<void(const Vector &, Vector &)> ud = NULL)
{
   return [=](const FP &p, const DV &u1, const DV &u2_, DV &f1, DV &f2) {
      Dual Q(q(p.x)); DV u2 = u2_;
      if (p.ns == 1 && !ud) { Dual c = Q * dot(u1, p.n); for (int k = 0; k < p.dim; k++) f1[k] = -(c * u1[k]); return; }
      if (p.ns == 1) { Vector v(p.dim); ud(p.x, v); u2.resize(p.dim); for (int k = 0; k < p.dim; k++) u2[k] = Dual(v(k)); }
      Dual a1 = dot(u1, p.n), a2 = dot(u2, p.n), L = max(nrm(u1), nrm(u2));
      for (int k = 0; k < p.dim; k++) { Dual f = Dual(0.5) * (u1[k] * a1 + u2[k] * a2) + L * (u1[k] - u2[k]); f1[k] = -(Q * f); f2[k] = Q * f; }
   };
}

// deterministic irregular numbers
inline double irr(long k) { uint64_t h = (uint64_t) (k + 1) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return ((h >> 11) * (1.0 / 9007199254740992.0)) * 2 - 1; }
inline void irregular(Vector &v, long seed) { for (int i = 0; i < v.Size(); i++) v(i) = irr(seed * 7919 + i); }

inline void nearM(const DenseMatrix &a, const DenseMatrix &b, const string &what, double tol = 1e-9)
{
   vc::check(a.Height() == b.Height() && a.Width() == b.Width(), what + ": size " + S(a.Height()) + "x" + S(a.Width()) + " instead of " + S(b.Height()) + "x" + S(b.Width()));
   double sc = 1; for (int k = 0; k < b.Height() * b.Width(); k++) sc = std::max(sc, std::fabs(b.Data()[k]));
   for (int i = 0; i < a.Height(); i++) for (int j = 0; j < a.Width(); j++) if (!(std::fabs(a(i, j) - b(i, j)) <= tol * sc)) { std::ostringstream o; o.precision(15); o << what << ": entry (" << i << "," << j << ") is " << a(i, j) << " instead of " << b(i, j); vc::fail(o.str()); }
   vc::X.checks++;
}
inline void nearV(const Vector &a, const Vector &b, const string &what, double tol = 1e-9)
{
   vc::check(a.Size() == b.Size(), what + ": size " + S(a.Size()) + " instead of " + S(b.Size())); double sc = 1; for (int k = 0; k < b.Size(); k++) sc = std::max(sc, std::fabs(b(k)));
   for (int i = 0; i < a.Size(); i++) if (!(std::fabs(a(i) - b(i)) <= tol * sc)) { std::ostringstream o; o.precision(15); o << what << ": entry " << i << " is " << a(i) << " instead of " << b(i); vc::fail(o.str()); }
   vc::X.checks++;
}
// moves the vertices (1: affine, 2: every vertex on its own) or bends the mesh (3)
inline void distort(Mesh &m, int kind)
{
   if (kind == 1) { for (int i = 0; i < m.GetNV(); i++) { double *v = m.GetVertex(i); double x = v[0], y = v[1]; v[0] = 1.2 * x + 0.3 * y; v[1] = 0.9 * y - 0.1 * x; if (m.Dimension() == 3) { double z = v[2]; v[2] = 0.8 * z + 0.2 * x; v[0] += 0.1 * z; } } }   // affine
   if (kind == 2) for (int i = 0; i < m.GetNV(); i++) for (int d = 0; d < m.Dimension(); d++) m.GetVertex(i)[d] += 0.12 * irr(17 * d + std::lround(7 * m.GetVertex(i)[0] + 29 * m.GetVertex(i)[1] + (m.Dimension() == 3 ? 101 * m.GetVertex(i)[2] : 0)));   // every vertex on its own
   if (kind == 4 || kind == 5) { distort(m, 2); const double f = kind == 4 ? 0.01 : 60; for (int i = 0; i < m.GetNV(); i++) for (int d = 0; d < m.Dimension(); d++) m.GetVertex(i)[d] *= f * (d == 1 ? 1.7 : 1); }   // small and large, every vertex on its own
   if (kind == 3) { m.SetCurvature(2, true); VectorFunctionCoefficient c(m.Dimension(), [](const Vector &x, Vector &y) { y = x; y(0) += 0.15 * x(1) * (1.1 - x(1)) + 0.05 * x(0) * x(1); y(1) += 0.1 * x(0) * x(0); if (x.Size() > 2) { y(2) += 0.1 * x(0) * x(1); y(0) += 0.1 * x(2) * x(2); } }); m.Transform(c); }   // curved
}
} // namespace dgref
#endif
