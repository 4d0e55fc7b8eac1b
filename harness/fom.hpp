// Full-order problems with known solutions, and configurations of solvers for them, shared by the solver harnesses.
#ifndef VERIF_FOM_HPP
#define VERIF_FOM_HPP
#include "comp.hpp"
#include "poisson_solver.hpp"
#include "linelast_solver.hpp"
#include "stokes_solver.hpp"
#include "steady_ns_solver.hpp"
#include "unsteady_ns_solver.hpp"
#include "advdiff_solver.hpp"
#include "parameterized_problem.hpp"
extern "C" int MPI_Abort(MPI_Comm, int) { if (getenv("VC_ABORT")) abort(); _exit(3); }

// ---- polynomials in up to three variables
struct Poly
{
   map<array<int, 3>, double> c;
   double operator()(const Vector &x) const { double r = 0; for (auto &t : c) { double m = t.second; for (int d = 0; d < 3; d++) for (int k = 0; k < t.first[d]; k++) m *= x(d); r += m; } return r; }
   Poly d(int v) const { Poly p; for (auto &t : c) if (t.first[v]) { auto e = t.first; double f = t.second * e[v]; e[v]--; p.c[e] += f; } return p; }
   Poly operator+(const Poly &o) const { Poly p = *this; for (auto &t : o.c) p.c[t.first] += t.second; return p; }
   Poly operator*(double s) const { Poly p = *this; for (auto &t : p.c) t.second *= s; return p; }
   Poly operator-(const Poly &o) const { return *this + o * -1.0; }
   Poly operator*(const Poly &o) const { Poly p; for (auto &a : c) for (auto &b : o.c) p.c[{a.first[0] + b.first[0], a.first[1] + b.first[1], a.first[2] + b.first[2]}] += a.second * b.second; return p; }
};
static double coef(int i) { return ((i * 7919 + 13) % 23 - 11) / 9.0; }
// all monomials of total degree <= deg in the variables with bit set in vars
static Poly poly(int dim, int deg, int seed, int vars = 7)
{
   Poly p; int n = seed * 31; for (int i = 0; i <= deg; i++) for (int j = 0; i + j <= deg; j++) for (int k = 0; i + j + k <= deg; k++) { if ((k && dim < 3) || (i && !(vars & 1)) || (j && !(vars & 2)) || (k && !(vars & 4))) continue; double q = coef(++n); p.c[{i, j, k}] = (q == 0 ? 0.37 : q) / (1 + i + j + k); } return p;
}
static Poly constant(double v) { Poly p; p.c[{0, 0, 0}] = v; return p; }
static Poly var(int d) { Poly p; array<int, 3> e = {{0, 0, 0}}; e[d] = 1; p.c[e] = 1; return p; }
static Poly lap(const Poly &p, int dim) { Poly r; for (int d = 0; d < dim; d++) r = r + p.d(d).d(d); return r; }

enum Phys { POISSON, ADVDIFF, ELAST, STOKES, NSBASE, NSLF, NPHYS };
static const char *pname[] = {"poisson", "advection-diffusion", "elasticity", "stokes", "navier-stokes", "navier-stokes lf"};
struct Geo { bool comp = false; Kind k; int n[3] = {1, 1, 1}; vector<int> attr, rot; int shear = 0, refine = 0; double scale = 1; vector<array<int, 3>> cells; vector<int> of, quarter; int ne = 1, flip = 0, gmode = 1; bool both = false; vector<int> use; string id; double X() const { if (!comp) return n[0]; int m = 0; for (auto &c : cells) m = max(m, c[0] + 1); return m; } };
struct Opt { Phys ph; int order; bool dg; int solver; int bc; int sol; bool viaComp = false; };   // solver 0 direct, 1 iterative, 2 with multigrid

struct Problem
{
   int dim; vector<Poly> u; Poly p; vector<Poly> f; double nu = 0.7, zeta = 1.3, Pe = 2.5, lambda = 2.3, mu = 0.6; vector<Poly> flow; double X;
   Problem(Phys ph, Kind kind, int q, int bc, int sol, double X_) : dim(dimOf(kind)), X(X_)
   {
      const int d = dim;
      Poly sx = var(0) - constant(X);
      if (ph == POISSON || ph == ADVDIFF)
      {
         Poly w = poly(d, q, 1 + sol); if (bc) { w = poly(d, q, 1 + sol, 6); if (q >= 2) w = w + sx * sx * poly(d, q - 2, 5); }
         u = {w}; f = {lap(w, d) * -1.0};
         if (ph == ADVDIFF) { for (int k = 0; k < d; k++) flow.push_back(poly(d, sol ? 1 : 0, 20 + k)); for (int k = 0; k < d; k++) f[0] = f[0] + flow[k] * w.d(k) * Pe; }
      }
      else if (ph == ELAST)
      {
         for (int k = 0; k < d; k++) u.push_back(poly(d, q, 3 + k + sol)); Poly div; for (int k = 0; k < d; k++) div = div + u[k].d(k);
         for (int k = 0; k < d; k++) { Poly r = div.d(k) * lambda; for (int j = 0; j < d; j++) r = r + (u[k].d(j) + u[j].d(k)).d(j) * mu; f.push_back(r * -1.0); }
      }
      else
      {
         // the data of the divergence are integrated exactly up to this degree
         const int uq = kind == TET ? q : q + 1; const bool ns = ph != STOKES; u.assign(d, Poly());
         if (bc) { u[0] = poly(d, uq, 4, 6); p = sx * -1.7; }   // parallel flow, no stress at the far side
         else if (ns && sol == 0 && ph == NSBASE) { u[0] = poly(d, uq, 4, 2) + constant(0.3); u[1] = constant(-0.4); if (d == 3) u[2] = poly(d, uq, 9, 2); p = poly(d, q, 6); }
         else if (ns) { for (int k = 0; k < d; k++) u[k] = poly(d, 1, 11 + k); Poly div; for (int k = 0; k < d; k++) div = div + u[k].d(k); u[d - 1] = u[d - 1] - var(d - 1) * div.c[{0, 0, 0}]; p = poly(d, q, 6 + sol); }
         else { Poly a = poly(d, uq + 1, 2 + sol), b = poly(d, uq + 1, 8 + sol); u[0] = a.d(1); u[1] = a.d(0) * -1.0; if (d == 3) { u[1] = u[1] + b.d(2); u[2] = b.d(1) * -1.0; } p = poly(d, q, 6); }
         for (int k = 0; k < d; k++) { Poly r = lap(u[k], d) * -nu + p.d(k); if (ns) for (int j = 0; j < d; j++) r = r + u[j] * u[k].d(j) * zeta; f.push_back(r); }
      }
   }
   // force on the far side of the box
   void traction(const Vector &x, Vector &t) const { double dv = 0; for (int k = 0; k < dim; k++) dv += u[k].d(k)(x); for (int k = 0; k < dim; k++) t(k) = mu * (u[k].d(0)(x) + u[0].d(k)(x)) + (k == 0 ? lambda * dv : 0); }
};
static function<double(const Vector &, double)> scalar(const Poly &p) { return [p](const Vector &x, double) { return p(x); }; }
static function<void(const Vector &, double, Vector &)> vect(const vector<Poly> &p) { return [p](const Vector &x, double, Vector &y) { for (size_t k = 0; k < p.size(); k++) y(k) = p[k](x); }; }

static Mesh theMesh(const Geo &g)
{
   Mesh b = box(g.k, g.n[0], g.n[1], g.n[2]); Mesh m = rebuild(b, g.attr, g.rot);
   if (g.scale != 1) for (int i = 0; i < m.GetNV(); i++) for (int q = 0; q < 3; q++) m.GetVertex(i)[q] *= g.scale;
   if (g.shear) { for (int i = 0; i < m.GetNV(); i++) { double *v = m.GetVertex(i); if (g.shear == 1) v[0] += 0.4 * v[1]; else { v[1] -= 0.3 * v[0]; v[0] *= 1.2; if (dimOf(g.k) == 3) v[2] += 0.25 * v[1]; } } }
   return m;
}
static YAML::Node base(const Opt &o, const Problem *P)
{
   YAML::Node y; y["discretization"]["order"] = o.order; y["discretization"]["full-discrete-galerkin"] = o.dg; y["solver"]["direct_solve"] = o.solver == 0; y["solver"]["use_amg"] = o.solver == 2; if ((o.order + o.sol + o.bc) % 2) y["solver"]["block_diagonal_preconditioner"] = false; if (o.solver) { y["solver"]["relative_tolerance"] = o.ph >= NSBASE ? 1e-9 : 1e-12; y["solver"]["absolute_tolerance"] = o.ph >= NSBASE ? 1e-10 : 1e-13; y["solver"]["max_iter"] = o.ph >= NSBASE ? 60 : 20000; y["solver"]["jacobian"]["relative_tolerance"] = 1e-12; y["solver"]["jacobian"]["max_iter"] = 20000; } else if (o.ph >= NSBASE) { y["solver"]["relative_tolerance"] = 1e-12; y["solver"]["absolute_tolerance"] = 1e-12; }
   y["visualization"]["enabled"] = false; if (P) { y["stokes"]["nu"] = P->nu; y["navier-stokes"]["zeta"] = P->zeta; y["adv-diff"]["peclet_number"] = P->Pe; } y["navier-stokes"]["operator-type"] = o.ph == NSLF ? "lf" : "base"; return y;
}
static void merge(YAML::Node a, const YAML::Node &b) { for (auto it = b.begin(); it != b.end(); ++it) { auto k = it->first.as<string>(); if (a[k] && a[k].IsMap() && it->second.IsMap()) merge(a[k], it->second); else a[k] = it->second; } }
// the topology of g in the configuration; files in the scratch directory
static void topology(const Geo &g)
{
   if (!g.comp) { ofstream o(dir + "/m.mesh"); o.precision(17); theMesh(g).Print(o); o.close(); YAML::Node y; y["filename"] = dir + "/m.mesh"; y["uniform_refinement"] = g.refine; config.dict_["mesh"] = y; return; }
   Setup s; s.names = {"a", "b"}; const int n = g.ne; s.files = {meshFile(g.k, n, n, n, g.rot), meshFile(g.k, n, n, n, {2, 1}, 1)}; s.refine = g.refine; bool two = false; for (int c : g.of) two |= c == 1; if (!two && !g.both) { s.names.pop_back(); s.files.pop_back(); }
   vector<int> of = g.of; if (g.use.size()) { vector<string> nm, fl; for (int c : g.use) { nm.push_back(s.names[c]); fl.push_back(s.files[c]); } for (int &c : of) c = find(g.use.begin(), g.use.end(), c) - g.use.begin(); s.names = nm; s.files = fl; }   // g.use: the components listed, in order
   for (size_t m = 0; m < g.cells.size(); m++) place(s, of[m], g.cells[m], g.quarter.empty() ? 0 : g.quarter[m]); connect(s, dimOf(g.k), g.cells, g.flip, g.gmode, {}); writeGlobal(s, dir + "/global.h5", dir + "/bdr.h5"); config.dict_["mesh"] = yaml(s, false, false)["mesh"];
}
// f with the topology of g and options y
static void with(const Geo &g, const YAML::Node &y, const function<void()> &f)
{
   dir = vc::tmpfile("d"); mkdir(dir.c_str(), 0700); auto clean = [&]() { string c = "rm -rf ./" + dir; int r = system(c.c_str()); (void) r; config.dict_ = YAML::Node(); };
   try { config.dict_ = YAML::Node(); topology(g); merge(config.dict_, y); f(); } catch (...) { clean(); throw; } clean();
}
static MultiBlockSolver *make(Phys ph) { switch (ph) { case POISSON: return new PoissonSolver; case ADVDIFF: return new AdvDiffSolver; case ELAST: return new LinElastSolver; case STOKES: return new StokesSolver; default: return new SteadyNSSolver; } }
#endif
