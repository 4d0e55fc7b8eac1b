// Shared by h_rom and h_unsteady: a problem linear in two parameters in place of the repository's problems, the full-order
// operator as a dense matrix, and readers of the files of the workflow.
#ifndef VC_ROM_HPP
#define VC_ROM_HPP
#include "fom.hpp"
#include "main_workflow.hpp"
#include "unsteady_ns_solver.hpp"
#include "linalg_utils.hpp"
#include "linalg/BasisReader.h"
#include <fcntl.h>
#include <cmath>

// ---- a problem linear in two parameters
static bool UNST = false; static int IC = 0; static Phys PH; static int DIM = 2, BC = 0, VERT = 0; static vector<Poly> PU[2], PF[2]; static bool POLY = false; static double pa = 1, pb = 0, pnu = 0.7, lam = 2.3, mue = 0.6; static vector<int> BATTR; static int FAR = 2;
static double gen(const Vector &x, int s, int k) { double r = sin(1.3 * x(0) + k + 2 * s) + 0.7 * cos((2.1 + s) * x(1) - k); if (x.Size() > 2) r *= 1 + 0.3 * sin(x(2) + s); return r; }
static double bdrS(const Vector &x, double) { return POLY ? pa * PU[0][0](x) + pb * PU[1][0](x) : pa * gen(x, 0, 0) + pb * gen(x, 1, 0); }
static double rhsS(const Vector &x, double) { return POLY ? pa * PF[0][0](x) + pb * PF[1][0](x) : pa * gen(x, 2, 1) - pb * gen(x, 3, 2); }
static void bdrV(const Vector &x, double, Vector &y) { for (int k = 0; k < y.Size(); k++) y(k) = POLY ? pa * PU[0][k](x) + pb * PU[1][k](x) : pa * gen(x, 0, k) + pb * gen(x, 1, k); }
static void rhsV(const Vector &x, double, Vector &y) { for (int k = 0; k < y.Size(); k++) y(k) = POLY ? pa * PF[0][k](x) + pb * PF[1][k](x) : pa * gen(x, 2, k) - pb * gen(x, 3, 2 + k); }
static void icU(const Vector &x, double, Vector &y) { for (int k = 0; k < y.Size(); k++) y(k) = 0.6 * pa * gen(x, 4, k); }
static void icP(const Vector &x, double, Vector &y) { y(0) = gen(x, 6, 1); }
static double lamS(const Vector &, double) { return lam; }
static double mueS(const Vector &, double) { return mue; }
struct VcProblem : public ParameterizedProblem
{
   VcProblem()
   {
      problem_name = "vc"; param_num = 2; param_map["a"] = 0; param_map["b"] = 1; param_ptr.SetSize(2); param_ptr[0] = &pa; param_ptr[1] = &pb; const bool vec = PH >= ELAST;
      function_factory::flow_problem::nu = pnu; function_factory::advdiff_problem::analytic_flow = true;
      battr.SetSize(0); bdr_type.SetSize(0); scalar_bdr_ptr.SetSize(0); vector_bdr_ptr.SetSize(0); for (int g : BATTR)
      {
         const bool far = g == FAR; battr.Append(g); BoundaryType t = BC && far ? BoundaryType::NEUMANN : BC == 2 && (PH == NSLF || g != BATTR[0]) ? BoundaryType::ZERO : BoundaryType::DIRICHLET; if (PH == ELAST && t == BoundaryType::ZERO) t = BoundaryType::DIRICHLET; bdr_type.Append(t);
         const bool none = t == BoundaryType::ZERO || (t == BoundaryType::NEUMANN && PH != ELAST); vector_bdr_ptr.Append(none || !vec ? NULL : &bdrV); scalar_bdr_ptr.Append(none || vec ? NULL : &bdrS);
      }
      if (UNST && IC) { ic_ptr.SetSize(2); ic_ptr[0] = IC & 1 ? &icU : NULL; ic_ptr[1] = IC & 2 ? &icP : NULL; }
      if (vec) vector_rhs_ptr = &rhsV; else scalar_rhs_ptr = &rhsS;
      general_scalar_ptr.SetSize(2); general_scalar_ptr[0] = &lamS; general_scalar_ptr[1] = &mueS; general_vector_ptr.SetSize(1); general_vector_ptr[0] = NULL;
   }
};
extern "C" ParameterizedProblem *__wrap__Z24InitParameterizedProblemv() { return new VcProblem; }
// the flow of advection and diffusion is given, as grid functions on other meshes cannot be evaluated with this MFEM
extern "C" void __real__ZN13PoissonSolver23SetParameterizedProblemEP20ParameterizedProblem(PoissonSolver *, ParameterizedProblem *);
extern "C" void __wrap__ZN13PoissonSolver23SetParameterizedProblemEP20ParameterizedProblem(PoissonSolver *s, ParameterizedProblem *p)
{
   if (auto *a = dynamic_cast<AdvDiffSolver *>(s)) a->SetFlowAtSubdomain(function<void(const Vector &, double, Vector &)>([](const Vector &x, double, Vector &y) { for (int k = 0; k < y.Size(); k++) y(k) = 0.8 * gen(x, 5, k); }));
   __real__ZN13PoissonSolver23SetParameterizedProblemEP20ParameterizedProblem(s, p);
}
static const char *solverName[] = {"poisson", "adv-diff", "linelast", "stokes", "steady-ns", "steady-ns"};
static const int nvOf[] = {1, 1, 1, 2, 2, 2};
static string varName(int v) { return PH < STOKES ? "solution" : v ? "pres" : "vel"; }

// ---- the full-order model, and its projection
struct Full
{
   unique_ptr<MultiBlockSolver> s; int K, nv; vector<int> off; DenseMatrix A; Vector f, u; vector<int> type; vector<string> comp;
   Full(bool solve)
   {
      config.dict_["main"]["use_rom"] = false; s.reset(UNST ? (MultiBlockSolver *) new UnsteadyNSSolver : make(PH)); s->InitVariables(); VcProblem p; p.SetSingleRun(); s->SetParameterizedProblem(&p); s->BuildOperators(); s->SetupBCOperators(); s->Assemble(); K = s->GetNumSubdomains(); nv = s->GetNumVar();
      for (int i = 0; i < s->var_offsets.Size(); i++) off.push_back(s->var_offsets[i]); const int N = off.back(); A.SetSize(N); A = 0.0; f.SetSize(N); f = 0.0;
      auto put = [&](int r, int c, const SparseMatrix &m, bool tr) { DenseMatrix d; m.ToDenseMatrix(d); for (int i = 0; i < d.Height(); i++) for (int j = 0; j < d.Width(); j++) if (tr) A(r + j, c + i) += d(i, j); else A(r + i, c + j) += d(i, j); };
      for (int i = 0; i < K; i++) for (int j = 0; j < K; j++)
         if (auto *t = dynamic_cast<StokesSolver *>(s.get())) { put(off[2 * i], off[2 * j], *t->m_mats(i, j), false); put(off[2 * i + 1], off[2 * j], *t->b_mats(i, j), false); put(off[2 * j], off[2 * i + 1], *t->b_mats(i, j), true); }
         else if (PH == ELAST) put(off[i], off[j], *dynamic_cast<LinElastSolver *>(s.get())->mats(i, j), false); else put(off[i], off[j], *dynamic_cast<PoissonSolver *>(s.get())->mats(i, j), false);
      for (int i = 0; i < N; i++) f(i) = (*s->RHS)(i);
      for (int m = 0; m < K; m++) { type.push_back(s->topol_handler->GetMeshType(m)); } for (int c = 0; c < s->topol_handler->GetNumComponents(); c++) comp.push_back(s->topol_handler->GetComponentName(c));
      if (solve) { vc::check(s->Solve(), "the full-order solver did not converge"); u = *s->U; }
   }
   // residual of the full-order model at w, all in the order of the solution vector
   void residual(const Vector &w, Vector &r)
   {
      if (PH < NSBASE) { r.SetSize(f.Size()); A.Mult(w, r); r -= f; return; }
      auto *t = dynamic_cast<SteadyNSSolver *>(s.get()); vector<int> at; for (int v = 0; v < 2; v++) for (int m = 0; m < K; m++) for (int i = off[2 * m + v]; i < off[2 * m + v + 1]; i++) at.push_back(i);
      SteadyNSOperator op(t->systemOp, t->hs, t->nl_itf, t->u_offsets, false); Vector x(w.Size()), y(w.Size()); for (size_t i = 0; i < at.size(); i++) x(i) = w(at[i]); op.Mult(x, y); r.SetSize(w.Size()); for (size_t i = 0; i < at.size(); i++) r(at[i]) = y(i); r -= f;
   }
};
struct Red { int nb = 0, nsup = 0; };   // sizes: basis vectors per tag (0: all independent), supremizers
struct Basis { vector<DenseMatrix> ref; vector<int> tag; };
static DenseMatrix loadBasis(const string &base, int n) { auto M = CAROM::shim::read(base, "spatial_basis"); DenseMatrix d(M.numRows(), n); for (int i = 0; i < M.numRows(); i++) for (int j = 0; j < n; j++) d(i, j) = M.item(i, j); return d; }
static vector<double> singular(vector<double> a, int m, int n) { vector<double> s(min(m, n)), w(1), u(1); int info, lw = -1, one = 1; dgesvd_("N", "N", &m, &n, a.data(), &m, s.data(), u.data(), &one, u.data(), &one, w.data(), &lw, &info); lw = (int) w[0]; w.resize(lw); dgesvd_("N", "N", &m, &n, a.data(), &m, s.data(), u.data(), &one, u.data(), &one, w.data(), &lw, &info); return s; }
static double condOf(const DenseMatrix &A) { vector<double> a(A.Data(), A.Data() + A.Height() * A.Width()); auto s = singular(a, A.Height(), A.Width()); return s.back() > 0 ? s[0] / s.back() : 1e300; }

static string bname(const Full &F, int c, int v, bool sep) { return F.comp[c] + (sep ? "_" + varName(v) : ""); }
static void readSolution(const string &file, Vector &v) { hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); vc::check(f >= 0, "no solution file " + file); hdf5_utils::ReadDataset(f, "solution", v); H5Fclose(f); }
static void setParams(double a, double b) { config.dict_["single_run"]["vc"]["a"] = a; config.dict_["single_run"]["vc"]["b"] = b; }

#endif
