// MFEM of this sandbox has no MUMPS; the repository names MUMPSSolver unconditionally. This adds a
// direct solver with that interface (dense LU), so that the direct-solve paths can be executed.
#include_next <mfem.hpp>
#ifndef VERIF_MUMPS_SHIM
#define VERIF_MUMPS_SHIM
#include <vector>
#include <cmath>
#include <algorithm>
extern "C" void dgetrf_(const int*, const int*, double*, const int*, int*, int*);
extern "C" void dgetrs_(const char*, const int*, const int*, const double*, const int*, const int*, double*, const int*, int*);
namespace mfem
{
class MUMPSSolver : public Solver
{
public:
   enum MatType { UNSYMMETRIC = 0, SYMMETRIC_INDEFINITE = 1, SYMMETRIC_POSITIVE_DEFINITE = 2 };
private:
   std::vector<double> A; std::vector<int> piv; int n = 0; MatType type = UNSYMMETRIC;
public:
   MUMPSSolver() {}
   MUMPSSolver(MPI_Comm) {}
   void SetMatrixSymType(MatType t) { type = t; }
   void SetPrintLevel(int) {}
   void SetOperator(const Operator &op) override
   {
      height = width = n = op.Height();
      A.assign((size_t) n * n, 0.0); piv.resize(n);
      const HypreParMatrix *hp = dynamic_cast<const HypreParMatrix *>(&op);
      SparseMatrix sp;
      if (hp) { const_cast<HypreParMatrix *>(hp)->MergeDiagAndOffd(sp); }
      else if (const SparseMatrix *s = dynamic_cast<const SparseMatrix *>(&op)) sp = *s;
      else mfem_error("MUMPS shim: unsupported operator");
      const int *I = sp.GetI(), *J = sp.GetJ(); const double *D = sp.GetData();
      for (int i = 0; i < n; i++) for (int k = I[i]; k < I[i + 1]; k++) A[(size_t) J[k] * n + i] += D[k];
      // like the original: of a matrix declared symmetric only one triangle is used
      if (type != UNSYMMETRIC) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A[(size_t) i * n + j] = A[(size_t) j * n + i];
      double big = 0; for (double a : A) big = std::max(big, std::fabs(a));
      int info; dgetrf_(&n, &n, A.data(), &n, piv.data(), &info);
      // consistent singular systems (pressure up to a constant) have a solution, too
      for (int i = 0; i < n; i++) if (std::fabs(A[(size_t) i * n + i]) < 1e-14 * big) A[(size_t) i * n + i] = big;
   }
   void Mult(const Vector &x, Vector &y) const override
   {
      y = x; const int one = 1; int info;
      dgetrs_("N", &n, &one, A.data(), &n, piv.data(), y.HostReadWrite(), &n, &info);
   }
};
}
#endif
