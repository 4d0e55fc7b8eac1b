From 411530ced9293af8a74d5d1873ee28c62fdd1e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 01/48] fix: BlockSmoother::SetOperator acts on the new
 operator's blocks and inverses

---
 src/block_smoother.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/block_smoother.cpp b/src/block_smoother.cpp
index cfb0bec..8ebf787 100644
--- a/src/block_smoother.cpp
+++ b/src/block_smoother.cpp
@@ -16,22 +16,9 @@ namespace mfem
 */
 
 BlockSmoother::BlockSmoother(const BlockMatrix &a)
-   : MatrixInverse(a),
-     oper(&a),
-     num_row_blocks(a.NumRowBlocks()),
-     num_col_blocks(a.NumColBlocks()),
-     row_offsets(a.RowOffsets()),
-     col_offsets(a.ColOffsets())
+   : MatrixInverse(a), oper(NULL)
 {
-   assert(num_row_blocks == num_col_blocks);
-
-   diag_inv.SetSize(num_row_blocks);
-   diag_inv = NULL;
-   for (int b = 0; b < num_row_blocks; b++)
-   {
-      diag_inv[b] = oper->GetBlock(b, b).ToDenseMatrix();
-      diag_inv[b]->Invert();
-   }
+   SetOperator(a);
 }
 
 BlockSmoother::~BlockSmoother()
@@ -48,6 +35,21 @@ void BlockSmoother::SetOperator(const Operator &a)
    }
    height = oper->Height();
    width = oper->Width();
+
+   num_row_blocks = oper->NumRowBlocks();
+   num_col_blocks = oper->NumColBlocks();
+   assert(num_row_blocks == num_col_blocks);
+   row_offsets = oper->RowOffsets();
+   col_offsets = oper->ColOffsets();
+
+   DeletePointers(diag_inv);
+   diag_inv.SetSize(num_row_blocks);
+   diag_inv = NULL;
+   for (int b = 0; b < num_row_blocks; b++)
+   {
+      diag_inv[b] = oper->GetBlock(b, b).ToDenseMatrix();
+      diag_inv[b]->Invert();
+   }
 }
 
 void BlockSmoother::PrintOperator()
-- 
2.43.0


From 85ea95ef510a9c4dd6caa3f917a84af6ab426f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 02/48] fix: TensorAddMultOnJ contracts over the whole second
 axis

---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 3c89265..be29674 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -658,7 +658,7 @@ void TensorAddMultOnJ(const DenseTensor &tensor, const Vector &x, DenseMatrix &M
       {
          dx = x.HostRead();
          tdata = tensor.GetData(k) + i;
-         for (int j = 0; j < tensor.SizeJ(); j++)
+         for (int j = 0; j < tensor.SizeJ(); j++, dx++)
          {
             (*dM) += (*tdata) * (*dx);
             tdata += stride;
-- 
2.43.0


From 6f6028b1ef4a4b1cc5b29e6aaf6f748a5e606374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 03/48] fix: copying MatrixBlocks copies its blocks (no shared
 ownership)

---
 include/linalg_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/linalg_utils.hpp b/include/linalg_utils.hpp
index 9957631..396d6a6 100644
--- a/include/linalg_utils.hpp
+++ b/include/linalg_utils.hpp
@@ -58,6 +58,8 @@ struct MatrixBlocks
    { blocks = NULL; }
    MatrixBlocks(const Array2D<SparseMatrix *> &mats)
    { *this = mats; }
+   MatrixBlocks(const MatrixBlocks &matblock) : MatrixBlocks()
+   { *this = matblock; }
 
    ~MatrixBlocks() { DeletePointers(blocks); }
 
-- 
2.43.0


From 654a8c64d65124bc72071dc735baec6793eb3823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:46 +0000
Subject: [PATCH 04/48] fix: CGOptimizer accepts an initial guess that is
 already the minimum

---
 src/linalg_utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index be29674..17a1eca 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -899,6 +899,12 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
 
    g *= -1.0; xi = g; h = g;
    double gg0 = g * g;
+   // the initial guess is already a minimum, there is no direction to search.
+   if (gg0 == 0.0)
+   {
+      converged = true;
+      return;
+   }
 
    double b0 = ib / sqrt(gg0);
 
-- 
2.43.0


From f5a22f10116d4128966d578bf8864f06a98382f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:32 +0000
Subject: [PATCH 05/48] fix: CGOptimizer reports convergence of the current
 solve only

---
 src/linalg_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 17a1eca..417fb3c 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -891,6 +891,7 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
    xi1.SetSize(sol.Size());
    h.SetSize(sol.Size());
 
+   converged = false;
    double Jmin = Objective(rhs, sol);
    double res0 = sqrt(Jmin);
    printf("Initial iteration: ||r|| = %.4E\n", res0);
-- 
2.43.0


From d6b50d28970ae545d9eaf6103a6791d1eff11958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:14 +0000
Subject: [PATCH 06/48] fix: ReadSparseMatrixFromHDF allocates the row offsets
 by the number of rows

---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 417fb3c..08e6c27 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -374,7 +374,7 @@ SparseMatrix* ReadSparseMatrixFromHDF(const std::string filename)
    hdfIO.getIntegerArray("size", &size[0], 2);
 
    const int n_entry = hdfIO.getDoubleArraySize("data");
-   Array<int> i_read(n_entry), j_read(n_entry);
+   Array<int> i_read(size[0]+1), j_read(n_entry);
    Vector data_read(n_entry);
    hdfIO.getIntegerArray("I", i_read.Write(), size[0]+1);
    hdfIO.getIntegerArray("J", j_read.Write(), i_read[size[0]]);
-- 
2.43.0


From 5e856d950090dca84a5cea789281033243f787b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:50 +0000
Subject: [PATCH 07/48] fix: TimeProfiler::Print reduces validly on every
 process and leaves the counters unchanged

---
 include/etc.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/etc.hpp b/include/etc.hpp
index 9aad33e..81e0b57 100644
--- a/include/etc.hpp
+++ b/include/etc.hpp
@@ -126,8 +126,10 @@ public:
             times[k] = timers[k]->RealTime();
         double total = times.Sum();
 
-        MPI_Reduce(MPI_IN_PLACE, times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
-        MPI_Reduce(MPI_IN_PLACE, calls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
+        // NOTE: MPI_IN_PLACE is valid only at the root, and the counters of this process must not change.
+        Array<int> ncalls(calls);
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : times.GetData(), times.GetData(), nfunc, MPI_DOUBLE, MPI_SUM, 0, comm);
+        MPI_Reduce((rank == 0) ? MPI_IN_PLACE : ncalls.GetData(), ncalls.GetData(), nfunc, MPI_INT, MPI_SUM, 0, comm);
 
         if (rank == 0)
         {
@@ -139,7 +141,7 @@ public:
             printf("%20s\t%20s\t%20s\t%20s\n", "Function", "Total time", "Calls", "Time per call");
             for (int k = 0; k < nfunc; k++)
             {
-                printf("%20s\t%20.5e\t%20d\t%20.5e\n", names[k].c_str(), times[k], calls[k], times[k] / calls[k]);
+                printf("%20s\t%20.5e\t%20d\t%20.5e\n", names[k].c_str(), times[k], ncalls[k], times[k] / ncalls[k]);
             }
             if (compute_sum)
                 printf("%20s\t%20.5e\t%20d\t%20.5e\n", "Total time", total, 1, total);
-- 
2.43.0


From 9470fee76fcafc5087e0911f85e63f884fc78fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:04 +0000
Subject: [PATCH 08/48] fix: ComponentTopologyHandler closes the files and
 groups it does not use

---
 src/component_topology_handler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 25a2a86..0f1ca80 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -399,7 +399,11 @@ bool ComponentTopologyHandler::ReadBoundariesFromFile(const std::string filename
       assert(errf >= 0);
    }
    else
+   {
+      errf = H5Fclose(file_id);
+      assert(errf >= 0);
       return false;
+   }
 
    {  // Boundary data.
       Array2D<int> tmp;
@@ -455,7 +459,12 @@ void ComponentTopologyHandler::ReadPortDatasFromFile(const std::string filename)
 
       int port_idx = port_name2idx[port_name];
       // Skip if the port is already set up.
-      if (ref_ports[port_idx] != NULL) continue;
+      if (ref_ports[port_idx] != NULL)
+      {
+         errf = H5Gclose(grp_id);
+         assert(errf >= 0);
+         continue;
+      }
 
       int battr1, battr2;
       hdf5_utils::ReadAttribute(grp_id, "bdr_attr1", battr1);
-- 
2.43.0


From b8482dc83db1d689b74fad72fdb6b3bca6f28181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:04 +0000
Subject: [PATCH 09/48] fix: interface records of SubMesh keep the first side's
 own face orientation

---
 src/topology_handler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/topology_handler.cpp b/src/topology_handler.cpp
index 3f5670a..f9373d0 100644
--- a/src/topology_handler.cpp
+++ b/src/topology_handler.cpp
@@ -439,8 +439,10 @@ Array<int> SubMeshTopologyHandler::FindParentInterfaceInfo(const int pface,
       Infs[0] = face_inf[0];
       Infs[1] = face_inf[1];
    } else {
-      Infs[0] = face_inf[1];
-      Infs[1] = face_inf[0];
+      // Face normal and coefficients are evaluated on the first side, which thus must keep its own face orientation.
+      // The relative orientation of two neighbors is a reflection, i.e. its own inverse.
+      Infs[0] = 64 * (face_inf[1] / 64);
+      Infs[1] = 64 * (face_inf[0] / 64) + face_inf[1] % 64;
    }
 
    return Infs;
-- 
2.43.0


From a3dcc233883ddc78cea8376df34b7d3ac95697d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:04 +0000
Subject: [PATCH 10/48] fix: vector diffusion terms constructed without a
 coefficient do not dereference it (it is one)

---
 src/dg_bilinear.cpp    | 4 ++--
 src/interfaceinteg.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dg_bilinear.cpp b/src/dg_bilinear.cpp
index cc432e9..da6de47 100644
--- a/src/dg_bilinear.cpp
+++ b/src/dg_bilinear.cpp
@@ -111,7 +111,7 @@ void DGVectorDiffusionIntegrator::AssembleFaceMatrix(
          w = ip.weight/2;
          const double w2 = w / Trans.Elem2->Weight();
          // const double wL2 = w2 * lambda->Eval(*Trans.Elem2, eip2);
-         const double wM2 = w2 * mu->Eval(*Trans.Elem2, eip2);
+         const double wM2 = w2 * (mu ? mu->Eval(*Trans.Elem2, eip2) : 1.0);
          // nL2.Set(wL2, nor);
          nM2.Set(wM2, nor);
          // wLM = (wL2 + 2.0*wM2);
@@ -127,7 +127,7 @@ void DGVectorDiffusionIntegrator::AssembleFaceMatrix(
       {
          const double w1 = w / Trans.Elem1->Weight();
          // const double wL1 = w1 * lambda->Eval(*Trans.Elem1, eip1);
-         const double wM1 = w1 * mu->Eval(*Trans.Elem1, eip1);
+         const double wM1 = w1 * (mu ? mu->Eval(*Trans.Elem1, eip1) : 1.0);
          // nL1.Set(wL1, nor);
          nM1.Set(wM1, nor);
          // wLM += (wL1 + 2.0*wM1);
diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index e791a07..6ad3b66 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -513,7 +513,7 @@ void InterfaceDGVectorDiffusionIntegrator::AssembleInterfaceMatrix(
          w = ip.weight/2;
          const double w2 = w / Trans2.Elem1->Weight();
          // const double wL2 = w2 * lambda->Eval(*Trans.Elem2, eip2);
-         const double wM2 = w2 * mu->Eval(*Trans2.Elem1, eip2);
+         const double wM2 = w2 * (mu ? mu->Eval(*Trans2.Elem1, eip2) : 1.0);
          // nL2.Set(wL2, nor);
          nM2.Set(wM2, nor);
          // wLM = (wL2 + 2.0*wM2);
@@ -529,7 +529,7 @@ void InterfaceDGVectorDiffusionIntegrator::AssembleInterfaceMatrix(
       {
          const double w1 = w / Trans1.Elem1->Weight();
          // const double wL1 = w1 * lambda->Eval(*Trans.Elem1, eip1);
-         const double wM1 = w1 * mu->Eval(*Trans1.Elem1, eip1);
+         const double wM1 = w1 * (mu ? mu->Eval(*Trans1.Elem1, eip1) : 1.0);
          // nL1.Set(wL1, nor);
          nM1.Set(wM1, nor);
          // wLM += (wL1 + 2.0*wM1);
-- 
2.43.0


From 62df2829ad6309ec254df3d629965d98e78796f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 11/48] fix: Lax-Friedrichs flux gradient is finite where both
 states vanish

---
 src/interfaceinteg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index 6ad3b66..f10fb5f 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1383,6 +1383,10 @@ void DGLaxFriedrichsFluxIntegrator::ComputeGradFluxDotN(
    Vector du(u1);
    du.Add(-1.0, u2);
 
+   // both states are zero: the jump term has no derivative direction.
+   if (u1_lg_u2 && (u1mag == 0.0))
+      return;
+
    if (u1_lg_u2)
       AddMult_a_VWt(normag / u1mag, du, u1, gradu1);
    else
-- 
2.43.0


From ddf17174b9bf7c94199a707d6c3a4952d35f531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:31 +0000
Subject: [PATCH 12/48] fix: prescribed convecting velocity in gradient and
 fast evaluation of VectorConvectionTrilinearFormIntegrator

---
 src/hyperreduction_integ.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 6b3a7b3..ce8a5f9 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -365,7 +365,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
       }
 
       MultAtB(EF, dshapex, gradEF);
-      EF.MultTranspose(shape, vec1);
+      if (vQ)
+         vQ->Eval(vec1, trans, ip);
+      else
+         EF.MultTranspose(shape, vec1);
 
       trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -378,6 +381,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
          elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
       }
 
+      // a prescribed convecting velocity does not depend on the state.
+      if (vQ) { continue; }
+
       MultVVt(shape, elmat_comp);
       w = ip.weight * trans.Weight();
       if (Q)
@@ -434,7 +440,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
    }
 
    MultAtB(EF, dshapex, gradEF);
-   EF.MultTranspose(shape, vec1);
+   if (vQ)
+      vQ->Eval(vec1, trans, ip);
+   else
+      EF.MultTranspose(shape, vec1);
 
    trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -447,6 +456,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
       elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
    }
 
+   // a prescribed convecting velocity does not depend on the state.
+   if (vQ) { return; }
+
    MultVVt(shape, elmat_comp);
    // w = ip.weight * trans.Weight();
    w = iw * trans.Weight();
@@ -478,7 +490,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleVector_Fast(
 
    dim = shape1->NumRows();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -506,7 +521,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    dim = shape1->NumRows();
    int nbasis = shape1->NumCols();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -515,7 +533,11 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    gradEF *= w;
 
    ELV.SetSize(dim, nbasis);
-   Mult(gradEF, *shape1, ELV);
+   // a prescribed convecting velocity does not depend on the state.
+   if (vQ)
+      ELV = 0.0;
+   else
+      Mult(gradEF, *shape1, ELV);
 
    for (int k = 0; k < nbasis; k++)
    {
-- 
2.43.0


From bddda9564e9e303410c8b0a367c291f10ca4314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:21 +0000
Subject: [PATCH 13/48] fix: precomputed convection Jacobian wrote into the
 vector of an earlier evaluation

---
 src/hyperreduction_integ.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index ce8a5f9..399717d 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -532,16 +532,17 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
       gradEF.Add(x(k), *((*gradEFs)[k]));
    gradEF *= w;
 
-   ELV.SetSize(dim, nbasis);
+   // ELV may still refer to a vector of a previous evaluation.
+   DenseMatrix elv(dim, nbasis);
    // a prescribed convecting velocity does not depend on the state.
    if (vQ)
-      ELV = 0.0;
+      elv = 0.0;
    else
-      Mult(gradEF, *shape1, ELV);
+      Mult(gradEF, *shape1, elv);
 
    for (int k = 0; k < nbasis; k++)
    {
-      ELV.GetColumnReference(k, vec2);
+      elv.GetColumnReference(k, vec2);
       (*gradEFs)[k]->AddMult(vec1, vec2, w);
    }
 
@@ -549,7 +550,7 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    for (int k = 0; k < nbasis; k++)
    {
       jac.GetColumnReference(k, jac_col);
-      ELV.GetColumnReference(k, vec2);
+      elv.GetColumnReference(k, vec2);
       shape1->AddMultTranspose(vec2, jac_col);
    }
 }
-- 
2.43.0


From c1098a4e4c6b29f4127974429374773817aa5f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:28 +0000
Subject: [PATCH 14/48] fix: precomputed Lax-Friedrichs Jacobian used the
 element count of an earlier evaluation

---
 src/interfaceinteg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index f10fb5f..7c11a4a 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1830,7 +1830,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
       CalcOrtho(T.Jacobian(), nor);
    }
 
-   ComputeGradFluxDotN(u1, u2, nor, eval2, ndofs2, gradu1, gradu2);
+   ComputeGradFluxDotN(u1, u2, nor, eval2, el2, gradu1, gradu2);
 
    double w = qw;
    if (Q) 
-- 
2.43.0


From 72ae0ed6f623815b86ce044eb2109d72ecf4f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:47 +0000
Subject: [PATCH 15/48] fix: DGBdrLaxFriedrichsLFIntegrator weighted by the
 face size twice and evaluated its factor at an element point

---
 src/dg_linear.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_linear.cpp b/src/dg_linear.cpp
index afafd48..3ea3893 100644
--- a/src/dg_linear.cpp
+++ b/src/dg_linear.cpp
@@ -377,9 +377,9 @@ void DGBdrLaxFriedrichsLFIntegrator::AssembleRHSElementVect(
       gn.Set(0.5 * un, Qvec);
       gn.Add(- abs(un), Qvec);
 
-      w = ip.weight * Tr.Face->Weight();
+      w = ip.weight;
       if (Z)
-         w *= Z->Eval(*(Tr.Face), eip);
+         w *= Z->Eval(*(Tr.Face), ip);
 
       // Need to check the signs.
       AddMult_a_VWt(w, shape, gn, ELV);
-- 
2.43.0


From 67bf0b96bcd791a624af79600355d3223bdef0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:47 +0000
Subject: [PATCH 16/48] fix: boundary-element version of DGBdrTemamLFIntegrator
 used the dimension of the face

---
 src/dg_linear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_linear.cpp b/src/dg_linear.cpp
index 3ea3893..3f46ef1 100644
--- a/src/dg_linear.cpp
+++ b/src/dg_linear.cpp
@@ -491,7 +491,7 @@ void DGBdrTemamLFIntegrator::AssembleRHSElementVect(
 void DGBdrTemamLFIntegrator::AssembleRHSElementVect(
    const FiniteElement &el, ElementTransformation &Tr, Vector &elvect)
 {
-   int dim = el.GetDim();
+   int dim = el.GetDim()+1;
    int dof = el.GetDof();
    Vector nor(dim), Qvec, gn(dim);
    double un;
-- 
2.43.0


From 3b7e8d75589bca6f06d6c94e3d13103f0488d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:14 +0000
Subject: [PATCH 17/48] fix: component-wise training loads are zero where
 switched off instead of left unset

---
 src/parameterized_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 10699fc..c6338df 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -382,6 +382,7 @@ double perturb_func(const double x, const double amp, const double freq, const d
 
 void left_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (lx >= 0.5)
       u(0) = l_ux + perturb_func(x(0), xu_amp, xu_freq, xu_offset);
    if (ly >= 0.5)
@@ -390,6 +391,7 @@ void left_disp(const Vector &x, double t, Vector &u)
 
 void right_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (rx >= 0.5)
       u(0) = r_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (ry >= 0.5)
@@ -398,6 +400,7 @@ void right_disp(const Vector &x, double t, Vector &u)
 
 void up_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (ux >= 0.5)
       u(0) = u_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (uy >= 0.5)
@@ -406,6 +409,7 @@ void up_disp(const Vector &x, double t, Vector &u)
 
 void down_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (dx >= 0.5)
       u(0) = d_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (dy >= 0.5)
@@ -414,6 +418,7 @@ void down_disp(const Vector &x, double t, Vector &u)
 
 void body_force(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (bx >= 0.5)
       u(0) = b_fx + perturb_func(x(0), bxf_amp, bxf_freq, bxf_offset);
    if (by >= 0.5)
-- 
2.43.0


From b06af3b16dc249ebf4d3c164e1b4e824682e82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:14 +0000
Subject: [PATCH 18/48] fix: linear elasticity problems set their number of
 parameters

---
 src/parameterized_problem.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index c6338df..410f828 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1052,7 +1052,8 @@ LinElastDisp::LinElastDisp()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1091,7 +1092,8 @@ LinElastDispLCantilever::LinElastDispLCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1147,7 +1149,8 @@ LinElastDispLattice::LinElastDispLattice()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1204,7 +1207,8 @@ LinElastForceCantilever::LinElastForceCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
-   param_ptr.SetSize(3);
+   param_num = 3;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_force::rforce_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
    param_ptr[2] = &(function_factory::linelast_problem::_mu);
@@ -1264,7 +1268,8 @@ LinElastFrameWind::LinElastFrameWind()
    param_map["density"] = 3;
    param_map["g"] = 4;
 
-   param_ptr.SetSize(5);
+   param_num = 5;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_problem::_lambda);
    param_ptr[1] = &(function_factory::linelast_problem::_mu);
    param_ptr[2] = &(function_factory::linelast_frame_wind::qwind_f);
@@ -1457,7 +1462,8 @@ LinElastComponentWiseTrain::LinElastComponentWiseTrain()
    param_map["bx"] = 38;
    param_map["by"] = 39;
 
-   param_ptr.SetSize(40);
+   param_num = 40;
+   param_ptr.SetSize(param_num);
    param_ptr[0] = &(function_factory::linelast_cwtrain::l_ux);
    param_ptr[1] = &(function_factory::linelast_cwtrain::l_uy);
    param_ptr[2] = &(function_factory::linelast_cwtrain::r_fx);
-- 
2.43.0


From 2b09b361dbcb4ce4eb2beb67c53a189405ff87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:14 +0000
Subject: [PATCH 19/48] fix: linelast_frame_wind assigns its fifth boundary
 type to boundary attribute 5

---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 410f828..83f0ee0 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1246,7 +1246,7 @@ LinElastFrameWind::LinElastFrameWind()
    vector_bdr_ptr[3] = &(function_factory::linelast_frame_wind::dirichlet);
 
    // battr 5: Unloaded
-   battr[4] = 3;
+   battr[4] = 5;
    bdr_type[4] = BoundaryType::NEUMANN;
    vector_bdr_ptr[4] = NULL;
 
-- 
2.43.0


From 37333c7621208e743313630db0de0e91a0e8ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:14 +0000
Subject: [PATCH 20/48] fix: periodic_flow_past_array force has the dimension
 of the space

---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 83f0ee0..bdffd2a 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -222,7 +222,7 @@ void force(const Vector &x, double t, Vector &y)
 {
    const int dim = x.Size();
    y.SetSize(dim);
-   y = f;
+   for (int d = 0; d < dim; d++) y(d) = f(d);
 }
 
 }  // namespace periodic_flow_past_array
-- 
2.43.0


From 3ac9ef537d1f6c992f877be3f7ff68a202a2d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:30 +0000
Subject: [PATCH 21/48] fix: lid-driven cavity drives only the lid, its bottom
 wall is at rest

---
 src/parameterized_problem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index bdffd2a..4504d95 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -931,7 +931,6 @@ LidDrivenCavity::LidDrivenCavity()
    bdr_type.SetSize(5);
    bdr_type = BoundaryType::ZERO;
    bdr_type[2] = BoundaryType::DIRICHLET;
-   bdr_type[0] = BoundaryType::DIRICHLET;
 
    // pointer to static function.
    vector_bdr_ptr.SetSize(5);
-- 
2.43.0


From 9ffc592cb2f1700bdb7656c404ae43569e7bc49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:54 +0000
Subject: [PATCH 22/48] fix: the body force of linelast_cwtrain is its
 right-hand side, not its initial guess

---
 src/parameterized_problem.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 4504d95..264b796 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1506,5 +1506,8 @@ LinElastComponentWiseTrain::LinElastComponentWiseTrain()
    param_ptr[39] = &(function_factory::linelast_cwtrain::by);
 
    general_vector_ptr.SetSize(1);
-   general_vector_ptr[0] = &(function_factory::linelast_cwtrain::body_force); 
+   general_vector_ptr[0] = NULL;
+
+   // Body force
+   vector_rhs_ptr = &(function_factory::linelast_cwtrain::body_force);
 }
\ No newline at end of file
-- 
2.43.0


From 11ece102da4bb5e6bf804f1fd9728cb0b6b31b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:48 +0000
Subject: [PATCH 23/48] fix: GenerateSamples skips the samples of other
 processes instead of looping on the first one

---
 src/main_workflow.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index cec992a..bba3ce5 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -154,7 +154,11 @@ void GenerateSamples(MPI_Comm comm)
    int s = 0;
    while (s < sample_generator->GetTotalSampleSize())
    {
-      if (!sample_generator->IsMyJob(s)) continue;
+      if (!sample_generator->IsMyJob(s))
+      {
+         s++;
+         continue;
+      }
 
       // NOTE: this will change config.dict_
       sample_generator->SetSampleParams(s);
-- 
2.43.0


From 78a93b0fe54005ee4db1c8a1c560ab983a6e5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:55 +0000
Subject: [PATCH 24/48] fix: list of basis tags knows the advection-diffusion
 solver

---
 src/main_workflow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index bba3ce5..28bb8dc 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -121,6 +121,7 @@ std::vector<BasisTag> GetGlobalBasisTagList(const TopologyHandlerMode &topol_mod
       else if (solver_type == "stokes")      var_list = StokesSolver::GetVariableNames();
       else if (solver_type == "steady-ns")   var_list = SteadyNSSolver::GetVariableNames();
       else if (solver_type == "linelast")   var_list = LinElastSolver::GetVariableNames();
+      else if (solver_type == "adv-diff")   var_list = AdvDiffSolver::GetVariableNames();
       else if (solver_type == "unsteady-ns")   var_list = UnsteadyNSSolver::GetVariableNames();
       else
       {
-- 
2.43.0


From 7ba869858a9708c1d4da0b02f5b775fb5faf7b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 25/48] fix: add the basis offsets when precomputing interface
 EQP samples

---
 include/rom_interfaceform.hpp |  3 ++-
 src/rom_interfaceform.cpp     | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/rom_interfaceform.hpp b/include/rom_interfaceform.hpp
index 4193c71..37a177c 100644
--- a/include/rom_interfaceform.hpp
+++ b/include/rom_interfaceform.hpp
@@ -141,7 +141,8 @@ private:
    void PrecomputeEQPSample(const IntegrationRule &ir,
                             FaceElementTransformations *tr1, FaceElementTransformations *tr2,
                             FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-                            const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample);
+                            const DenseMatrix &basis1, const DenseMatrix &basis2,
+                            const int &basis1_offset, const int &basis2_offset, EQPSample &eqp_sample);
 };
 
 } // namespace mfem
diff --git a/src/rom_interfaceform.cpp b/src/rom_interfaceform.cpp
index 13e5dca..e5bff23 100644
--- a/src/rom_interfaceform.cpp
+++ b/src/rom_interfaceform.cpp
@@ -814,7 +814,9 @@ void ROMInterfaceForm::PrecomputeCoefficients()
             topol_handler->GetInterfaceTransformations(mesh1, mesh2, &(*interface_infos)[itf], tr1, tr2);
 
             PrecomputeEQPSample(*ir, tr1, tr2, fes1, fes2,
-                                *basis1, *basis2, *sample);
+                                *basis1, *basis2,
+                                comp_basis_dof_offsets[c1], comp_basis_dof_offsets[c2],
+                                *sample);
          }  // for (int i = 0; i < eqp_elem->Size(); i++)
 
          if (c1 == c2)
@@ -826,7 +828,8 @@ void ROMInterfaceForm::PrecomputeCoefficients()
 void ROMInterfaceForm::PrecomputeEQPSample(
    const IntegrationRule &ir, FaceElementTransformations *tr1, FaceElementTransformations *tr2,
    FiniteElementSpace *fes1, FiniteElementSpace *fes2,
-   const DenseMatrix &basis1, const DenseMatrix &basis2, EQPSample &eqp_sample)
+   const DenseMatrix &basis1, const DenseMatrix &basis2,
+   const int &basis1_offset, const int &basis2_offset, EQPSample &eqp_sample)
 {
    const int nbasis1 = basis1.NumCols();
    const int nbasis2 = basis2.NumCols();
@@ -837,7 +840,14 @@ void ROMInterfaceForm::PrecomputeEQPSample(
    Array<int> vdofs1, vdofs2;
    fes1->GetElementVDofs(tr1->Elem1No, vdofs1);
    fes2->GetElementVDofs(tr2->Elem1No, vdofs2);
-   
+
+   if (basis1_offset > 0)
+      for (int v = 0; v < vdofs1.Size(); v++)
+         vdofs1[v] += basis1_offset;
+   if (basis2_offset > 0)
+      for (int v = 0; v < vdofs2.Size(); v++)
+         vdofs2[v] += basis2_offset;
+
    int dim = fe1->GetDim();
    int ndofs1 = fe1->GetDof();
    int ndofs2 = fe2->GetDof();
-- 
2.43.0


From 0ee990ebed3cb7a968b90f90e95c14699b46c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 26/48] fix: initialise the EQP coordinates a lower-dimensional
 mesh does not set

---
 src/rom_nonlinearform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rom_nonlinearform.cpp b/src/rom_nonlinearform.cpp
index 9b7bf00..4378108 100644
--- a/src/rom_nonlinearform.cpp
+++ b/src/rom_nonlinearform.cpp
@@ -1541,7 +1541,7 @@ void ROMNonlinearForm::SaveDomainEQPCoords(const int k, hid_t file_id, const std
       ElementTransformation *T = fes->GetElementTransformation(el);
       const IntegrationPoint &ip = ir->IntPoint(eqp_sample->info.qp);
 
-      double x[3];
+      double x[3] = {0.0, 0.0, 0.0};
       Vector transip(x, 3);
       T->Transform(ip, transip);
 
-- 
2.43.0


From 2801b7c4ed6c945ea4fd130cf6a51e71f5723d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:54 +0000
Subject: [PATCH 27/48] fix: add the elasticity Dirichlet boundary operators
 without full-dg as well

---
 src/linelast_solver.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index b78b0f4..bd699f6 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -420,22 +420,20 @@ void LinElastSolver::SetupBCOperators()
 void LinElastSolver::SetupDomainBCOperators()
 {
    MFEM_ASSERT(as.Size() == numSub, "BilinearForm bs != numSub.\n");
-   if (full_dg)
+
+   for (int m = 0; m < numSub; m++)
    {
-      for (int m = 0; m < numSub; m++)
+      for (int b = 0; b < global_bdr_attributes.Size(); b++)
       {
-         for (int b = 0; b < global_bdr_attributes.Size(); b++)
-         {
-            int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
-            if (idx < 0)
-               continue;
-            if (!BCExistsOnBdr(b))
-               continue;
-
-            if (bdr_type[b] == BoundaryType::DIRICHLET)
-               as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
-                  *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
-         }
+         int idx = meshes[m]->bdr_attributes.Find(global_bdr_attributes[b]);
+         if (idx < 0)
+            continue;
+         if (!BCExistsOnBdr(b))
+            continue;
+
+         if (bdr_type[b] == BoundaryType::DIRICHLET)
+            as[m]->AddBdrFaceIntegrator(new DGElasticityIntegrator(
+               *(lambda_c[m]), *(mu_c[m]), alpha, kappa), *(bdr_markers[b]));
       }
    }
 }
-- 
2.43.0


From 001d266db2eca4907f9bdc176be2e9f0d301df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:54 +0000
Subject: [PATCH 28/48] fix: look up the boundary index of no-slip boundaries
 by attribute

---
 src/stokes_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index 2ff664a..fa3909e 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1138,7 +1138,10 @@ void StokesSolver::SetParameterizedProblem(ParameterizedProblem *problem)
             if (problem->battr[b] == -1)
             { nz_dbcs = false; break; }
             else
-               nz_dbcs[b] = false;
+            {
+               const int idx = global_bdr_attributes.Find(problem->battr[b]);
+               if (idx >= 0) nz_dbcs[idx] = false;
+            }
          }
       }
       SetComplementaryFlux(nz_dbcs);
-- 
2.43.0


From dd9fefc8789fb381418bb2689dcc34b0eff7abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:52 +0000
Subject: [PATCH 29/48] fix: initialise the center of the complementary flux
 for flows with an open side

---
 src/stokes_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stokes_solver.cpp b/src/stokes_solver.cpp
index fa3909e..af07731 100644
--- a/src/stokes_solver.cpp
+++ b/src/stokes_solver.cpp
@@ -1127,6 +1127,7 @@ void StokesSolver::SetParameterizedProblem(ParameterizedProblem *problem)
    // Ensure incompressibility.
    function_factory::flow_problem::del_u = 0.0;
    function_factory::flow_problem::x0.SetSize(dim);
+   function_factory::flow_problem::x0 = 0.0;
    if (!pres_dbc)
    {
       Array<bool> nz_dbcs(numBdr);
-- 
2.43.0


From 44c5c18572a18863567f181e0a20b54a23bb9a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:35 +0000
Subject: [PATCH 30/48] fix: drop the previous data when an elasticity problem
 is set again

---
 src/linelast_solver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/linelast_solver.cpp b/src/linelast_solver.cpp
index bd699f6..0976bb7 100644
--- a/src/linelast_solver.cpp
+++ b/src/linelast_solver.cpp
@@ -443,6 +443,14 @@ void LinElastSolver::SetParameterizedProblem(ParameterizedProblem *problem)
    /* set up boundary types */
    MultiBlockSolver::SetParameterizedProblem(problem);
 
+   // clean up rhs for parametrized problem.
+   DeletePointers(rhs_coeffs);
+   rhs_coeffs.SetSize(0);
+
+   // clean up boundary functions for parametrized problem.
+   DeletePointers(bdr_coeffs);
+   bdr_coeffs = NULL;
+
    // Set materials
    lambda_c.SetSize(numSub);
    lambda_c = NULL;
-- 
2.43.0


From 4cc87a52cc814861ba2a8584065f3eb5490a1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:18 +0000
Subject: [PATCH 31/48] fix: velocity offsets of the EQP reduced Navier-Stokes
 operator follow the block ordering

---
 src/steady_ns_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/steady_ns_solver.cpp b/src/steady_ns_solver.cpp
index 7a3ae61..e8cef0d 100644
--- a/src/steady_ns_solver.cpp
+++ b/src/steady_ns_solver.cpp
@@ -263,7 +263,7 @@ SteadyNSEQPROM::SteadyNSEQPROM(
    u_offsets = 0;
    for (int k = 0; k < numSub; k++)
    {
-      u_offsets[k+1] = block_offsets[1 + k * num_var] - block_offsets[k * num_var];
+      u_offsets[k+1] = block_offsets[midxs[k] + 1] - block_offsets[midxs[k]];
    }
    u_offsets.PartialSum();
 
-- 
2.43.0


From 0f940d9fe6eb6209b5cfb7134f97e58a64204e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:56 +0000
Subject: [PATCH 32/48] fix: element types are checked for the subdomains, not
 for as many meshes as there are components

---
 src/steady_ns_solver.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/steady_ns_solver.cpp b/src/steady_ns_solver.cpp
index e8cef0d..bb6a954 100644
--- a/src/steady_ns_solver.cpp
+++ b/src/steady_ns_solver.cpp
@@ -447,10 +447,9 @@ SteadyNSSolver::SteadyNSSolver()
                             (int)(ceil(1.5 * (2 * ufes[0]->GetMaxElementOrder() - 1)))));
 
    /* SteadyNSSolver requires all the meshes to have the same element type. */
-   int num_comp = topol_handler->GetNumComponents();
    const Element::Type type0 = topol_handler->GetMesh(0)->GetElementType(0);
-   for (int c = 0; c < num_comp; c++)
-      if (type0 != topol_handler->GetMesh(c)->GetElementType(0))
+   for (int m = 0; m < numSub; m++)
+      if (type0 != topol_handler->GetMesh(m)->GetElementType(0))
          mfem_error("SteadyNSSolver requires all meshes to have the same element type!\n");
 }
 
-- 
2.43.0


From f04c8b94e856c0bb5c93fc126dfd5f1413a26e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:19 +0000
Subject: [PATCH 33/48] fix: restart files of the unsteady solver contain the
 state of their step

---
 src/unsteady_ns_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unsteady_ns_solver.cpp b/src/unsteady_ns_solver.cpp
index bda721f..ba1c2dc 100644
--- a/src/unsteady_ns_solver.cpp
+++ b/src/unsteady_ns_solver.cpp
@@ -123,6 +123,8 @@ bool UnsteadyNSSolver::Solve(SampleGenerator *sample_generator)
       if (save_sol && restart_interval &&
           (((step+1) % restart_interval) == 0))
       {
+         /* copy to original solution variable */
+         SortBySubdomains(*U_step, *U);
          restart_file = string_format(file_fmt, sol_dir.c_str(), sol_prefix.c_str(), step+1);
          SaveSolutionWithTime(restart_file, step+1, time);
       }
-- 
2.43.0


From b74633ac34551eec9b08bcf62babd59676a78ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 34/48] fix: DGLaxFriedrichsFluxIntegrator drops the quadrature
 rule given at construction

NonlinearFormIntegrator is a virtual base, initialized by the most derived class only.
---
 include/interfaceinteg.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/interfaceinteg.hpp b/include/interfaceinteg.hpp
index 4f25137..ced3657 100644
--- a/include/interfaceinteg.hpp
+++ b/include/interfaceinteg.hpp
@@ -303,7 +303,9 @@ private:
 
 public:
    DGLaxFriedrichsFluxIntegrator(Coefficient &q, VectorCoefficient *ud = NULL, const IntegrationRule *ir = NULL)
-      : InterfaceNonlinearFormIntegrator(ir), Q(&q), UD(ud), timer("DGLaxFriedrichsFluxIntegrator") {}
+      // NOTE: the virtual base class is initialized only by the most derived class.
+      : NonlinearFormIntegrator(ir), InterfaceNonlinearFormIntegrator(ir),
+        Q(&q), UD(ud), timer("DGLaxFriedrichsFluxIntegrator") {}
 
    virtual ~DGLaxFriedrichsFluxIntegrator() {};
 
-- 
2.43.0


From 474d4fb48fd77317eef4dc1ac1ec3460fee1e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 35/48] fix: LatticeCantilever ignores the number of cells
 asked for

---
 utils/python/linelast_comp.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/utils/python/linelast_comp.py b/utils/python/linelast_comp.py
index fab9990..74a91ca 100644
--- a/utils/python/linelast_comp.py
+++ b/utils/python/linelast_comp.py
@@ -78,8 +78,6 @@ def SimpleL():
     return
 
 def LatticeCantilever(nx, ny):
-    nx = 2
-    ny = 2
     l = 4.0
     w = 1.0
 
-- 
2.43.0


From 0048a7f615a32d3e2e247af74274757627835fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:24 +0000
Subject: [PATCH 36/48] fix: training meshes in directories with a dot in their
 path are written next to the original

---
 utils/python/linelast_cwtrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/python/linelast_cwtrain.py b/utils/python/linelast_cwtrain.py
index c192640..b3cfd02 100644
--- a/utils/python/linelast_cwtrain.py
+++ b/utils/python/linelast_cwtrain.py
@@ -23,7 +23,7 @@ def shift_mesh_battrs(num_attr, path):
     first_lines = all_lines[0:bdr_start+2]
     last_lines = all_lines[bdr_start+2+bdr_len:]
     f.close()
-    prefix = path.split('.')[0]
+    prefix = os.path.splitext(path)[0]
     for i in range(num_attr):
         filename = prefix + "_"+ str(i) + ".mesh"
         shift_battrs = [(b + i ) if (b + i) == num_attr else (b + i )%num_attr for b in battrs]
-- 
2.43.0


From 43e9e82410efd3cac9e9b89784d5aca6970820fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 37/48] fix: mesh tools used the default file name after it was
 freed

---
 utils/1d_mesh.cpp        | 7 ++++---
 utils/cubic_mesh.cpp     | 7 ++++---
 utils/rectangle_mesh.cpp | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/utils/1d_mesh.cpp b/utils/1d_mesh.cpp
index 9938eee..21c6412 100644
--- a/utils/1d_mesh.cpp
+++ b/utils/1d_mesh.cpp
@@ -75,7 +75,8 @@ int main(int argc, char *argv[])
    }
 
    // Output the resulting mesh to a file
-   if (strlen(meshFileString) == 0) {
+   std::string meshFile(meshFileString);
+   if (meshFile.empty()) {
       ostringstream oss;
       oss << "1d";
       if (ser_ref_levels > 0)
@@ -88,9 +89,9 @@ int main(int argc, char *argv[])
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      meshFile = oss.str();
    }
-   ofstream ofs(meshFileString);
+   ofstream ofs(meshFile);
    ofs.precision(8);
    mesh.Print(ofs);
    ofs.close();
diff --git a/utils/cubic_mesh.cpp b/utils/cubic_mesh.cpp
index 2fcac5c..954016f 100644
--- a/utils/cubic_mesh.cpp
+++ b/utils/cubic_mesh.cpp
@@ -182,7 +182,8 @@ int main(int argc, char *argv[])
    }
 
    // Output the resulting mesh to a file
-   if (strlen(meshFileString) == 0) {
+   std::string meshFile(meshFileString);
+   if (meshFile.empty()) {
       ostringstream oss;
       if (el_type_ == Element::HEXAHEDRON)
       {
@@ -221,9 +222,9 @@ int main(int argc, char *argv[])
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      meshFile = oss.str();
    }
-   ofstream ofs(meshFileString);
+   ofstream ofs(meshFile);
    ofs.precision(8);
    mesh.Print(ofs);
    ofs.close();
diff --git a/utils/rectangle_mesh.cpp b/utils/rectangle_mesh.cpp
index 862c8a8..ff9d955 100644
--- a/utils/rectangle_mesh.cpp
+++ b/utils/rectangle_mesh.cpp
@@ -165,7 +165,8 @@ printf("%s\n", meshFileString);
    }
 
    // Output the resulting mesh to a file
-   if (strlen(meshFileString) == 0) {
+   std::string meshFile(meshFileString);
+   if (meshFile.empty()) {
       ostringstream oss;
       if (el_type_ == Element::QUADRILATERAL)
       {
@@ -204,9 +205,9 @@ printf("%s\n", meshFileString);
       }
 
       oss << ".mesh";
-      meshFileString = oss.str().c_str();
+      meshFile = oss.str();
    }
-   ofstream ofs(meshFileString);
+   ofstream ofs(meshFile);
    ofs.precision(8);
    mesh.Print(ofs);
    ofs.close();
-- 
2.43.0


From 6d8eccf2baff6bfa65273fca57d443525a910dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 38/48] fix: default file names of cubic meshes periodic in z
 and in all directions

---
 utils/cubic_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/cubic_mesh.cpp b/utils/cubic_mesh.cpp
index 954016f..3e659f9 100644
--- a/utils/cubic_mesh.cpp
+++ b/utils/cubic_mesh.cpp
@@ -208,6 +208,9 @@ int main(int argc, char *argv[])
             oss << "-yp";
             break;
           case 2:
+            oss << "-zp";
+            break;
+          case 3:
             oss << "-p";
             break;
         }
-- 
2.43.0


From 5adcd60417648b35dc089574ae8ce3410a20c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 39/48] fix: gmsh2mfem drops the third coordinate of 3D meshes

---
 utils/gmsh2mfem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/gmsh2mfem.cpp b/utils/gmsh2mfem.cpp
index 4012253..6afdec7 100644
--- a/utils/gmsh2mfem.cpp
+++ b/utils/gmsh2mfem.cpp
@@ -39,18 +39,18 @@ int main(int argc, char *argv[])
 
    // Promote to high order mesh
    if (order_ >1)
-      mesh.SetCurvature(order_, true, 2, Ordering::byVDIM);
+      mesh.SetCurvature(order_, true, mesh.SpaceDimension(), Ordering::byVDIM);
    
    // Force mesh to be nonconforming
    if (force_nc_)
    {
       if (mesh.GetNodalFESpace())
       {
-         mesh.SetCurvature(mesh.GetNodalFESpace()->GetMaxElementOrder(), true, 2, Ordering::byVDIM);
+         mesh.SetCurvature(mesh.GetNodalFESpace()->GetMaxElementOrder(), true, mesh.SpaceDimension(), Ordering::byVDIM);
       }
       else
       {
-         mesh.SetCurvature(order_, true, 2, Ordering::byVDIM);
+         mesh.SetCurvature(order_, true, mesh.SpaceDimension(), Ordering::byVDIM);
       }
    }
    
-- 
2.43.0


From a8d8ebf71831ca9ec424be4c1adc123200d6f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 40/48] fix: time series visualization accessed subdomains that
 are not selected for it

SaveVisualization(step, time) dereferenced the null collections of subdomains
excluded by visualization/domain_offset and domain_frequency.
---
 src/multiblock_solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/multiblock_solver.cpp b/src/multiblock_solver.cpp
index d946c71..e237760 100644
--- a/src/multiblock_solver.cpp
+++ b/src/multiblock_solver.cpp
@@ -485,6 +485,8 @@ void MultiBlockSolver::SaveVisualization(const int step, const double time)
 
    for (int m = 0; m < paraviewColls.Size(); m++)
    {
+      // individual paraview can be limited to a part of subdomains.
+      if (!paraviewColls[m]) continue;
       paraviewColls[m]->SetCycle(step);
       paraviewColls[m]->SetTime(time);
    }
-- 
2.43.0


From 072956ceb26749cfc97d6a59893d03ebd9c705dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 41/48] fix: advection-diffusion visualization aborted when a
 part of the subdomains is selected

---
 src/advdiff_solver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/advdiff_solver.cpp b/src/advdiff_solver.cpp
index 9b16800..627efa8 100644
--- a/src/advdiff_solver.cpp
+++ b/src/advdiff_solver.cpp
@@ -182,8 +182,6 @@ void AdvDiffSolver::SaveVisualization()
    if (!visual.save) return;
 
    assert(paraviewColls.Size() > 0);
-   for (int k = 0; k < paraviewColls.Size(); k++)
-      assert(paraviewColls[k]);
 
    flow_visual.SetSize(numSub);
    flow_visual = NULL;
@@ -222,7 +220,11 @@ void AdvDiffSolver::SaveVisualization()
    }
    else
       for (int m = 0; m < numSub; m++)
+      {
+         // individual paraview can be limited to a part of subdomains.
+         if (!paraviewColls[m]) continue;
          paraviewColls[m]->RegisterField("flow", flow_visual[m]);
+      }
 
    MultiBlockSolver::SaveVisualization();
 }
-- 
2.43.0


From a9fae8eb01c99bc8d42933a33584b9ef7bff7a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 42/48] fix: visualization of a restarted unsteady run labelled
 its initial state as step 0

---
 src/unsteady_ns_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unsteady_ns_solver.cpp b/src/unsteady_ns_solver.cpp
index ba1c2dc..65f0e70 100644
--- a/src/unsteady_ns_solver.cpp
+++ b/src/unsteady_ns_solver.cpp
@@ -99,7 +99,7 @@ bool UnsteadyNSSolver::Solve(SampleGenerator *sample_generator)
 
    SortByVariables(*U, *U_step);
 
-   SaveVisualization(0, time);
+   SaveVisualization(initial_step, time);
 
    timer.Stop("Solve/init");
 
-- 
2.43.0


From 892e802510b14e41887d1751bf4e40073bc99aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 43/48] fix: final state of an unsteady run overwrote the last
 visualized step

Without a step for the final state, the visualization after the run was saved
under the cycle of the last visualized state when the visualization interval
does not divide the number of timesteps.
---
 src/unsteady_ns_solver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/unsteady_ns_solver.cpp b/src/unsteady_ns_solver.cpp
index 65f0e70..03311b9 100644
--- a/src/unsteady_ns_solver.cpp
+++ b/src/unsteady_ns_solver.cpp
@@ -100,6 +100,7 @@ bool UnsteadyNSSolver::Solve(SampleGenerator *sample_generator)
    SortByVariables(*U, *U_step);
 
    SaveVisualization(initial_step, time);
+   int visual_step = initial_step;
 
    timer.Stop("Solve/init");
 
@@ -118,7 +119,10 @@ bool UnsteadyNSSolver::Solve(SampleGenerator *sample_generator)
 
       if (visual.time_interval &&
           ((step+1) % visual.time_interval) == 0)
+      {
          SaveVisualization(step+1, time);
+         visual_step = step+1;
+      }
 
       if (save_sol && restart_interval &&
           (((step+1) % restart_interval) == 0))
@@ -141,6 +145,10 @@ bool UnsteadyNSSolver::Solve(SampleGenerator *sample_generator)
 
    SortBySubdomains(*U_step, *U);
 
+   /* the final state must not be saved as the state of an earlier step */
+   if (visual_step < nt)
+      SaveVisualization(nt, time);
+
    timer.Stop("Solve/final");
 
    timer.Print("UnsteadyNSSolver::Solve", true);
-- 
2.43.0


From 31b123b0d1c41dccefa9bb0d178eaeb10c7253bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 44/48] fix: basis visualization with separate bases for
 variables

The loop over all bases took each of them for the joint basis of a component.
---
 src/rom_handler.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 3edc51f..6e6c7c6 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -966,7 +966,7 @@ void MFEMROMHandler::SaveBasisVisualization(
 
    std::string visual_prefix = config.GetRequiredOption<std::string>("basis/visualization/prefix");
 
-   for (int c = 0; c < num_rom_ref_blocks; c++)
+   for (int c = 0; c < num_rom_comp; c++)
    {
       std::string file_prefix = visual_prefix;
       file_prefix += "_" + std::to_string(c);
@@ -980,24 +980,21 @@ void MFEMROMHandler::SaveBasisVisualization(
       const int order = fes[midx * num_var]->FEColl()->GetOrder();
       ParaViewDataCollection coll = ParaViewDataCollection(file_prefix.c_str(), mesh);
 
-      Array<int> var_offsets(num_ref_basis[c] * num_var + 1);
-      var_offsets[0] = 0;
-      for (int k = 0, vidx = 1; k < num_ref_basis[c]; k++)
-         for (int v = 0, idx = midx * num_var; v < num_var; v++, idx++, vidx++)
-            var_offsets[vidx] = fes[idx]->GetVSize();
-      var_offsets.PartialSum();
-      BlockVector basis_view(ref_basis[c]->GetData(), var_offsets);
-
-      Array<GridFunction*> basis_gf(num_ref_basis[c] * num_var);
-      basis_gf = NULL;
-      for (int k = 0, idx = 0; k < num_ref_basis[c]; k++)
+      // each variable either has its own basis, or is a part of the common basis.
+      Array<GridFunction*> basis_gf(0);
+      for (int v = 0, fidx = midx * num_var, row = 0; v < num_var; v++, fidx++)
       {
-         for (int v = 0, fidx = midx * num_var; v < num_var; v++, idx++, fidx++)
+         const int b = (separate_variable) ? c * num_var + v : c;
+         if (separate_variable) row = 0;
+
+         for (int k = 0; k < ref_basis[b]->NumCols(); k++)
          {
             std::string field_name = var_names[v] + "_basis_" + std::to_string(k);
-            basis_gf[idx] = new GridFunction(fes[fidx], basis_view.GetBlock(idx), 0);
-            coll.RegisterField(field_name.c_str(), basis_gf[idx]);   
+            GridFunction *gf = new GridFunction(fes[fidx], ref_basis[b]->GetColumn(k) + row);
+            coll.RegisterField(field_name.c_str(), gf);
+            basis_gf.Append(gf);
          }
+         row += fes[fidx]->GetVSize();
       }
 
       coll.SetLevelsOfDetail(order);
-- 
2.43.0


From 65c43bdc51687c00bca1c3b30d10ef5009c27202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 45/48] fix: CGOptimizer stops at a minimum, and stays inside
 its bracketing storage

---
 src/linalg_utils.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 08e6c27..a9571db 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -810,7 +810,7 @@ double CGOptimizer::Brent(const Vector &rhs, const Vector &xi, Vector &sol, doub
    sol1.SetSize(sol.Size());
 
    // initial bracket
-   Vector step(N_mnbrak+1), J_brak(N_mnbrak);
+   Vector step(N_mnbrak+1), J_brak(N_mnbrak+1);
    step = 0.0;
    J_brak = 0.0;
 
@@ -826,6 +826,7 @@ double CGOptimizer::Brent(const Vector &rhs, const Vector &xi, Vector &sol, doub
 
    double amp = b0;
    double a, b, c, fa, fb, fc;
+   bool bracketed = false;
    for (int j = 1; j < N_mnbrak+1; j++)
    {
       add(sol, amp, xi, sol1); // sol1 = sol + amp * xi;
@@ -836,12 +837,16 @@ double CGOptimizer::Brent(const Vector &rhs, const Vector &xi, Vector &sol, doub
       {
          a = step[j-2]; b = step[j-1]; c = step[j];
          fa = J_brak[j-2]; fb = J_brak[j-1]; fc = J_brak[j];
+         bracketed = true;
          break;
       }
       else
          amp *= golden_ratio;
    }
 
+   // there is no minimum to be found in this direction (e.g. a zero vector).
+   if (!bracketed) return 0.0;
+
    assert ((a >= 0) && (b > a) && (c > b));
    Array<double> x_arr(4), J_arr(4);
 
@@ -851,7 +856,7 @@ double CGOptimizer::Brent(const Vector &rhs, const Vector &xi, Vector &sol, doub
       if ( (c-a) < b * lin_tol + eps ) break;
       
       double b_new = b - 0.5 * ( pow(b-a, 2) * (fb-fc) - pow(b-c, 2) * (fb-fa) ) / ( (b-a) * (fb-fc) - (b-c) * (fb-fa) );
-      if ((b_new > c) || (b_new < a) || (abs(log10((c-b) / (b-a))) > 1.0))
+      if (!(b_new <= c) || !(b_new >= a) || (abs(log10((c-b) / (b-a))) > 1.0))
          if ( b > 0.5 * (a+c) )
             b_new = b - Cr * (b-a);
          else
@@ -873,8 +878,9 @@ double CGOptimizer::Brent(const Vector &rhs, const Vector &xi, Vector &sol, doub
          J_arr[1] = fbx, J_arr[2] = fb;
       }
 
-      fb = J_arr.Min();
-      int idx = J_arr.Find(fb); assert(idx > 0);
+      // the end points can have the same objective as well, up to the round-off error.
+      int idx = (J_arr[1] <= J_arr[2]) ? 1 : 2;
+      fb = J_arr[idx];
       fa = J_arr[idx-1]; fc = J_arr[idx+1];
       a = x_arr[idx-1]; b = x_arr[idx]; c = x_arr[idx+1];
    }
@@ -915,6 +921,7 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
    {
       // sol is updated within Brent.
       b0 = Brent(rhs, xi, sol, b0);
+      if (b0 == 0.0) break;
 
       // evaluate one more time to obtain sub-objective functional.
       Jmin = Objective(rhs, sol);
@@ -935,7 +942,14 @@ void CGOptimizer::Mult(const Vector &rhs, Vector &sol) const
          printf("CG minimization finished.");
          break;
       }
-         
+
+      // sol is at a minimum, there is no further direction to search.
+      if (dgg1 == 0.0)
+      {
+         converged = true;
+         break;
+      }
+
       gamma = dgg / gg;
       gamma_FR = dgg1 / gg;
       if (j > 0)
-- 
2.43.0


From 0037de4a2d481cfdebc66031d298e94195befefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:55 +0000
Subject: [PATCH 46/48] fix: a sparse matrix without entries read from HDF5 is
 a usable matrix

---
 src/hdf5_utils.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 1109241..7493e7a 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -195,14 +195,24 @@ SparseMatrix* ReadSparseMatrix(hid_t &source, std::string matrix_name)
    assert(j_read.Size() == i_read[size[0]]);
    assert(data_read.Size() == i_read[size[0]]);
 
-   // Need to transfer the ownership to avoid segfault or double-free.
-   int *ip, *jp;
-   double *vp;
-   i_read.StealData(&ip);
-   j_read.StealData(&jp);
-   data_read.StealData(&vp);
-
-   SparseMatrix *mat = new SparseMatrix(ip, jp, vp, size[0], size[1]);
+   SparseMatrix *mat = NULL;
+   if (i_read[size[0]] > 0)
+   {
+      // Need to transfer the ownership to avoid segfault or double-free.
+      int *ip, *jp;
+      double *vp;
+      i_read.StealData(&ip);
+      j_read.StealData(&jp);
+      data_read.StealData(&vp);
+
+      mat = new SparseMatrix(ip, jp, vp, size[0], size[1]);
+   }
+   else
+   {
+      // There is no data to transfer for a matrix without entries.
+      mat = new SparseMatrix(size[0], size[1]);
+      mat->Finalize();
+   }
 
    errf = H5Gclose(grp_id);
    assert(errf >= 0);
-- 
2.43.0


From 32706956bb4565bf1605d34e7ef0241c1e355678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 47/48] fix: project the solution onto the reduced basis per
 variable when saving the reduced solution

---
 include/multiblock_solver.hpp |  2 ++
 src/main_workflow.cpp         |  2 +-
 src/multiblock_solver.cpp     | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/multiblock_solver.hpp b/include/multiblock_solver.hpp
index ea327e0..3fbab0b 100644
--- a/include/multiblock_solver.hpp
+++ b/include/multiblock_solver.hpp
@@ -250,6 +250,8 @@ public:
    virtual void LoadReducedBasis() { rom_handler->LoadReducedBasis(); }
    virtual void ProjectOperatorOnReducedBasis() = 0;
    virtual void ProjectRHSOnReducedBasis();
+   // project the current solution. ROMHandler::reduced_rhs is used to store it.
+   void ProjectSolutionOnReducedBasis();
    virtual void SolveROM();
    virtual void SaveBasisVisualization()
    { rom_handler->SaveBasisVisualization(fes, var_names); }
diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index 28bb8dc..2527636 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -669,7 +669,7 @@ double SingleRun(MPI_Comm comm, const std::string output_file)
          rom->SaveReducedSolution("rom_reduced_sol.txt");
 
          // use ROMHandler::reduced_rhs as a temporary variable.
-         rom->ProjectRHSOnReducedBasis(test->GetSolution());
+         test->ProjectSolutionOnReducedBasis();
          rom->SaveReducedRHS("fom_reduced_sol.txt");
       }
 
diff --git a/src/multiblock_solver.cpp b/src/multiblock_solver.cpp
index e237760..16cac90 100644
--- a/src/multiblock_solver.cpp
+++ b/src/multiblock_solver.cpp
@@ -682,6 +682,20 @@ void MultiBlockSolver::ProjectRHSOnReducedBasis()
    delete RHS_domain;
 }
 
+void MultiBlockSolver::ProjectSolutionOnReducedBasis()
+{
+   // View vector for U.
+   BlockVector *U_domain = NULL;
+   if (separate_variable_basis)
+      U_domain = new BlockVector(U->GetData(), var_offsets);
+   else
+      U_domain = new BlockVector(U->GetData(), domain_offsets);
+
+   rom_handler->ProjectRHSOnReducedBasis(U_domain);
+
+   delete U_domain;
+}
+
 void MultiBlockSolver::SolveROM()
 {
    // View vector for U.
-- 
2.43.0


From 4902a84a879c9d55f4b9e710c339655a92112851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 48/48] fix: save the ROM system only when the ROM is in use

---
 src/main_workflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main_workflow.cpp b/src/main_workflow.cpp
index 2527636..6273415 100644
--- a/src/main_workflow.cpp
+++ b/src/main_workflow.cpp
@@ -623,7 +623,7 @@ double SingleRun(MPI_Comm comm, const std::string output_file)
 
    /* save the ROM system for analysis/debug */
    bool save_rom = config.GetOption<bool>("model_reduction/save_linear_system/enabled", false);
-   if (save_rom)
+   if (test->UseRom() && save_rom)
    {
       std::string rom_prefix = config.GetRequiredOption<std::string>("model_reduction/save_linear_system/prefix");
       rom->SaveRomSystem(rom_prefix);
-- 
2.43.0

