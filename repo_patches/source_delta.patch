From 76f9fad8f98fece65082f4310674339a8c010f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 01/74] fix: principal values of a hydrostatic symmetric tensor

SymmTensor::principal() returned the first deviatoric component (zero)
instead of the mean value when the deviator vanishes.
---
 src/Utility/Tensor.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 7861337..18c9062 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -1181,7 +1181,7 @@ bool SymmTensor::principal (Vec3& p, bool sorted) const
   Real b2 = (s1*s1 + s2*s2 + s3*s3)/Real(2) + c1 + c2 + c3;
   if (b2 <= tol*b1*b1)
   {
-    p = s1;
+    p = b1;
     return true;
   }
 
-- 
2.43.0


From 8e1296029fecacffdcf305c43ba3e603c9ba5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 02/74] fix: variable step size in the second step of the BDF2
 scheme

The constant-step coefficients were used in the second step also when it
differs in size from the first one, making the formula inconsistent.
---
 src/Utility/BDF.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/BDF.C b/src/Utility/BDF.C
index 64aefd5..698b5ea 100644
--- a/src/Utility/BDF.C
+++ b/src/Utility/BDF.C
@@ -49,7 +49,7 @@ bool TimeIntegration::BDF::advanceStep (double dt, double dtn)
   if (coefs1.size() < 2)
     return false; // stationary problem
 
-  if (++step > 2 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
+  if (++step > 1 && degree == 1 && coefs.size() == 3 && dt > 0.0 && dtn > 0.0)
   {
     double tau = dt/dtn;
     double taup1 = tau + 1.0;
-- 
2.43.0


From 79ada79dc3d5965dad82249071722a6e54f7e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 03/74] fix: start time ignored when fast-forwarding to a given
 step

TimeStep::reset() started from zero time instead of the start time when
stepping through a schedule, as is done after a restart.
---
 src/SIM/TimeStep.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 96f69ae..25639de 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -211,7 +211,8 @@ bool TimeStep::reset (int istep)
   if (istep == 0)
     stopTime = mySteps.back().second;
   time.dt = mySteps.front().first.front();
-  time.dtn = time.t = time.CFL = 0.0;
+  time.dtn = time.CFL = 0.0;
+  time.t = starTime;
   for (int i = 0; i < istep; i++)
     if (!this->increment())
       return false;
-- 
2.43.0


From 8b7ba6497760dc3fb4d719a754fdf1e777043a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 04/74] fix: cut-back of the last time step before a new step
 definition

TimeStep::cutback() altered the next time step definition instead of the
one the diverged step belongs to, and the end of the latter was missed.
---
 src/SIM/TimeStep.C | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 25639de..3686c03 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -320,6 +320,12 @@ bool TimeStep::cutback ()
   niter = 10;
   time.first = 'c';
   time.t += time.dt - dt;
+  if (lstep == 0 && stepIt != mySteps.begin())
+  {
+    // The step that diverged was the last one of the previous step definition
+    --stepIt;
+    lstep = stepIt->first.size();
+  }
   if (stepIt != mySteps.end())
     stepIt->first.back() = time.dt;
 
-- 
2.43.0


From 38bc83d854535ed963c7f2b5b9a9cfdf2cfb41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 05/74] fix: dimensions of off-diagonal blocks in symmetric
 block element matrices

BlockElmMats::redimOffDiag() used the non-symmetric block order when all
off-diagonal blocks of the upper triangle are present, in contrast to
getNewtonMatrix().
---
 src/ASM/BlockElmMats.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/BlockElmMats.C b/src/ASM/BlockElmMats.C
index 6e3fa26..e15e6bc 100644
--- a/src/ASM/BlockElmMats.C
+++ b/src/ASM/BlockElmMats.C
@@ -55,7 +55,7 @@ bool BlockElmMats::redimOffDiag (size_t blkIndex, char symmetric)
     return false; // Not an off-diagonal sub-matrix
 
   size_t kb = nDiagB;
-  bool symm = A.size()-1 < nDiagB*(nDiagB+1)/2;
+  bool symm = A.size()-1 <= nDiagB*(nDiagB+1)/2;
   if (symmFlag.empty())
     symmFlag.resize(nDiagB*(nDiagB-1) / (symm ? 2 : 1), 0);
   for (size_t ib = 0; ib < nDiagB; ib++)
-- 
2.43.0


From 38bf78de8daaae43aad380484f4c5eac24749fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 06/74] fix: duplicated point in the 3-point triangle
 quadrature rule

---
 src/Utility/TriangleQuadrature.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/TriangleQuadrature.C b/src/Utility/TriangleQuadrature.C
index d175404..7a82d0c 100644
--- a/src/Utility/TriangleQuadrature.C
+++ b/src/Utility/TriangleQuadrature.C
@@ -23,7 +23,7 @@ static const double W1[1] = { 1.0 };
 //! \brief 3-point rule coordinates.
 static const double T3[6] = {
   0.5, 0.5,
-  0.5, 0.5,
+  0.5, 0.0,
   0.0, 0.5
 };
 //! \brief 3-point rule weights.
-- 
2.43.0


From 1bfae3aa871e611669c829a4837b71b01581dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 07/74] fix: Gauss-Legendre rule with two points

---
 src/Utility/Legendre.C | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/Utility/Legendre.C b/src/Utility/Legendre.C
index 29d5855..e70aeec 100644
--- a/src/Utility/Legendre.C
+++ b/src/Utility/Legendre.C
@@ -25,15 +25,12 @@ bool Legendre::GL (RealArray& weights, RealArray& points, int n)
   A(1,2) = Real(1);
 
   int i;
-  if (n > 2)
+  for (i = 2; i < n; i++)
   {
-    for (i = 2; i < n; i++)
-    {
-      A(i,i-1) = Real(i-1)/Real(2*i-1);
-      A(i,i+1) = Real(i)  /Real(2*i-1);
-    }
-    A(n,n-1) = Real(n-1)/Real(2*n-1);
+    A(i,i-1) = Real(i-1)/Real(2*i-1);
+    A(i,i+1) = Real(i)  /Real(2*i-1);
   }
+  A(n,n-1) = Real(n-1)/Real(2*n-1);
 
   RealArray eig_complex(n), evalpoints(n);
   if (!A.solveEigNon(evalpoints,eig_complex)) return false;
-- 
2.43.0


From 24732d7788eeafcf80656189d8729b32f685ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 08/74] fix: derivative of second kind Chebyshev polynomials at
 the end points

---
 src/Utility/Chebyshev.C | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Utility/Chebyshev.C b/src/Utility/Chebyshev.C
index ea03879..e91f7a6 100644
--- a/src/Utility/Chebyshev.C
+++ b/src/Utility/Chebyshev.C
@@ -52,6 +52,14 @@ Real Chebyshev::evalDer1 (int polnum, Real xi)
 
 Real Chebyshev::evalDer2 (int polnum, Real xi)
 {
+  if (polnum < 1)
+    return 0.0;
+
+  if (std::abs(xi-1.0) < 1.0e-6)
+    return polnum * (polnum+1.0) * (polnum+2.0) / 3.0;
+  else if (std::abs(1.0+xi) < 1.0e-6)
+    return pow(-1.0,polnum+1) * polnum * (polnum+1.0) * (polnum+2.0) / 3.0;
+
   return ((polnum+1)*evalPol1(polnum+1, xi) - xi*evalPol2(polnum, xi)) / (xi*xi - 1.0);
 }
 
-- 
2.43.0


From f70525dd68e2f5389f9d9dd3dd9e270b3b0737bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 09/74] fix: time derivative of the rotation functions

---
 src/Utility/Functions.C | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 4b681df..74e0e24 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -572,7 +572,7 @@ Real LinearRotZFunc::evaluate (const Vec3& X) const
 
 Real LinearRotZFunc::deriv (const Vec3& X, int dir) const
 {
-  if (dir > 2) return Real(0);
+  if (dir == 3) return Real(0);
 
   // Always return zero if the argument has no time component
   const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
@@ -582,8 +582,13 @@ Real LinearRotZFunc::deriv (const Vec3& X, int dir) const
     return rX ?  cos(A*Xt->t) - Real(1) : sin(A*Xt->t);
   else if (dir == 2)
     return rX ? -sin(A*Xt->t) : cos(A*Xt->t) - Real(1);
-  else
-    return Real(0);
+
+  // Time derivative
+  Real x = X.x - x0;
+  Real y = X.y - y0;
+  Real c = cos(A*Xt->t);
+  Real s = sin(A*Xt->t);
+  return A*(rX ? -x*s-y*c : x*c-y*s);
 }
 
 
-- 
2.43.0


From 64ba3471ab42a01cdd588297f39b4d3bd8c4fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 10/74] fix: mixed second derivative of ramped interpolation
 functions

---
 src/Utility/Functions.C | 13 +++++++++++++
 src/Utility/Functions.h |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/Utility/Functions.C b/src/Utility/Functions.C
index 74e0e24..6c09ad9 100644
--- a/src/Utility/Functions.C
+++ b/src/Utility/Functions.C
@@ -669,6 +669,19 @@ Real Interpolate1D::deriv (const Vec3& X, int ddir) const
 }
 
 
+Real Interpolate1D::dderiv (const Vec3& X, int dir1, int dir2) const
+{
+  // The only non-zero term is the mixed derivative during the ramp-up
+  const Vec4* Xt = dynamic_cast<const Vec4*>(&X);
+  if (!Xt || time <= Real(0) || Xt->t >= time)
+    return Real(0);
+  else if ((dir1 == dir+1 && dir2 > 3) || (dir1 > 3 && dir2 == dir+1))
+    return lfunc.deriv(X[dir])/time;
+  else
+    return Real(0);
+}
+
+
 /*!
   The functions are assumed on the general form
   \f[ f({\bf X},t) = A * g({\bf X}) * h(t) \f]
diff --git a/src/Utility/Functions.h b/src/Utility/Functions.h
index 4cd22ca..00b935f 100644
--- a/src/Utility/Functions.h
+++ b/src/Utility/Functions.h
@@ -635,6 +635,8 @@ public:
 
   //! \brief Returns first-derivative of the function.
   Real deriv(const Vec3&, int ddir) const override;
+  //! \brief Returns second-derivative of the function.
+  Real dderiv(const Vec3&, int dir1, int dir2) const override;
 
 protected:
   //! \brief Evaluates the function by interpolation.
-- 
2.43.0


From 351b38b5ba6c24dcb0460c67f74f53859354e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 11/74] fix: column offset in matrix4d::fillColumn

---
 src/LinAlg/matrixnd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/matrixnd.h b/src/LinAlg/matrixnd.h
index 0a6d337..7b8c74c 100644
--- a/src/LinAlg/matrixnd.h
+++ b/src/LinAlg/matrixnd.h
@@ -323,7 +323,7 @@ namespace utl
       CHECK_INDEX("matrix4d::fillColumn: Third index " ,i3,this->n[2]);
       CHECK_INDEX("matrix4d::fillColumn: Fourth index ",i4,this->n[3]);
       size_t ndata = this->n[0] > data.size() ? data.size() : this->n[0];
-      memcpy(this->ptr(i2-1 + this->n[1]*((i3-1)) + this->n[2]*(i4-1)),
+      memcpy(this->ptr(i2-1 + this->n[1]*((i3-1) + this->n[2]*(i4-1))),
              data.data(),ndata*sizeof(T));
     }
 
-- 
2.43.0


From b4663927d3e70473794b9a6e66c95b72d936a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 12/74] fix: node and local DOF of an equation number

---
 src/LinAlg/SAM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 53f2cac..7e7effa 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -103,7 +103,7 @@ std::pair<int,int> SAM::getNodeAndLocalDof (int idof, bool eqno) const
   if (eqno)
   {
     if (int* eq = std::find(meqn,meqn+ndof,idof); eq != meqn+ndof)
-      idof = std::distance(meqn,eq);
+      idof = 1 + std::distance(meqn,eq);
     else
       return { 0, 0 };
   }
-- 
2.43.0


From d762d98ec13a007b9e64f55d2fe8ef5084b27133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 13/74] fix: value of the last degree of freedom in
 SAM::getDofVal

---
 src/LinAlg/SAM.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 7e7effa..08c21c3 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -761,7 +761,7 @@ Real SAM::getDofVal (const RealArray& dofVec, int inod, int ldof) const
 
   int idof = madof[inod-1] + ldof-1;
   int ndof = static_cast<int>(dofVec.size());
-  return idof < madof[inod] && idof < ndof ? dofVec[idof-1] : Real(0);
+  return idof < madof[inod] && idof <= ndof ? dofVec[idof-1] : Real(0);
 }
 
 
-- 
2.43.0


From c96f9d5a75dc01930057d43f9764bf489e589860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 14/74] fix: accumulate reaction forces from several prescribed
 DOFs in an element

---
 src/LinAlg/SAM.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/SAM.C b/src/LinAlg/SAM.C
index 08c21c3..1bf804f 100644
--- a/src/LinAlg/SAM.C
+++ b/src/LinAlg/SAM.C
@@ -455,7 +455,7 @@ bool SAM::assembleSystem (SystemMatrix& sysK, SystemVector& sysRHS,
 	if (meen[i-1] < 1)
 	{
 	  eS.resize(eK.rows());
-	  eS(i) = -c0*eK(i,j);
+	  eS(i) -= c0*eK(i,j);
 	}
     }
 
@@ -503,7 +503,7 @@ bool SAM::assembleSystem (SystemVector& sysRHS,
       if (reactionForces && ieq < 1)
       {
         eS.resize(eK.rows());
-        eS(i) = -c0*eK(i,j);
+        eS(i) -= c0*eK(i,j);
       }
     }
   }
-- 
2.43.0


From 1a1a525f3c7b0513fcc8bdb68e45ad0e666f9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 15/74] fix: sparse matrix-vector product with column-oriented
 UMFPACK storage

The compressed UMFPACK format is column-oriented with 0-based indices,
as for SuperLU, but the product read it as row-oriented and 1-based.
---
 src/LinAlg/SparseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index 3806803..b7bda08 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -588,7 +588,7 @@ bool SparseMatrix::multiply (const SystemVector& B, SystemVector& C) const
   if (editable)
     for (const ValueMap::value_type& val : elem)
       (*Cptr)(val.first.first) += val.second*(*Bptr)(val.first.second);
-  else if (solver == SUPERLU) {
+  else if (solver == SUPERLU || solver == UMFPACK) {
     double* y = Cptr->ptr();
 #pragma omp parallel for schedule(static) reduction(+:y[0:nrow])
       for (size_t j = 1; j <= ncol; j++)
-- 
2.43.0


From 12ffbddf02e60e621853089726be619628e12a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 16/74] fix: adding a compressed sparse matrix to an editable
 one

The storage orientation is that of the matrix being added.
---
 src/LinAlg/SparseMatrix.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index b7bda08..ee72d48 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -544,7 +544,7 @@ bool SparseMatrix::add (const SystemMatrix& B, Real alpha)
   }
   else if (editable == 'P')
   {
-    if (solver == SUPERLU || solver == UMFPACK)
+    if (Bptr->solver == SUPERLU || Bptr->solver == UMFPACK)
       // Column-oriented format with 0-based indices
       for (size_t j = 1; j <= Bptr->ncol; j++)
         for (int i = Bptr->IA[j-1]; i < Bptr->IA[j]; i++)
-- 
2.43.0


From d2f563e877c61d306db954f462175be580851d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 17/74] fix: constrained DOFs in assembly of sparse matrix
 columns

The contribution from a constrained DOF has to be multiplied by the
constraint equation coefficients, and masters that are prescribed or
absent have no equation.
---
 src/LinAlg/SparseMatrix.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index ee72d48..c128a60 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -707,8 +707,9 @@ static void assemSparse (const RealArray& V, SparseMatrix& SM, size_t col,
     else if (ceq > 0)
       for (int ip = mpmceq[ceq-1]; ip < mpmceq[ceq]-1; ip++)
       {
-        ieq = meqn[mmceq[ip]-1];
-        SM(ieq,col) += vd;
+        ieq = mmceq[ip] > 0 ? meqn[mmceq[ip]-1] : 0;
+        if (ieq > 0)
+          SM(ieq,col) += ttcc[ip]*vd;
       }
   }
 }
-- 
2.43.0


From 448f788928ae014738f44812758aed746a2ef00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 18/74] fix: dump of sparse matrices in compressed format

The row-oriented branch printed the wrong values, and both branches
printed the first entry twice when the first row or column was empty.
---
 src/LinAlg/SparseMatrix.C | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LinAlg/SparseMatrix.C b/src/LinAlg/SparseMatrix.C
index c128a60..d086cdc 100644
--- a/src/LinAlg/SparseMatrix.C
+++ b/src/LinAlg/SparseMatrix.C
@@ -374,20 +374,18 @@ void SparseMatrix::dump (std::ostream& os, LinAlg::StorageFormat format,
   else if (solver == SUPERLU || solver == UMFPACK)
   {
     // Column-oriented format with 0-based indices
-    os << JA.front()+1 <<" 1 "<< A[0];
     for (size_t j = 1; j <= ncol; j++)
       for (int i = IA[j-1]; i < IA[j]; i++)
-        if (j > 1 || i != IA.front())
-          os << end << JA[i]+1 <<' '<< j <<' '<< A[i];
+        os << (i > 0 ? end : std::string())
+           << JA[i]+1 <<' '<< j <<' '<< A[i];
   }
   else
   {
     // Row-oriented format with 1-based indices
-    os <<"1 "<< JA.front() <<' '<< A[0];
     for (size_t i = 1; i <= nrow; i++)
       for (int j = IA[i-1]; j < IA[i]; j++)
-        if (i > 1 || j != IA.front())
-          os << end << i <<' '<< JA[j-1] <<' '<< A[i-1];
+        os << (j > 1 ? end : std::string())
+           << i <<' '<< JA[j-1] <<' '<< A[j-1];
   }
 
   if (format == LinAlg::MATLAB) os <<"]";
-- 
2.43.0


From ddf0775c3f489985a48a58c39d3043f07333adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 19/74] fix: size of the product of a diagonal matrix and a
 vector

The result vector is dimensioned by the product, as for the other
matrix types. With an empty result vector nothing was computed.
---
 src/LinAlg/DiagMatrix.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LinAlg/DiagMatrix.C b/src/LinAlg/DiagMatrix.C
index 3179d41..e914082 100644
--- a/src/LinAlg/DiagMatrix.C
+++ b/src/LinAlg/DiagMatrix.C
@@ -187,6 +187,8 @@ bool DiagMatrix::add (Real sigma, int ieq)
 
 bool DiagMatrix::multiply (const SystemVector& B, SystemVector& C) const
 {
+  C.resize(myMat.size());
+
   const Real* a = myMat.ptr();
   const Real* b = B.getRef();
   Real*       c = C.getPtr();
-- 
2.43.0


From 2a8afbab08c10efde4c451b193f273f109c813af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 20/74] fix: solution of diagonal systems with several
 right-hand sides

Only the first right-hand side was solved, and the unknowns following a
zero pivot were divided by the wrong matrix element.
---
 src/LinAlg/DiagMatrix.C | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/LinAlg/DiagMatrix.C b/src/LinAlg/DiagMatrix.C
index e914082..cb7d1a0 100644
--- a/src/LinAlg/DiagMatrix.C
+++ b/src/LinAlg/DiagMatrix.C
@@ -206,11 +206,12 @@ bool DiagMatrix::solve (SystemVector& B, Real*)
 
   int nzero = 0;
   Real* b = B.getPtr();
-  for (Real pivot : myMat)
-    if (fabs(pivot) < 1.0e-16)
+  const size_t n = myMat.size();
+  for (size_t i = 0; i < n; i++)
+    if (fabs(myMat[i]) < 1.0e-16)
       ++nzero;
-    else
-      *(b++) /= pivot;
+    else for (size_t j = i; j < B.dim(); j += n)
+      b[j] /= myMat[i];
 
   if (nzero == 0) return true;
   std::cerr <<" *** DiagMatrix::solve: Singular matrix, "
-- 
2.43.0


From 17f11ff281f847305715fe1e8c179d0c2528a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 21/74] fix: reading outside the input vector in utl::gather

A column which only is partly inside the input vector is outside.
---
 src/Utility/Utilities.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utility/Utilities.C b/src/Utility/Utilities.C
index 2400498..82ae8d0 100644
--- a/src/Utility/Utilities.C
+++ b/src/Utility/Utilities.C
@@ -399,7 +399,7 @@ int utl::gather (const std::vector<int>& index, size_t nr,
   const Real* data = &in.front() + offset_in;
   Real* outVec = &out.front();
   for (size_t i = 0; i < nout; i++, outVec += nr)
-    if (index[i] >= 0 && offset_in+nr*index[i] < in.size())
+    if (index[i] >= 0 && offset_in+nr*(index[i]+1) <= in.size())
       memcpy(outVec,data+nr*index[i],nr*sizeof(Real));
     else if (index[i] >= 0)
       outside++;
@@ -417,7 +417,7 @@ int utl::gather (const std::vector<int>& index, size_t nr,
   out.resize(nr,nout);
   const Real* data = &in.front() + offset_in;
   for (size_t i = 0; i < nout; i++)
-    if (index[i] >= 0 && offset_in+nr*index[i] < in.size())
+    if (index[i] >= 0 && offset_in+nr*(index[i]+1) <= in.size())
       out.fillColumn(1+i,data+nr*index[i]);
     else if (index[i] >= 0)
       outside++;
-- 
2.43.0


From ad983202b31b7f5b2639be2b5b6ca8d3b613d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 22/74] fix: assembly of norms with empty norm groups

An empty group shifted the values of the groups following it, and
element norms beyond the last group were checked against a group that
does not exist.
---
 src/ASM/GlbNorm.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/GlbNorm.C b/src/ASM/GlbNorm.C
index b566870..5886ac7 100644
--- a/src/ASM/GlbNorm.C
+++ b/src/ASM/GlbNorm.C
@@ -47,7 +47,7 @@ bool GlbNorm::assemble (const LocalIntegral* elmObj, int elmId)
   size_t i, j, k;
   for (i = j = k = 0; i < elVals.size(); i++)
   {
-    if (j >= myVals[k].size())
+    while (k < myVals.size() && j >= myVals[k].size())
       k++, j = 0;
     if (k < myVals.size() && j < myVals[k].size())
       myVals[k][j++] += elVals[i];
-- 
2.43.0


From 375cdad1560a271b35a1660f9073559e9b4cbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 23/74] fix: buffer overflow when polling a long control
 message

The terminating zero was written past the end of the buffer when it
was filled completely.
---
 src/Utility/ControlFIFO.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/ControlFIFO.C b/src/Utility/ControlFIFO.C
index 1beba48..1125f12 100644
--- a/src/Utility/ControlFIFO.C
+++ b/src/Utility/ControlFIFO.C
@@ -55,7 +55,7 @@ void ControlFIFO::poll ()
 
   char temp[2048];
   temp[0] = '\0';
-  int len = read(fifo, temp, 2048);
+  int len = read(fifo, temp, sizeof(temp)-1);
   if (len < 0)
     return;
 
-- 
2.43.0


From 8afd94db343e8d0c64072862cada8384639bd0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 24/74] fix: use after free when overriding a Dirichlet
 condition

The set iterator was dereferenced after it was erased.
---
 src/ASM/ASMbase.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index fc8e667..dc85638 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -562,9 +562,10 @@ bool ASMbase::addMPC (MPC*& mpc, int code, bool verbose, bool overrideD)
     if (verbose)
       std::cout <<"Replacing constraint "<< **mit.first <<" by "<< *mpc;
 #endif
-    dCode.erase(*mit.first);
+    MPC* oldMPC = *mit.first;
+    dCode.erase(oldMPC);
     mpcs.erase(mit.first);
-    delete *mit.first;
+    delete oldMPC;
     mpcs.insert(mpc);
     if (code > 0) dCode[mpc] = code;
     return true;
-- 
2.43.0


From cdeca6a7c622a4667a800ee729a969d26476a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 25/74] fix: sorting of constraint equations when renumbering
 nodes

The constraint equations are kept in containers sorted on the node
numbers. Renumbering in place broke the sorting, such that existing
constraints were not found and a slave could be constrained twice.
---
 src/ASM/ASMbase.C | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index dc85638..e99034c 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1413,9 +1413,28 @@ bool ASMbase::renumberNodes (const IntMap& old2new, const IntVec& new2old,
       ++invalid;
     }
 
-  for (MPC* mpc : mpcs)
+  // The MPC-equations are sorted on the node numbers, so the containers
+  // have to be rebuilt unless the renumbering preserves the node order
+  MPCSet oldMPCs;
+  MPCMap oldCode;
+  oldMPCs.swap(mpcs);
+  oldCode.swap(dCode);
+  for (MPC* mpc : oldMPCs)
     invalid += mpc->renumberNodes(old2new,printInvalidNodes);
 
+  std::vector<MPC*> duplicates;
+  for (MPC* mpc : oldMPCs)
+    if (!mpcs.insert(mpc).second)
+      duplicates.push_back(mpc); // Collapsed nodes with the same slave DOF
+
+  for (const MPCMap::value_type& code : oldCode)
+    if (MPCIter it = mpcs.find(code.first); it != mpcs.end())
+      if (*it == code.first)
+        dCode.insert(code);
+
+  for (MPC* mpc : duplicates)
+    delete mpc;
+
   if (invalid > 0 && renumAll)
   {
     std::cerr <<" *** "<< invalid <<" invalid nodes found while renumbering\n";
-- 
2.43.0


From 776bcaef6462edefbd48f391425d7acd93c91d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 26/74] fix: update of prescribed values in constraint
 equations

A prescribed value returning to zero was not imposed, and in equations
with both a prescribed part and free masters the contribution from the
previous values of the masters was missing.
---
 src/ASM/SAMpatch.C | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index 97c7e74..4a5e20e 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -404,13 +404,16 @@ bool SAMpatch::updateConstraintEqs (const Vector* prevSol)
       for (size_t i = 0; prevSol && i < (*cit)->getNoMaster(); i++)
         update((*cit)->getMaster(i),c0,ipeq,Real(1));
 
-      // Update the constant term of the constraint equation
-      if (!prevSol || c0 == Real(0)) // Note: c0=0 means no constant offset
-        ttcc[jpeq] = Real(0);
-      else if (idof <= (int)prevSol->size())
-	ttcc[jpeq] = c0 - (*prevSol)(idof);
-      else
-	ttcc[jpeq] = c0;
+      // Update the constant term of the constraint equation, such that the
+      // equation is fulfilled by the sum of prevSol and the solution increment
+      ttcc[jpeq] = prevSol ? c0 : Real(0);
+      if (prevSol && idof <= (int)prevSol->size())
+      {
+        ttcc[jpeq] -= (*prevSol)(idof);
+        for (int k = jpeq+1; k < mpmceq[(*cit)->iceq+1]-1; k++)
+          if (mmceq[k] > 0 && mmceq[k] <= (int)prevSol->size())
+            ttcc[jpeq] += ttcc[k]*(*prevSol)(mmceq[k]);
+      }
 
 #if SP_DEBUG > 1
       std::cout <<"Updated constraint value for dof="<< idof <<": "<< ttcc[jpeq]
-- 
2.43.0


From f213d3178414d7f15e927bf20bea9ae48b2d1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 27/74] fix: inversion of matrices whose determinant equals
 -999

---
 src/LinAlg/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/matrix.h b/src/LinAlg/matrix.h
index 4b0b300..39679b9 100644
--- a/src/LinAlg/matrix.h
+++ b/src/LinAlg/matrix.h
@@ -814,8 +814,8 @@ namespace utl //! General utility classes and functions.
     T inverse(T tol = T(0))
     {
       T Det = this->det();
-      if (Det == T(-999))
-        return Det;
+      if (nrow < ncol || ncol > 3)
+        return Det; // not available for this dimension
       else if (Det <= tol && Det >= -tol) {
         std::cerr <<"matrix::inverse: Singular matrix |A|="<< Det << std::endl;
         ABORT_ON_SINGULARITY;
-- 
2.43.0


From 31dd16ac573a443df63545812d22afec1c789d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 28/74] fix: Jacobian gradient accumulated onto old contents of
 a reused array

---
 src/Utility/CoordinateMapping.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/CoordinateMapping.C b/src/Utility/CoordinateMapping.C
index a79f36a..e07da49 100644
--- a/src/Utility/CoordinateMapping.C
+++ b/src/Utility/CoordinateMapping.C
@@ -319,7 +319,7 @@ void utl::JacobianGradient (const matrix<Real>& dudX,
   for (j = 1; j <= dim; ++j)
   {
     matrix<Real>& dJ = dJdX[j-1];
-    dJ.resize(dim, dim);
+    dJ.resize(dim, dim, true);
     for (i = 0; i < dim; ++i)
       dJ.add(dJdu[i], dudX(i+1,j));
   }
-- 
2.43.0


From 587f8de071c404223ed07ec5d58860d240c66536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 29/74] fix: thread groups kept old contents when recalculated

---
 src/Utility/ThreadGroups.C | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Utility/ThreadGroups.C b/src/Utility/ThreadGroups.C
index 79de268..346ed83 100644
--- a/src/Utility/ThreadGroups.C
+++ b/src/Utility/ThreadGroups.C
@@ -56,7 +56,7 @@ void ThreadGroups::oneGroup (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneGroup(nel);
   else {
-    tg[0].resize(1, elms.front() >= 0 ? elms : IntVec{});
+    tg[0].assign(1, elms.front() >= 0 ? elms : IntVec{});
     tg[1].resize(0);
   }
 }
@@ -64,6 +64,7 @@ void ThreadGroups::oneGroup (size_t nel, const IntVec& elms)
 
 void ThreadGroups::oneStripe (size_t nel)
 {
+  tg[0].clear();
   tg[0].resize(nel);
   tg[1].resize(0);
   for (size_t iel = 0; iel < nel; iel++)
@@ -76,6 +77,7 @@ void ThreadGroups::oneStripe (size_t nel, const IntVec& elms)
   if (elms.empty())
     this->oneStripe(nel);
   else {
+    tg[0].clear();
     tg[0].resize(elms.size());
     tg[1].resize(0);
     if (elms.front() >= 0)
@@ -163,6 +165,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
+      tg[i].clear();
       tg[i].resize(threads);
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
@@ -233,6 +236,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
+      tg[i].clear();
       tg[i].resize(threads);
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
@@ -330,6 +334,7 @@ void ThreadGroups::calcGroups (const BoolVec& el1, const BoolVec& el2,
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
+      tg[i].clear();
       tg[i].resize(threads);
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
@@ -403,6 +408,7 @@ void ThreadGroups::calcGroups (int nel1, int nel2, int nel3, int minsize)
     }
 
     for (i = 0; i < 2; ++i) { // loop over groups
+      tg[i].clear();
       tg[i].resize(threads);
       for (int t = 0; t < threads; ++t) { // loop over threads
         int maxx = stripDir == U ? stripsizes[i][t] : nel1;
-- 
2.43.0


From e1a8b91d49073bf5e2442b7c153f2455bbe18882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 30/74] fix: unsigned underflow in the size of the last
 sub-domain

---
 src/ASM/DomainDecomposition.C | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ASM/DomainDecomposition.C b/src/ASM/DomainDecomposition.C
index 8e2735c..a69b7c6 100644
--- a/src/ASM/DomainDecomposition.C
+++ b/src/ASM/DomainDecomposition.C
@@ -352,7 +352,7 @@ DomainDecomposition::calcSubdomains1D (size_t nel1, size_t g1, size_t overlap)
     size_t ofs1 = 0;
     for (size_t gu = 0; gu < g1; ++gu) {
       if (gu == g1 - 1)
-        nel1_sub = nel1 - ofs1;
+        nel1_sub = nel1 > ofs1 ? nel1 - ofs1 : 0;
       subdomains[gu].reserve(nel1_sub);
       for (size_t i = 0; i < nel1_sub && ofs1 + i < nel1; ++i)
         subdomains[gu].push_back(ofs1 + i);
@@ -384,12 +384,12 @@ DomainDecomposition::calcSubdomains2D (size_t nel1, size_t nel2,
     size_t ofs2 = 0;
     for (size_t gv = 0; gv < g2; ++gv) {
       if (gv == g2 - 1)
-        nel2_sub = nel2 - ofs2;
+        nel2_sub = nel2 > ofs2 ? nel2 - ofs2 : 0;
       size_t nel1_sub = floor(double(nel1)/g1 + 1);
       size_t ofs1 = 0;
       for (size_t gu = 0; gu < g1; ++gu, ++g) {
         if (gu == g1 - 1)
-          nel1_sub = nel1-ofs1;
+          nel1_sub = nel1 > ofs1 ? nel1 - ofs1 : 0;
 
         subdomains[g].reserve(nel1_sub*nel2_sub);
         for (size_t j = 0; j < nel2_sub && ofs2 + j < nel2; ++j)
@@ -426,17 +426,17 @@ DomainDecomposition::calcSubdomains3D (size_t nel1, size_t nel2, size_t nel3,
     size_t nel3_sub = floor(double(nel3)/g3+1);
     for (size_t gw = 0; gw < g3; ++gw) {
       if (gw == g3 - 1)
-        nel3_sub = nel3-ofs3;
+        nel3_sub = nel3 > ofs3 ? nel3 - ofs3 : 0;
       size_t ofs2 = 0;
       size_t nel2_sub = floor(double(nel2)/g2+1);
       for (size_t gv = 0; gv < g2; ++gv) {
         if (gv == g2 - 1)
-          nel2_sub = nel2-ofs2;
+          nel2_sub = nel2 > ofs2 ? nel2 - ofs2 : 0;
         size_t ofs1 = 0;
         size_t nel1_sub = floor(double(nel1)/g1+1);
         for (size_t gu = 0; gu < g1; ++gu, ++g) {
           if (gu == g1 - 1)
-            nel1_sub = nel1-ofs1;
+            nel1_sub = nel1 > ofs1 ? nel1 - ofs1 : 0;
           subdomains[g].reserve(nel1_sub*nel2_sub*nel3_sub);
           for (size_t k = 0; k < nel3_sub && ofs3 + k < nel3; ++k)
             for (size_t j = 0; j < nel2_sub && ofs2 + j < nel2; ++j)
-- 
2.43.0


From e442f877fcdc743f542b215df39c378012fec52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 31/74] fix: HHT corrections when converging in the predictor
 and in sub-iterations

---
 src/SIM/HHTSIM.C | 7 +++++--
 src/SIM/HHTSIM.h | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 8f53ba4..795b237 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -30,6 +30,7 @@ HHTSIM::HHTSIM (SIMbase& sim) : NewmarkSIM(sim), Finert(nullptr), Fext(nullptr)
   predictor = 'd'; // default predictor (constant displacement)
 
   pV = pA = 0;
+  predicted = false;
 }
 
 
@@ -194,7 +195,7 @@ bool HHTSIM::predictStep (TimeStep& param)
 #endif
 
   incDis.fill(0.0);
-  return true;
+  return predicted = true;
 }
 
 
@@ -208,12 +209,14 @@ bool HHTSIM::correctStep (TimeStep& param, bool converged)
   const unsigned short int iV = 1;
   const unsigned short int iA = 2;
 
-  if (param.iter == 1 && !converged)
+  if (predicted)
   {
+    // First correction after the predictor step
     // V_n = v_n^1 = v_{n-1} - V_n
     // A_n = a_n^1 = a_{n-1} - A_n
     solution[pV] = solution[iV].add(solution[pV],-1.0);
     solution[pA] = solution[iA].add(solution[pA],-1.0);
+    predicted = false;
   }
   else
   {
diff --git a/src/SIM/HHTSIM.h b/src/SIM/HHTSIM.h
index bfdfffa..9db0578 100644
--- a/src/SIM/HHTSIM.h
+++ b/src/SIM/HHTSIM.h
@@ -224,6 +224,8 @@ private:
 
   Vector incDis;  //!< Incremental displacement vector
 
+  bool predicted; //!< If \e true, no correction is done since last prediction
+
   SystemVector* Finert; //!< Actual inertia forces in last converged time step
   SystemVector* Fext;   //!< External force vector of previous time step
 };
-- 
2.43.0


From 085082d152ba6a2969f1816c805d83bb1056420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 32/74] fix: restart of the HHT and nonlinear Newmark
 integrators when no force vectors were saved

---
 src/SIM/HHTSIM.C       | 24 ++++++++++++++----------
 src/SIM/NewmarkNLSIM.C | 14 ++++++++------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/SIM/HHTSIM.C b/src/SIM/HHTSIM.C
index 795b237..2c09b5b 100644
--- a/src/SIM/HHTSIM.C
+++ b/src/SIM/HHTSIM.C
@@ -284,7 +284,7 @@ void HHTSIM::setSolution (const RealArray& newSol, int idx)
 
 bool HHTSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->MultiStepSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -301,20 +301,24 @@ bool HHTSIM::serialize (SerializeMap& data) const
 
 bool HHTSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->MultiStepSIM::deSerialize(data))
     return false;
 
   SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
-
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  if (sit != data.end()) // Not saved if not calculated yet
+  {
+    delete Finert;
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
   sit = data.find("HHT::Fext");
-  if (sit == data.end()) return false;
-
-  Fext = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  if (sit != data.end()) // Not saved if not calculated yet
+  {
+    delete Fext;
+    Fext = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Fext->getPtr(),Fext->dim());
+  }
 
   return true;
 }
diff --git a/src/SIM/NewmarkNLSIM.C b/src/SIM/NewmarkNLSIM.C
index a8a395b..b748b1b 100644
--- a/src/SIM/NewmarkNLSIM.C
+++ b/src/SIM/NewmarkNLSIM.C
@@ -238,7 +238,7 @@ void NewmarkNLSIM::setSolution (const RealArray& newSol, int idx)
 
 bool NewmarkNLSIM::serialize (SerializeMap& data) const
 {
-  if (!this->saveSolution(data,model.getName()))
+  if (!this->MultiStepSIM::serialize(data))
     return false;
 
   if (Finert)
@@ -251,14 +251,16 @@ bool NewmarkNLSIM::serialize (SerializeMap& data) const
 
 bool NewmarkNLSIM::deSerialize (const SerializeMap& data)
 {
-  if (!this->restoreSolution(data,model.getName()))
+  if (!this->MultiStepSIM::deSerialize(data))
     return false;
 
   SerializeMap::const_iterator sit = data.find("HHT::Finert");
-  if (sit == data.end()) return false;
-
-  Finert = new StdVector(model.getNoEquations());
-  SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  if (sit != data.end()) // Not saved if not calculated yet
+  {
+    delete Finert;
+    Finert = new StdVector(model.getNoEquations());
+    SIMsolution::deSerialize(sit->second,Finert->getPtr(),Finert->dim());
+  }
 
   return true;
 }
-- 
2.43.0


From c891c455cdab2db15b2b16a34dc6354942f6dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 33/74] fix: keep the restored time and step size when
 restarting within a time step schedule

---
 src/SIM/TimeStep.C | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 3686c03..b326a29 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -383,7 +383,26 @@ bool TimeStep::deSerialize (const std::map<std::string,std::string>& data)
     std::stringstream str(it->second);
     cereal::BinaryInputArchive ar(str);
     doSerializeOps(ar,*this);
-    return this->reset(step);
+
+    // Position the step definition iterator at the restored time
+    const double epsT = 1.0e-6;
+    const double eps = epsT*std::max(epsT,time.dt);
+    double t = starTime;
+    for (stepIt = mySteps.begin(); stepIt != mySteps.end(); ++stepIt)
+      if (stepIt->second >= time.t + eps)
+        break;
+      else
+        t = stepIt->second;
+
+    lstep = 0;
+    if (stepIt != mySteps.end())
+      for (double dt : stepIt->first)
+        if ((t += dt) > time.t + epsT*dt)
+          break;
+        else
+          ++lstep;
+
+    return true;
   }
 #endif
   return false;
-- 
2.43.0


From c9fce38ba2efc879cb4a94dd1d5321637404de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 34/74] fix: convergence state of the iterative solvers was
 shared between all simulators

---
 src/SIM/MultiStepSIM.C | 3 ++-
 src/SIM/MultiStepSIM.h | 3 +++
 src/SIM/NewmarkSIM.C   | 4 ----
 src/SIM/NonLinSIM.C    | 4 ----
 4 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/SIM/MultiStepSIM.C b/src/SIM/MultiStepSIM.C
index 3888a8d..1688d5a 100644
--- a/src/SIM/MultiStepSIM.C
+++ b/src/SIM/MultiStepSIM.C
@@ -30,7 +30,8 @@ MultiStepSIM::MultiStepSIM (SIMbase& sim)
 #endif
 
   refNopt = MAX;
-  refNorm = 0.0;
+  refNorm = convTol = prevNorm = 0.0;
+  nIncrease = 0;
   rCond   = -1.0;
   subiter = NONE;
   nRHSvec = 1;
diff --git a/src/SIM/MultiStepSIM.h b/src/SIM/MultiStepSIM.h
index 6c83dfd..a6ec6cc 100644
--- a/src/SIM/MultiStepSIM.h
+++ b/src/SIM/MultiStepSIM.h
@@ -209,6 +209,9 @@ protected:
   NormOp refNopt; //!< Reference norm option
   double refNorm; //!< Reference norm value used in convergence checks
   double rCond;   //!< Reciprocal condition number of the linear equation system
+  double convTol; //!< Convergence tolerance of the current time/load step
+  double prevNorm; //!< Convergence norm value of the previous iteration
+  int    nIncrease; //!< Number of consecutive iterations with increasing norm
   SubIt  subiter; //!< Sub-iteration flag
   size_t nRHSvec; //!< Number of right-hand-side vectors to assemble
   char   rotUpd;  //!< Option for how to update of nodal rotations
diff --git a/src/SIM/NewmarkSIM.C b/src/SIM/NewmarkSIM.C
index 073e802..79d1b0e 100644
--- a/src/SIM/NewmarkSIM.C
+++ b/src/SIM/NewmarkSIM.C
@@ -543,10 +543,6 @@ SIM::ConvStatus NewmarkSIM::solveIteration (TimeStep& param)
 
 SIM::ConvStatus NewmarkSIM::checkConvergence (TimeStep& param)
 {
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   double norms[3];
   model.iterationNorms(linsol,residual,norms[0],norms[1],norms[2]);
   double norm = norms[cNorm];
diff --git a/src/SIM/NonLinSIM.C b/src/SIM/NonLinSIM.C
index 4df8f3c..722fda8 100644
--- a/src/SIM/NonLinSIM.C
+++ b/src/SIM/NonLinSIM.C
@@ -413,10 +413,6 @@ SIM::ConvStatus NonLinSIM::checkConvergence (TimeStep& param)
   if (iteNorm <= NONE)
     return CONVERGED; // No iterations, we are solving a linear problem
 
-  static double convTol   = 0.0;
-  static double prevNorm  = 0.0;
-  static int    nIncrease = 0;
-
   ConvStatus status = OK;
   double enorm, resNorm, linsolNorm;
   model.iterationNorms(linsol,residual,enorm,resNorm,linsolNorm);
-- 
2.43.0


From 7263864b21a3dee3c7bd7662c3e84d6bc07fc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 35/74] fix: Tensor operations mixed up symmetric and full
 tensors with the same number of values, and missed the 33-component of 2D
 symmetric tensors

Also, SymmTensor::principal did not eliminate all off-diagonal terms in its Jacobi sweeps.
---
 src/Utility/Tensor.C | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/Utility/Tensor.C b/src/Utility/Tensor.C
index 18c9062..a8804d3 100644
--- a/src/Utility/Tensor.C
+++ b/src/Utility/Tensor.C
@@ -185,7 +185,7 @@ Tensor::Tensor (Real a1, Real a2, Real a3) : n(3)
 Tensor::Tensor (const Tensor& T, bool transpose) : n(T.n)
 {
   v.resize(n*n);
-  std::copy(T.v.begin(),T.v.end(),v.begin());
+  this->operator=(T);
 
   if (transpose)
     this->transpose();
@@ -245,7 +245,7 @@ Vec3 Tensor::operator[] (t_ind i) const
 
 Tensor& Tensor::operator= (const Tensor& T)
 {
-  if (v.size() == T.v.size())
+  if (v.size() == T.v.size() && this->symmetric() == T.symmetric())
     std::copy(T.v.begin(),T.v.end(),v.begin());
   else
   {
@@ -263,8 +263,8 @@ Tensor& Tensor::operator= (const Tensor& T)
     {
       if (v.size() == 4 && this->symmetric())
         v[2] = T(3,3);
-      else if (v.size() == 9)
-        v[8] = T(3,3);
+      else if (n == 3)
+        THIS(3,3) = T(3,3);
     }
   }
 
@@ -303,7 +303,7 @@ Tensor& Tensor::operator= (Real val)
 Tensor& Tensor::operator+= (const Tensor& T)
 {
   if (T.n > 0)
-    if (v.size() == T.v.size())
+    if (v.size() == T.v.size() && this->symmetric() == T.symmetric())
       for (t_ind i = 0; i < v.size(); i++)
         v[i] += T.v[i];
     else
@@ -330,7 +330,7 @@ Tensor& Tensor::operator+= (Real val)
 Tensor& Tensor::operator-= (const Tensor& T)
 {
   if (T.n > 0)
-    if (v.size() == T.v.size())
+    if (v.size() == T.v.size() && this->symmetric() == T.symmetric())
       for (t_ind i = 0; i < v.size(); i++)
         v[i] -= T.v[i];
     else
@@ -485,7 +485,7 @@ Tensor& Tensor::outerProd (const Vec3& a, const Vec3& b)
 Real Tensor::innerProd (const Tensor& T) const
 {
   Real value = Real(0);
-  if (v.size() == T.v.size())
+  if (v.size() == T.v.size() && this->symmetric() == T.symmetric())
     for (t_ind i = 0; i < v.size(); i++)
       value += v[i]*T.v[i];
   else if (this->symmetric() && T.symmetric())
@@ -807,10 +807,11 @@ SymmTensor::SymmTensor (const t_ind nsd, bool with33) : Tensor(0)
 
 bool SymmTensor::redim (const t_ind nsd, bool with33)
 {
-  if (n == nsd) return false;
+  size_t nval = nsd == 2 && with33 ? 4 : nsd*(nsd+1)/2;
+  if (n == nsd && v.size() == nval) return false;
 
   const_cast<t_ind&>(n) = nsd;
-  v.resize(nsd == 2 && with33 ? 4 : n*(n+1)/2, Real(0));
+  v.resize(nval,Real(0));
   return true;
 }
 
@@ -1069,7 +1070,9 @@ SymmTensor& SymmTensor::outerProd (const Vec3& u)
   case 2:
     v[0] = u.x*u.x;
     v[1] = u.y*u.y;
-    v[2] = u.x*u.y;
+    if (v.size() == 4)
+      v[2] = u.z*u.z;
+    v.back() = u.x*u.y;
     break;
 
   case 3:
@@ -1246,7 +1249,7 @@ bool SymmTensor::principal (Vec3& p, Tensor& pdir) const
     // Perform sweeps for rotations
 
     Vec3 z;
-    for (int i = 1; i < 3; i++)
+    for (int i = 1; i <= 3; i++)
     {
       int j = i%3 + 1;
       int k = j%3 + 1;
@@ -1501,7 +1504,7 @@ SymmTensor operator* (Real a, const SymmTensor& T)
 
 SymmTensor operator* (const SymmTensor& A, const SymmTensor& B)
 {
-  SymmTensor C(std::min(A.n,B.n));
+  SymmTensor C(std::min(A.n,B.n), A.v.size() == 4 && B.v.size() == 4);
 
   switch (C.n) {
   case 1:
@@ -1509,9 +1512,11 @@ SymmTensor operator* (const SymmTensor& A, const SymmTensor& B)
     break;
 
   case 2:
-    C.v[0] = A.v[0]*B.v[0] + A.v[2]*B.v[2];
-    C.v[1] = A.v[2]*B.v[2] + A.v[1]*B.v[1];
-    C.v[2] = A.v[0]*B.v[2] + A.v[2]*B.v[1];
+    C.v[0] = A.v[0]*B.v[0] + A(1,2)*B(1,2);
+    C.v[1] = A(1,2)*B(1,2) + A.v[1]*B.v[1];
+    if (C.v.size() == 4)
+      C.v[2] = A.v[2]*B.v[2];
+    C.v.back() = A.v[0]*B(1,2) + A(1,2)*B.v[1];
     break;
 
   case 3:
-- 
2.43.0


From ffc7b840a20e7dc61a026aec82cbc105484412fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 36/74] fix: Wrong sizes, constraint counts and dof types after
 merging SAMpatch objects, and wrong handling of zero-volume and extraordinary
 elements

---
 src/ASM/ASMbase.C  |  5 ++++-
 src/ASM/SAMpatch.C | 46 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index e99034c..117cd96 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1503,7 +1503,10 @@ void ASMbase::shiftGlobalNodeNums (int nshift)
 void ASMbase::shiftGlobalElmNums (int eshift)
 {
   for (int& iel : myMLGE)
-    iel += eshift;
+    if (iel > 0)
+      iel += eshift;
+    else if (iel < 0)
+      iel -= eshift; // Extraordinary element
 }
 
 
diff --git a/src/ASM/SAMpatch.C b/src/ASM/SAMpatch.C
index 4a5e20e..40ac3fa 100644
--- a/src/ASM/SAMpatch.C
+++ b/src/ASM/SAMpatch.C
@@ -208,15 +208,19 @@ bool SAMpatch::initElementConn ()
 	elmId.push_back(id);
       }
 
-  if (outOfOrder == 0 && eMax == nel)
+  int nElm = elmId.size();
+  if (outOfOrder == 0 && eMax == nElm)
+  {
+    nel = nElm;
     return true;
+  }
 
   // We need to sort the elements in increasing external element numbers
   if (outOfOrder > 0)
     IFEM::cout <<"Detected "<< outOfOrder
                <<" elements out of order, reordering..."<< std::endl;
   else
-    IFEM::cout <<"Detected "<< eMax-nel
+    IFEM::cout <<"Detected "<< eMax-nElm
                <<" holes in the element numbers, reordering..."<< std::endl;
 
   typedef std::pair<int,int> Ipair;
@@ -313,6 +317,7 @@ bool SAMpatch::initConstraintEqs ()
                   << idof <<" ("<< (*cit)->getSlave()
                   <<").\n          This dof is already marked as "
                   << (msc[idof-1] == 0 ? "FIXED." : "SLAVE.") << std::endl;
+	(*cit)->iceq = -1;
 	ip--;
 	nceq--;
 	continue;
@@ -434,6 +439,21 @@ bool SAMpatch::merge (const SAM* other, const std::map<int,int>* old2new)
   const SAMpatch* that = dynamic_cast<const SAMpatch*>(other);
   if (!that) return false;
 
+  // Collect the DOF types of all nodes in the two models
+  std::vector<std::vector<char>> nodalTypes;
+  if (!dof_type.empty() || !that->dof_type.empty())
+    for (const SAM* sam : { static_cast<const SAM*>(this), other })
+      for (int n = 1; n <= sam->getNoNodes(); n++)
+      {
+        std::pair<int,int> dofs = sam->getNodeDOFs(n);
+        const std::vector<char>& types = sam == other ? that->dof_type : dof_type;
+        if (types.empty())
+          nodalTypes.push_back(std::vector<char>(dofs.second-dofs.first+1,'D'));
+        else
+          nodalTypes.push_back(std::vector<char>(types.begin()+dofs.first-1,
+                                                 types.begin()+dofs.second));
+      }
+
   // Add patches from the other SAM object while updating the global numbers
   model.reserve(model.size()+that->model.size());
   for (ASMbase* pch : that->model)
@@ -448,27 +468,27 @@ bool SAMpatch::merge (const SAM* other, const std::map<int,int>* old2new)
   // Reinitialize some model size parameters
   nnod += that->nnod;
   nel  += that->nel;
-  nceq += that->nceq;
-  neq   = 0;
+  nceq  = nspdof = nmmnpc = nmmceq = neq = 0;
+  for (const ASMbase* pch : model)
+    nceq += pch->getNoMPCs();
 
   if (!nodeType.empty())
     nodeType.resize(nnod,'0');
 
-  if (!dof_type.empty() || !that->dof_type.empty())
-  {
-    if (dof_type.empty())
-      dof_type.resize(ndof,'D');
-    if (!that->dof_type.empty())
-      dof_type.insert(dof_type.end(),
-                      that->dof_type.begin(),that->dof_type.end());
-  }
-
   // Reinitialize the node/dof arrays (madof,msc) and compute ndof
   delete[] madof;
   delete[] msc;
   if (!this->initNodeDofs({}))
     return false;
 
+  // Establish the DOF types of the merged model,
+  // the nodes that were replaced by another node have no DOFs anymore
+  dof_type.clear();
+  for (size_t n = 0; n < nodalTypes.size(); n++)
+    dof_type.insert(dof_type.end(),nodalTypes[n].begin(),
+                    nodalTypes[n].begin() +
+                    std::min<size_t>(nodalTypes[n].size(),madof[n+1]-madof[n]));
+
   IFEM::cout <<"\n\n >>> SAM model summary <<<"
              <<"\nNumber of elements    "<< nel
              <<"\nNumber of nodes       "<< nnod
-- 
2.43.0


From 0d95156a5fb030196295f27b4557e1a1c2db5752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 37/74] fix: Adaptive refinement truncated fractional
 percentages, missed errors equal to the limit and could index outside the
 error array

---
 src/SIM/AdaptiveSetup.C | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/SIM/AdaptiveSetup.C b/src/SIM/AdaptiveSetup.C
index f9bf431..95cc4a4 100644
--- a/src/SIM/AdaptiveSetup.C
+++ b/src/SIM/AdaptiveSetup.C
@@ -296,8 +296,12 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
     return 0; // Condition number limit reached
   }
 
+  // Note that the refinement percentage may be a fractional value,
+  // whereas the refinement options are integers
+  const double betaPct = betaFunc ? (*betaFunc)(iStep-1) : beta;
+
   prm.options.reserve(8);
-  prm.options.push_back(betaFunc ? (*betaFunc)(iStep-1) : beta);
+  prm.options.push_back(betaPct);
   prm.options.push_back(knot_mult);
   prm.options.push_back(scheme);
   prm.options.push_back(linIndep);
@@ -386,13 +390,21 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
   // The variable prm.elements will contain one of the following:
   // - list of elements to be refined (if fullspan or minspan)
   // - list of basis functions to be refined (if structured mesh)
-  const ErrorInfo info = errorLimits(error, prm.options[0], threshold);
+  const ErrorInfo info = errorLimits(error, betaPct, threshold);
 
   if (threshold == NONE || threshold == SYMMETRIZED)
-    refineSize = ceil(error.size()*prm.options[0]/100.0);
+    refineSize = std::min(error.size(),
+                          static_cast<size_t>(ceil(error.size()*betaPct/100.0)));
   else
     refineSize = std::upper_bound(error.begin(), error.end(), DblIdx(info.limit,0),
-                                  std::greater_equal<DblIdx>()) - error.begin();
+                                  std::greater<DblIdx>()) - error.begin();
+
+  if (refineSize == 0)
+  {
+    IFEM::cout <<"\n   * Stopping the adaptive cycles as no errors exceed the"
+               <<" refinement threshold "<< info.limit <<"."<< std::endl;
+    return 0;
+  }
 
   if (threshold == SYMMETRIZED)
   {
@@ -426,22 +438,22 @@ int AdaptiveSetup::calcRefinement (LR::RefineData& prm, int iStep,
 
   switch (threshold) {
   case NONE:
-    IFEM::cout << prm.options[0] <<"% of all "<< str;
+    IFEM::cout << betaPct <<"% of all "<< str;
     break;
   case SYMMETRIZED:
     IFEM::cout << 100.0*refineSize/error.size() <<"% of all "<< str;
     break;
   case MAXIMUM:
-    IFEM::cout << prm.options[0] <<"% of max error ("<< info.limit <<")";
+    IFEM::cout << betaPct <<"% of max error ("<< info.limit <<")";
     break;
   case AVERAGE:
-    IFEM::cout << prm.options[0] <<"% of average error ("<< info.limit <<")";
+    IFEM::cout << betaPct <<"% of average error ("<< info.limit <<")";
     break;
   case MINIMUM:
-    IFEM::cout << prm.options[0] <<"% of min error ("<< info.limit <<")";
+    IFEM::cout << betaPct <<"% of min error ("<< info.limit <<")";
     break;
   case DORFEL:
-    IFEM::cout << prm.options[0] <<"% of total error ("<< info.limit <<")";
+    IFEM::cout << betaPct <<"% of total error ("<< info.limit <<")";
     break;
   default:
     break;
-- 
2.43.0


From b68e79fde02c2b745c46f781122eea2bc293c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 38/74] fix: Weak-form operators for compatible discretizations
 used the wrong element matrix block and a transposed convection term

---
 Apps/Utils/CompatibleOperators.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Apps/Utils/CompatibleOperators.C b/Apps/Utils/CompatibleOperators.C
index 89d7bcf..7fcf7c9 100644
--- a/Apps/Utils/CompatibleOperators.C
+++ b/Apps/Utils/CompatibleOperators.C
@@ -63,7 +63,7 @@ void CompatibleOperators::Weak::Convection(std::vector<Matrix>& EM,
           EM[idx[k-1][l-1]].outer_product(fe.grad(k).getColumn(l), fe.basis(l), true, -U[k-1]*scale*fe.detJxW);
           if (k == l)
             for (size_t m = 1; m <= nsd; ++m)
-              EM[idx[k-1][l-1]].outer_product(fe.basis(k), fe.grad(l).getColumn(m), true, -U[m-1]*scale*fe.detJxW);
+              EM[idx[k-1][l-1]].outer_product(fe.grad(k).getColumn(m), fe.basis(l), true, -U[m-1]*scale*fe.detJxW);
           break;
         case WeakOperators::SKEWSYMMETRIC:
           EM[idx[k-1][l-1]].outer_product(fe.basis(k), fe.basis(l), true, 0.5*scale*fe.detJxW*dUdX(k,l));
@@ -71,7 +71,7 @@ void CompatibleOperators::Weak::Convection(std::vector<Matrix>& EM,
           if (k == l)
             for (size_t m = 1; m <= nsd; ++m) {
               EM[idx[k-1][l-1]].outer_product(fe.basis(k), fe.grad(l).getColumn(m), true, 0.5*scale*fe.detJxW*U[m-1]);
-              EM[idx[k-1][l-1]].outer_product(fe.basis(k), fe.grad(l).getColumn(m), true, -0.5*U[m-1]*scale*fe.detJxW);
+              EM[idx[k-1][l-1]].outer_product(fe.grad(k).getColumn(m), fe.basis(l), true, -0.5*U[m-1]*scale*fe.detJxW);
             }
       }
     }
@@ -106,7 +106,7 @@ void CompatibleOperators::Weak::Laplacian (std::vector<Matrix>& EM,
 {
   size_t nsd = fe.grad(1).cols();
   for (size_t n = 1; n <= nsd; ++n)
-    EqualOrderOperators::Weak::Laplacian(EM[n], fe, scale, false, n);
+    EqualOrderOperators::Weak::Laplacian(EM[idx[n-1][n-1]], fe, scale, false, n);
 
   for (size_t m = 1; m <= nsd && stress; m++)
     for (size_t n = m; n <= nsd; n++) {
-- 
2.43.0


From 781407a9a89cf451045bf2588542cd1802205f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 39/74] fix: Piola-mapped operators dropped lower-triangular
 blocks and used a transposed 2D mapping gradient

---
 Apps/Utils/PiolaOperators.C | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Apps/Utils/PiolaOperators.C b/Apps/Utils/PiolaOperators.C
index e045a68..e048734 100644
--- a/Apps/Utils/PiolaOperators.C
+++ b/Apps/Utils/PiolaOperators.C
@@ -21,13 +21,14 @@ void AdvectionConvInt (Matrix& C,
                        const FiniteElement& fe,
                        const Vec3& U, double scale)
 {
-  Matrix G1(2, fe.dPdX.cols()), G2(2, fe.dPdX.cols());
-  G1.fillRow(1, fe.dPdX.getRow(1).ptr());
-  G1.fillRow(2, fe.dPdX.getRow(3).ptr());
-  G2.fillRow(1, fe.dPdX.getRow(2).ptr());
-  G2.fillRow(2, fe.dPdX.getRow(4).ptr());
-  C.multiply(fe.P, G1, true, false, false, U[0] * scale * fe.detJxW);
-  C.multiply(fe.P, G2, true, false, true,  U[1] * scale * fe.detJxW);
+  // The rows of dPdX are sorted after the derivative direction
+  const size_t nsd = fe.P.rows();
+  for (size_t d = 1; d <= nsd; ++d) {
+    Matrix G(nsd, fe.dPdX.cols());
+    for (size_t i = 1; i <= nsd; ++i)
+      G.fillRow(i, fe.dPdX.getRow((d-1)*nsd+i).ptr());
+    C.multiply(fe.P, G, true, false, d > 1, U[d-1] * scale * fe.detJxW);
+  }
 }
 
 }
@@ -207,8 +208,8 @@ void PiolaOperators::Copy (Matrices& EM,
     return;
   size_t ofs = 1;
   for (size_t b = 1; b <= nsd; ++b) {
-    size_t ofs2 = ofs;
-    for (size_t d = b; d <= nsd; ++d) {
+    size_t ofs2 = 1;
+    for (size_t d = 1; d <= nsd; ++d) {
       if (!EM[idx[b-1][d-1]].empty())
         A.extractBlock(EM[idx[b-1][d-1]], ofs, ofs2, true);
       ofs2 += fe.basis(d).size();
-- 
2.43.0


From 35d4dd846c05b22a4f78ced7f7804f4609a6f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 40/74] fix: implicit multi-step methods started from slopes
 one time level too old when given initial conditions

---
 Apps/Utils/SIMImplicitLMM.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index ef27d74..fa41bc8 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -105,9 +105,11 @@ public:
       for (int j = 2; j <= order && hasICs; ++j)
         if (std::string fName = fieldName + std::to_string(j);
             solver.hasIC(fName)) {
+          // Note: The implicit methods also use the slope at the new time level,
+          // such that the oldest one needed is at order-1 steps back in time.
           TimeDomain time(tp.time);
-          time.t = tp.time.t - j*tp.time.dt;
-          if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-1))))
+          time.t = tp.time.t - (j-1)*tp.time.dt;
+          if (!solver.assembleSystem(time, Vectors(1, solver.getSolution(j-2))))
             return false;
 
           loads[j-2] = solver.getRHSvector(0, true);
-- 
2.43.0


From 2007ce90122117abcee0923ffbe7c412f704c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 41/74] fix: load vectors of implicit multi-step methods were
 freed twice after a failing step

---
 Apps/Utils/SIMImplicitLMM.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Apps/Utils/SIMImplicitLMM.h b/Apps/Utils/SIMImplicitLMM.h
index fa41bc8..9c26fbd 100644
--- a/Apps/Utils/SIMImplicitLMM.h
+++ b/Apps/Utils/SIMImplicitLMM.h
@@ -121,6 +121,7 @@ public:
     delete loads.back();
     for (int j = order-2; j >= 0; --j)
       loads[j+1] = loads[j];
+    loads[0] = nullptr; // assigned in solveStep
 
     return solver.advanceStep(tp);
   }
-- 
2.43.0


From 1db4502ac446fbd5d4fdb0512147e3a746998d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 42/74] fix: exported fields with no data assigned had an
 indeterminate data pointer

---
 src/Utility/DataExporter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utility/DataExporter.h b/src/Utility/DataExporter.h
index a243b75..ada054e 100644
--- a/src/Utility/DataExporter.h
+++ b/src/Utility/DataExporter.h
@@ -69,7 +69,7 @@ public:
                              //! \details A negative value indicates that we
                              //! want to use the description as name for the
                              //! primary vector, not the name of the Integrand.
-    const void* data;        //!< Pointer to the primary data (e.g. a SIM class)
+    const void* data = nullptr; //!< Pointer to the primary data (e.g. a SIM class)
     std::vector<const void*> data2; //!< Pointers to the secondary data (e.g. a vector)
     std::string prefix;      //!< Field name prefix
     bool enabled;            //!< Whether or not field is enabled
-- 
2.43.0


From 6aaa78a70d118ea5c4eef8ba78d2fe87d21990a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 43/74] fix: updated geometry was not exported when the mesh
 changed between two result dumps

---
 src/Utility/DataExporter.C | 7 ++++++-
 src/Utility/DataExporter.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Utility/DataExporter.C b/src/Utility/DataExporter.C
index c42747a..5fb40e1 100644
--- a/src/Utility/DataExporter.C
+++ b/src/Utility/DataExporter.C
@@ -95,8 +95,10 @@ bool DataExporter::setFieldValue (const std::string& name,
 bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
 {
   if (tp) {
-    if (tp->step > 0 && tp->step < std::max(0,m_last_step) + m_ndump)
+    if (tp->step > 0 && tp->step < std::max(0,m_last_step) + m_ndump) {
+      m_geoUpd |= geoUpd; // write updated geometry in the next dump instead
       return true; // write only every m_ndump step
+    }
 
     if (m_last_step < 0)
       geoUpd = true; // always write geometry basis on first time level
@@ -115,6 +117,9 @@ bool DataExporter::dumpTimeLevel (const TimeStep* tp, bool geoUpd, bool doLog)
 
   PROFILE1("DataExporter::dumpTimeLevel");
 
+  geoUpd |= m_geoUpd;
+  m_geoUpd = false;
+
   ++m_level;
   double time = tp ? tp->time.t : 0.0;
   if (tp && doLog)
diff --git a/src/Utility/DataExporter.h b/src/Utility/DataExporter.h
index ada054e..21c614a 100644
--- a/src/Utility/DataExporter.h
+++ b/src/Utility/DataExporter.h
@@ -143,6 +143,7 @@ protected:
   int  m_ndump;     //!< Time level stride for dumping
   int  m_level;     //!< Current time level
   int  m_last_step; //!< Last time step we dumped for
+  bool m_geoUpd = false; //!< If true, an updated geometry is yet to be dumped
 };
 
 //! \brief Convenience type alias
-- 
2.43.0


From b3e8618551c82ab9f91a9c60301e2c71ce94b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:33 +0000
Subject: [PATCH 44/74] fix: resetting to an earlier time step left the time
 unchanged when no step definitions are given

---
 src/SIM/TimeStep.C | 19 +++++++++++++++++++
 src/SIM/TimeStep.h |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index b326a29..19f7cb2 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -55,6 +55,7 @@ TimeStep& TimeStep::operator= (const TimeStep& ts)
   time = ts.time;
   mySteps = ts.mySteps;
   stepIt = mySteps.begin();
+  history = ts.history;
   return *this;
 }
 
@@ -203,6 +204,16 @@ bool TimeStep::hasReached (double t) const
 bool TimeStep::reset (int istep)
 {
   if (mySteps.empty()) {
+    if (istep < step)
+      for (const std::pair<int,TimeDomain>& prev : history)
+        if (prev.first == istep)
+        {
+          // Go back to the time of the specified step
+          time.t   = prev.second.t;
+          time.dt  = prev.second.dt;
+          time.dtn = prev.second.dtn;
+          time.CFL = prev.second.CFL;
+        }
     step = istep;
     return true;
   }
@@ -223,6 +234,14 @@ bool TimeStep::reset (int istep)
 
 bool TimeStep::increment ()
 {
+  if (mySteps.empty())
+  {
+    // Record the current state, in case of a later reset to this step
+    while (!history.empty() && history.back().first >= step)
+      history.pop_back();
+    history.push_back(std::make_pair(step,time));
+  }
+
   time.dtn = time.dt;
 
   if (maxCFL > 0.0 && time.CFL > 1.0e-12) {
diff --git a/src/SIM/TimeStep.h b/src/SIM/TimeStep.h
index e10d5ca..433b7f1 100644
--- a/src/SIM/TimeStep.h
+++ b/src/SIM/TimeStep.h
@@ -94,6 +94,9 @@ private:
   TimeSteps::iterator stepIt;  //!< Running iterator over the time steps
 
   size_t lstep; //!< Local step counter, i.e., within current \a *stepIt
+
+  //! Time of all previous steps, when no time step definitions
+  std::vector<std::pair<int,TimeDomain>> history;
 };
 
 #endif
-- 
2.43.0


From d8af140c39f87da43a1ea986975e11f9176712cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 45/74] fix: adding equation systems left out right-hand-sides
 and reaction forces

---
 src/ASM/AlgEqSystem.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 797e3eb..f39e001 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -136,13 +136,13 @@ AlgEqSystem& AlgEqSystem::add (const AlgEqSystem& that)
   for (i = 0; i < A.size() && i < that.A.size(); i++)
     A[i]._A->add(*that.A[i]._A);
 
-  for (i = 0; i < b.size() && i < that.A.size(); i++)
+  for (i = 0; i < b.size() && i < that.b.size(); i++)
     b[i]->add(*that.b[i]);
 
   for (i = 0; i < c.size() && i < that.c.size(); i++)
     c[i] += that.c[i];
 
-  for (i = 0; i < b.size() && i < that.R.size(); i++)
+  for (i = 0; i < R.size() && i < that.R.size(); i++)
     R[i] += that.R[i];
 
   return *this;
-- 
2.43.0


From 1008ac24dcf3a331f6f0c0ce1b844dd6aaa4cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 46/74] fix: copying an equation system with several matrices
 lost the associated right-hand-sides

---
 src/ASM/AlgEqSystem.C | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index f39e001..08b4400 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -120,10 +120,13 @@ AlgEqSystem& AlgEqSystem::copy (const AlgEqSystem& that)
   }
 
   for (i = 0; i < b.size(); i++)
+  {
     b[i] = that.b[i]->copy();
-
-  if (A.size() == 1 && !b.empty())
-    A.front()._b = b.front();
+    // Retain the matrix-vector associations
+    for (size_t j = 0; j < A.size(); j++)
+      if (that.A[j]._b == that.b[i])
+        A[j]._b = b[i];
+  }
 
   return *this;
 }
-- 
2.43.0


From 0b82bb6adf67c8e8da6b8474f9fbf7ba20d09b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:13 +0000
Subject: [PATCH 47/74] fix: static condensation and recovery failed when the
 last equations are internal

---
 src/ASM/AlgEqSystem.C | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ASM/AlgEqSystem.C b/src/ASM/AlgEqSystem.C
index 08b4400..3996296 100644
--- a/src/ASM/AlgEqSystem.C
+++ b/src/ASM/AlgEqSystem.C
@@ -358,7 +358,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
                                       const IntVec& extNodes, size_t imat,
                                       const char* recmatFile) const
 {
-  if (imat > A.size()) return false;
+  if (imat >= A.size()) return false;
 
   const SparseMatrix* Amat = dynamic_cast<const SparseMatrix*>(A[imat]._A);
   const double*       Rvec = A[imat]._b ? A[imat]._b->getRef() : nullptr;
@@ -400,7 +400,7 @@ bool AlgEqSystem::staticCondensation (Matrix& Ared, Vector& bred,
   Vector    R2(neq2); // External (retained) DOFs
   size_t ieq, ip2, ieq1 = 0, ieq2 = 0;
   for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (static_cast<int>(ieq)+1 < meqn2[ip2])
+    if (ip2 == neq2 || static_cast<int>(ieq)+1 < meqn2[ip2])
       R1(++ieq1) = Rvec[ieq];
     else
     {
@@ -553,9 +553,10 @@ bool AlgEqSystem::recoverInternals (const Matrix& Rmat, const IntVec& extNodes,
 
   // Construct the full vector
   Vector x(neq0);
-  int ieq, ip2, ieq1 = 0, ieq2 = 0;
-  for (ieq = ip2 = 0; ieq < neq0; ieq++)
-    if (ieq+1 < meqn2[ip2])
+  int ieq, ieq1 = 0, ieq2 = 0;
+  size_t ip2 = 0;
+  for (ieq = 0; ieq < neq0; ieq++)
+    if (ip2 == neq2 || ieq+1 < meqn2[ip2])
       x[ieq] = x1(++ieq1);
     else
     {
-- 
2.43.0


From f383214f2ab42b87885af14f6635ecd766cbf84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:43 +0000
Subject: [PATCH 48/74] fix: resetting to an earlier time step gave the wrong
 time after a cut-back

---
 src/SIM/TimeStep.C | 37 ++++++++++++++++++++-----------------
 src/SIM/TimeStep.h | 12 ++++++++++--
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/SIM/TimeStep.C b/src/SIM/TimeStep.C
index 19f7cb2..4a8e2d0 100644
--- a/src/SIM/TimeStep.C
+++ b/src/SIM/TimeStep.C
@@ -203,17 +203,22 @@ bool TimeStep::hasReached (double t) const
 
 bool TimeStep::reset (int istep)
 {
+  if (istep <= step && (istep > 0 || mySteps.empty()))
+    for (const State& prev : history)
+      if (prev.step == istep)
+      {
+        // Go back to the state of the specified step
+        time.t   = prev.time.t;
+        time.dt  = prev.time.dt;
+        time.dtn = prev.time.dtn;
+        time.CFL = prev.time.CFL;
+        step     = prev.step;
+        lstep    = prev.lstep;
+        stepIt   = mySteps.begin() + prev.iStep;
+        return true;
+      }
+
   if (mySteps.empty()) {
-    if (istep < step)
-      for (const std::pair<int,TimeDomain>& prev : history)
-        if (prev.first == istep)
-        {
-          // Go back to the time of the specified step
-          time.t   = prev.second.t;
-          time.dt  = prev.second.dt;
-          time.dtn = prev.second.dtn;
-          time.CFL = prev.second.CFL;
-        }
     step = istep;
     return true;
   }
@@ -234,13 +239,10 @@ bool TimeStep::reset (int istep)
 
 bool TimeStep::increment ()
 {
-  if (mySteps.empty())
-  {
-    // Record the current state, in case of a later reset to this step
-    while (!history.empty() && history.back().first >= step)
-      history.pop_back();
-    history.push_back(std::make_pair(step,time));
-  }
+  // Record the current state, in case of a later reset to this step
+  while (!history.empty() && history.back().step >= step)
+    history.pop_back();
+  history.push_back({step,time,size_t(stepIt-mySteps.begin()),lstep});
 
   time.dtn = time.dt;
 
@@ -402,6 +404,7 @@ bool TimeStep::deSerialize (const std::map<std::string,std::string>& data)
     std::stringstream str(it->second);
     cereal::BinaryInputArchive ar(str);
     doSerializeOps(ar,*this);
+    history.clear();
 
     // Position the step definition iterator at the restored time
     const double epsT = 1.0e-6;
diff --git a/src/SIM/TimeStep.h b/src/SIM/TimeStep.h
index 433b7f1..a8a1260 100644
--- a/src/SIM/TimeStep.h
+++ b/src/SIM/TimeStep.h
@@ -95,8 +95,16 @@ private:
 
   size_t lstep; //!< Local step counter, i.e., within current \a *stepIt
 
-  //! Time of all previous steps, when no time step definitions
-  std::vector<std::pair<int,TimeDomain>> history;
+  //! \brief State of a previous time step.
+  struct State
+  {
+    int        step;  //!< Time step counter
+    TimeDomain time;  //!< Time domain data
+    size_t     iStep; //!< Index of the current time step definition
+    size_t     lstep; //!< Local step counter
+  };
+
+  std::vector<State> history; //!< State of all previous steps
 };
 
 #endif
-- 
2.43.0


From 748f33978d7617898a6a6d6b07b7482523491464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:43 +0000
Subject: [PATCH 49/74] fix: norm integration picked the wrong projected fields
 with several projections or material regions

---
 src/SIM/SIMbase.C | 65 ++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index a1ca49c..b7792b4 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1845,10 +1845,45 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
 
   size_t nCmp = 0;
 
+  // Lambda function for extracting the projected solutions for a given patch
+  auto&& extractProjections = [this,&ssol,&nCmp](NormBase* norm, ASMbase* pch)
+  {
+    size_t nfld = myProblem->getNoFields(2);
+    size_t nval = pch->getNoProjectionNodes()*nfld;
+    size_t iofs = 0; // Offset for this patch in the projected solution vectors
+    if (this->fieldProjections())
+      for (const ASMbase* prev : myModel)
+        if (prev == pch)
+          break;
+        else if (!prev->empty())
+          iofs += prev->getNoProjectionNodes()*nfld;
+
+    for (size_t k = 0; k < ssol.size(); k++)
+      if (ssol[k].empty())
+        norm->getProjection(k).clear();
+      else if (this->fieldProjections())
+      {
+        Vector c(nval);
+        std::copy(ssol[k].begin()+iofs,ssol[k].begin()+iofs+nval,c.begin());
+        norm->setProjectedFields(pch->getProjectedFields(c,nfld),k);
+      }
+      else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
+      {
+        // Mixed problem using first basis for projection,
+        // need a separate MADOF array with nCmp dofs per node
+        const IntVec& madof = this->getMADOF(1,nCmp);
+        pch->extractNodalVec(ssol[k],norm->getProjection(k),
+                             madof.data(),madof.size());
+      }
+      else
+        pch->extractNodeVec(ssol[k],norm->getProjection(k),nCmp,1);
+  };
+
   // Lambda function for assembling the interior norm terms for a given patch
-  auto&& assembleNorms = [this,time,psol,ssol,&nCmp](NormBase* norm,
-                                                     GlbNorm& integral,
-                                                     ASMbase* pch, int pidx)
+  auto&& assembleNorms = [this,time,psol,&extractProjections](NormBase* norm,
+                                                              GlbNorm& integral,
+                                                              ASMbase* pch,
+                                                              int pidx)
   {
     if (!integral.haveContributions(pidx,myProps))
       return true;
@@ -1891,29 +1926,7 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       }
     }
 
-    size_t nfld = myProblem->getNoFields(2);
-    size_t nval = pch->getNoProjectionNodes()*nfld;
-    for (size_t k = 0; k < ssol.size(); k++)
-      if (ssol[k].empty())
-        norm->getProjection(k).clear();
-      else if (this->fieldProjections())
-      {
-        Vector c(nval);
-        std::copy(ssol[k].begin()+nCmp,ssol[k].begin()+nCmp+nval,c.begin());
-        norm->setProjectedFields(pch->getProjectedFields(c,nfld),k);
-        nCmp += nval;
-      }
-      else if (nCmp != pch->getNoFields(1) && pch->getNoFields(2) > 0)
-      {
-        // Mixed problem using first basis for projection,
-        // need a separate MADOF array with nCmp dofs per node
-        const IntVec& madof = this->getMADOF(1,nCmp);
-        pch->extractNodalVec(ssol[k],norm->getProjection(k),
-                             madof.data(),madof.size());
-      }
-      else
-        pch->extractNodeVec(ssol[k],norm->getProjection(k),nCmp,1);
-
+    extractProjections(norm,pch);
     norm->initForPatch(pch);
 
     if (mySol)
-- 
2.43.0


From caee4869f87a75ee9f0eff0ea10a76b10f61fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:46 +0000
Subject: [PATCH 50/74] fix: boundary norms used the projected solution and
 element group of another patch

---
 src/SIM/SIMbase.C | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index b7792b4..2eecf17 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2043,6 +2043,7 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       if (!myModel[lp]->empty())
         ok = assembleNorms(norm,globalNorm,myModel[lp],1+lp);
 
+  norm->activateElmGroup();
   if (norm->hasBoundaryTerms())
     for (p = myProps.begin(); p != myProps.end() && ok; ++p)
       if (p->pcode == Property::NEUMANN)
@@ -2054,7 +2055,10 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
           if (this->initNeumann(p->pindx))
           {
             if (p->patch != lp)
+            {
               ok = this->extractPatchSolution(psol,p->patch-1);
+              extractProjections(norm,pch);
+            }
             norm->initForPatch(pch);
             if (mySol)
               mySol->initPatch(pch->idx);
@@ -2068,7 +2072,10 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
           if (this->initNeumann(p->pindx))
           {
             if (p->patch != lp)
+            {
               ok = this->extractPatchSolution(psol,p->patch-1);
+              extractProjections(norm,pch);
+            }
             norm->initForPatch(pch);
             if (mySol)
               mySol->initPatch(pch->idx);
-- 
2.43.0


From 62701628264d750ce090d7f70ce841e52b706d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:47 +0000
Subject: [PATCH 51/74] fix: projected solutions were misplaced when the model
 has inactive patches

---
 src/SIM/SIMbase.C   | 7 ++++++-
 src/SIM/SIMoutput.C | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 2eecf17..1553ee6 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2344,7 +2344,12 @@ bool SIMbase::project (Matrix& ssol, const Vector& psol,
     LocalSystem::patch = idx++; // Hack: For patch-wise max-value calculation
 
     if (pch->empty() || pch->inActive(time.t))
-      continue; // skip empty or inactive patches
+    {
+      // Skip empty or inactive patches
+      if (!pch->empty())
+        ofs += pch->getNoProjectionNodes();
+      continue;
+    }
 
     // Extract the primary solution control point values for this patch
     if (!this->extractPatchSolution(myProblem,{psol},idx-1))
diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index f46f994..3422251 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -1579,7 +1579,12 @@ bool SIMoutput::writeGlvP (const RealArray& ssol, int iStep, int& nBlock,
   for (const ASMbase* pch : myModel)
   {
     if (pch->empty() || pch->inActive())
-      continue; // skip empty and inactive patches
+    {
+      // Skip empty and inactive patches
+      if (!pch->empty() && this->fieldProjections())
+        ssolIt += nComp*pch->getNoProjectionNodes();
+      continue;
+    }
 
     if (this->fieldProjections())
     {
-- 
2.43.0


From 769c47c8742e00cf1ff984580e6ff5ed498a896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 52/74] fix: boundary nodes of whole-patch entities were
 repeated and had no coordinates

---
 src/SIM/SIMbase.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 1553ee6..90432cf 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1131,7 +1131,7 @@ void SIMbase::getBoundaryNodes (int pcode, IntVec& glbNodes, Vec3Vec* XYZ) const
       else if (abs(prop.ldim) == pch->getNoParamDim())
         // The boundary and the patch are of same dimension
         for (size_t node = 1; node <= pch->getNoNodes(); node++)
-          glbNodes.push_back(pch->getNodeID(node));
+          nodes.push_back(pch->getNodeID(node));
       else if (prop.ldim == 4)
       {
         // The boundary nodes are stored explicitly
-- 
2.43.0


From 1e58fbf5bf2cda1f86dce8eb9ee040a2e6189d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 53/74] fix: nodal forces were misplaced with repeated or
 illegal nodes, or fewer dofs than force components

---
 src/ASM/GlbForceVec.C | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ASM/GlbForceVec.C b/src/ASM/GlbForceVec.C
index 8814b3b..27982a5 100644
--- a/src/ASM/GlbForceVec.C
+++ b/src/ASM/GlbForceVec.C
@@ -23,14 +23,14 @@
 bool GlbForceVec::initNodeMap (const std::vector<int>& globalNodes, size_t nfc)
 {
   nodeMap.clear();
-  nodeNum = globalNodes;
+  nodeNum.clear();
 
   int illegal = 0, nnod = sam.getNoNodes();
-  for (size_t i = 0; i < globalNodes.size(); i++)
-    if (globalNodes[i] > 0 && globalNodes[i] <= nnod)
-      nodeMap[globalNodes[i]] = i+1;
-    else
+  for (int node : globalNodes)
+    if (node < 1 || node > nnod)
       illegal++;
+    else if (nodeMap.emplace(node,1+nodeNum.size()).second)
+      nodeNum.push_back(node);
 
   F.resize(nfc,nodeMap.size());
   if (illegal == 0) return true;
@@ -70,12 +70,13 @@ bool GlbForceVec::assemble (const LocalIntegral* elmObj, int elmId)
   size_t i, j, k, ninod = 0;
   std::map<int,size_t>::const_iterator nit;
   for (i = k = 0; i < mnpc.size(); i++) {
+    auto dofs = sam.getNodeDOFs(mnpc[i]);
+    size_t ndof = dofs.second-dofs.first+1;
     if ((nit = nodeMap.find(mnpc[i])) == nodeMap.end())
       ninod++;
-    else for (j = 0; j < nfc; j++)
+    else for (j = 0; j < nfc && j < ndof; j++)
       F(j+1,nit->second) -= ES[k+j];
-    auto dofs = sam.getNodeDOFs(mnpc[i]);
-    k += dofs.second-dofs.first+1;
+    k += ndof;
   }
 
   if (ninod < mnpc.size())
-- 
2.43.0


From 6ee9a0a4621f3329e89de1cab01c220d44783903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 54/74] fix: interior force terms were integrated more than
 once in patches with several boundaries

---
 src/SIM/ForceIntegrator.C | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SIM/ForceIntegrator.C b/src/SIM/ForceIntegrator.C
index 57ada23..4c550bf 100644
--- a/src/SIM/ForceIntegrator.C
+++ b/src/SIM/ForceIntegrator.C
@@ -18,6 +18,7 @@
 #include "GlbForceVec.h"
 #include "Vec3.h"
 #include "Profiler.h"
+#include <set>
 
 
 Vector SIM::getBoundaryForce (const Vectors& solution, SIMbase* model, int code,
@@ -112,6 +113,7 @@ bool SIM::integrate (const Vectors& solution, SIMbase* model, int code,
 
   bool ok = true;
   size_t prevPatch = 0;
+  std::set<size_t> integrated; // Patches with interior terms already integrated
   PropertyVec::const_iterator p;
   for (p = model->begin_prop(); p != model->end_prop() && ok; ++p)
     if (abs(p->pindx) == code)
@@ -119,6 +121,9 @@ bool SIM::integrate (const Vectors& solution, SIMbase* model, int code,
       ASMbase* patch = model->getPatch(p->patch);
       if (!patch)
         ok = false;
+      else if ( forceInt->hasInteriorTerms() &&
+                !integrated.insert(p->patch).second)
+        continue; // This patch has more than one property with this code
       else if ( forceInt->hasInteriorTerms() ||
                (forceInt->hasBoundaryTerms() &&
                 abs(p->ldim)+1 == patch->getNoParamDim()))
-- 
2.43.0


From a8e9bec02412ddc4680300f997a0fcfff72ff031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:03 +0000
Subject: [PATCH 55/74] fix: projection of patch-wise defined functions used
 the first patch for all patches

---
 src/SIM/SIMbase.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index 90432cf..d7b7afa 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -2480,6 +2480,9 @@ bool SIMbase::project (RealArray& values, const FunctionBase* f,
     if (pch->empty() || pch->inActive(time))
       continue; // skip empty or inactive patches
 
+    // Activate this patch in the function, in case it is defined patch-wise
+    const_cast<FunctionBase*>(f)->initPatch(pch->idx);
+
     bool ok = true;
     Vector loc_values;
     Matrix ftmp(loc_values);
-- 
2.43.0


From f56f731bf43d731be8150fa74249ad1f5275b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:10 +0000
Subject: [PATCH 56/74] fix: field functions gave zero or crashed at and beyond
 the time levels in the file

---
 src/Utility/FieldFunctions.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index 3c09030..87507c1 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -55,6 +55,7 @@ FieldFuncHDF5::FieldFuncHDF5 (const std::string& fName)
 #ifdef HAS_HDF5
   pAdm = new ProcessAdm();
   hdf5 = new HDF5Reader(fName,*pAdm);
+  hdf5->readDouble("0/timeinfo/SIMbase-1",lastTime);
 #else
   std::cerr <<"WARNING: Compiled without HDF5 support,"
             <<" field function is not instantiated."<< std::endl;
@@ -76,13 +77,11 @@ int FieldFuncHDF5::findClosestLevel (double time) const
 #ifdef HAS_HDF5
   double t;
   int incLev = time > lastTime ? 1 : -1;
-  bool ok = true;
-  while (ok)
+  while (true)
   {
     std::stringstream str;
     str << lastLevel+incLev << "/timeinfo/SIMbase-1";
-    ok = hdf5->readDouble(str.str(),t);
-    if (ok && fabs(time-t) >= fabs(time-lastTime))
+    if (!hdf5->readDouble(str.str(),t) || fabs(time-t) >= fabs(time-lastTime))
     {
 #ifdef SP_DEBUG
       std::cout <<"FieldFuncHDF5: New time level "<< lastLevel
@@ -94,8 +93,9 @@ int FieldFuncHDF5::findClosestLevel (double time) const
     lastTime = t;
     lastLevel += incLev;
   }
-#endif
+#else
   return -1;
+#endif
 }
 
 
-- 
2.43.0


From 2a98b7b21e15957468dfac7fee6d889f68b0aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:10 +0000
Subject: [PATCH 57/74] fix: field functions read from stream used the first
 patch for all patches

---
 src/Utility/FieldFunctions.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utility/FieldFunctions.C b/src/Utility/FieldFunctions.C
index 87507c1..f2d9724 100644
--- a/src/Utility/FieldFunctions.C
+++ b/src/Utility/FieldFunctions.C
@@ -375,6 +375,7 @@ FieldFuncStream::FieldFuncStream (const std::vector<ASMbase*>& patches,
     for (size_t i = 0; i < coefs.size() && istr; i++) istr >> coefs[i];
     field.push_back(Field::create(pch,coefs,1,0));
   }
+  npch = field.size();
 }
 
 
-- 
2.43.0


From 86c3883a4f17daeaf7b563d90049c8cad6ecc5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:33 +0000
Subject: [PATCH 58/74] fix: functions were projected from wrong points on
 surfaces in 3D and parameter domains not starting at zero

---
 src/ASM/GlbL2projector.C | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ASM/GlbL2projector.C b/src/ASM/GlbL2projector.C
index 3367335..20f611e 100644
--- a/src/ASM/GlbL2projector.C
+++ b/src/ASM/GlbL2projector.C
@@ -143,9 +143,9 @@ bool L2FuncIntegrand::evaluate (Matrix& sField, const RealArray* gpar) const
   std::array<RealArray,3> expanded;
   if (!dynamic_cast<const ASMunstruct*>(&m_patch))
   {
-    if (m_patch.getNoSpaceDim() == 2)
+    if (m_patch.getNoParamDim() == 2)
       gpar = expandTensorGrid2(gpar, expanded.data());
-    else if (m_patch.getNoSpaceDim() == 3)
+    else if (m_patch.getNoParamDim() == 3)
       gpar = expandTensorGrid3(gpar, expanded.data());
   }
 
@@ -158,8 +158,8 @@ bool L2FuncIntegrand::evaluate (Matrix& sField, const RealArray* gpar) const
   double param[3]; // Actual domain parameters to be used for evaluation
   Vec4   X(param,myTime);
   for (size_t i = 0; i < gpar[0].size(); ++i) {
-    for (size_t j = 0; j < 3 && j < m_patch.getNoSpaceDim(); ++j)
-      xi[j] = u[j][0] + gpar[j][i] / (u[j][1] - u[j][0]);
+    for (size_t j = 0; j < 3 && j < m_patch.getNoParamDim(); ++j)
+      xi[j] = (gpar[j][i] - u[j][0]) / (u[j][1] - u[j][0]);
     m_patch.evalPoint(xi, param, X);
     sField.fillColumn(i+1, m_func.getValue(X));
   }
-- 
2.43.0


From a8fb4c4a38cd6f0758fedb85ddef13a0350432af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:49 +0000
Subject: [PATCH 59/74] fix: time derivatives of tractions and pressures were
 always zero

The methods of the sub-classes did not override the one of the base class.
---
 src/Utility/TractionField.C | 4 ++--
 src/Utility/TractionField.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utility/TractionField.C b/src/Utility/TractionField.C
index 1987db1..ccd4e1c 100644
--- a/src/Utility/TractionField.C
+++ b/src/Utility/TractionField.C
@@ -41,7 +41,7 @@ Vec3 TractionField::evaluate (const Vec3& x, const Vec3& n) const
 }
 
 
-Vec3 TractionField::deriv (const Vec3& x, const Vec3& n) const
+Vec3 TractionField::timeDerivative (const Vec3& x, const Vec3& n) const
 {
   if (sigma) // symmetric tensor field
     return sigma->deriv(x,4) * n;
@@ -90,7 +90,7 @@ Vec3 PressureField::evaluate (const Vec3& x, const Vec3& n) const
 }
 
 
-Vec3 PressureField::deriv (const Vec3& x, const Vec3& n) const
+Vec3 PressureField::timeDerivative (const Vec3& x, const Vec3& n) const
 {
   if (!pressure) // zero pressure field
     return Vec3();
diff --git a/src/Utility/TractionField.h b/src/Utility/TractionField.h
index 87f041d..c74f815 100644
--- a/src/Utility/TractionField.h
+++ b/src/Utility/TractionField.h
@@ -50,7 +50,7 @@ public:
   //! \brief Returns the time-derivative of the function.
   //! \param[in] x Global coordinates of evaluation point
   //! \param[in] n Outward-directed unit normal vector at evaluation point
-  virtual Vec3 deriv(const Vec3& x, const Vec3& n) const;
+  virtual Vec3 timeDerivative(const Vec3& x, const Vec3& n) const;
 
 protected:
   //! \brief Evaluates the traction field function at the specified point.
@@ -103,7 +103,7 @@ public:
   //! \brief Returns the time-derivative of the function.
   //! \param[in] x Global coordinates of evaluation point
   //! \param[in] n Outward-directed unit normal vector at evaluation point
-  virtual Vec3 deriv(const Vec3& x, const Vec3& n) const;
+  virtual Vec3 timeDerivative(const Vec3& x, const Vec3& n) const;
 
 protected:
   //! \brief Evaluates the traction field function at the specified point.
-- 
2.43.0


From 81831ad81800e8e819d9cdd2e3f4a7442e5f6478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:49 +0000
Subject: [PATCH 60/74] fix: force given by a direction vector was scaled as if
 the vector were angles in degrees

---
 src/Utility/TractionField.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utility/TractionField.C b/src/Utility/TractionField.C
index ccd4e1c..755921a 100644
--- a/src/Utility/TractionField.C
+++ b/src/Utility/TractionField.C
@@ -139,11 +139,12 @@ Vec3 ForceDirField::evaluate (const Vec3& x, const Vec3&) const
   Tensor Trot(3,true);
   if (fdir)
   {
-    Fdir = (*fdir)(time)*(M_PI/Real(180));
+    Fdir = (*fdir)(time);
     if (dirVec) // fdir gives the force direction
       Trot = Tensor(Tlg[2],Fdir,true);
     else // fdir gives rotation angles w.r.t. the local axes
     {
+      Fdir *= M_PI/Real(180);
       Trot = Tensor(Fdir.x,Fdir.y,Fdir.z);
       Fdir = Trot[1];
     }
-- 
2.43.0


From e55857573ab6387cd5d19879c09baf6eeb66b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:45 +0000
Subject: [PATCH 61/74] fix: an assigned point referred to the parameters of
 the point it was assigned from

The parameters were lost when the latter was a temporary.
---
 src/Utility/Point.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Utility/Point.h b/src/Utility/Point.h
index 983e6d4..d8156f0 100644
--- a/src/Utility/Point.h
+++ b/src/Utility/Point.h
@@ -60,6 +60,13 @@ namespace utl
         par[i] = 3+i < X.size() ? X[3+i] : 0.0;
     }
 
+    //! \brief Copy assignment operator.
+    Point& operator=(const Point& X)
+    {
+      // Don't use the default, which would refer to the parameters of X
+      return this->operator=(static_cast<const Vec4&>(X));
+    }
+
     //! \brief Assignment operator.
     Point& operator=(const Vec4& X)
     {
-- 
2.43.0


From 2f2297790105df930740c70cf29427cbc454e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:45 +0000
Subject: [PATCH 62/74] fix: failure of an immersed element was forgotten if a
 later element succeeded

---
 src/ASM/ImmersedBoundaries.C | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ASM/ImmersedBoundaries.C b/src/ASM/ImmersedBoundaries.C
index 5f78fb7..b123016 100644
--- a/src/ASM/ImmersedBoundaries.C
+++ b/src/ASM/ImmersedBoundaries.C
@@ -277,16 +277,16 @@ bool Immersed::getQuadraturePoints (const Geometry& geometry,
     switch (Xc.size()) {
     case 4: // 2D element
       nsd = 2;
-      ok = getQuadraturePoints(geometry,
-                               Xc[0],Xc[1],Xc[3],Xc[2],max_depth,p,
-                               GP[1],GP[2],GP[0],grid);
+      ok &= getQuadraturePoints(geometry,
+                                Xc[0],Xc[1],Xc[3],Xc[2],max_depth,p,
+                                GP[1],GP[2],GP[0],grid);
       break;
     case 8: // 3D element
       nsd = 3;
-      ok = getQuadraturePoints(geometry,
-                               Xc[0],Xc[1],Xc[3],Xc[2],
-                               Xc[4],Xc[5],Xc[7],Xc[6],max_depth,p,
-                               GP[1],GP[2],GP[3],GP[0]);
+      ok &= getQuadraturePoints(geometry,
+                                Xc[0],Xc[1],Xc[3],Xc[2],
+                                Xc[4],Xc[5],Xc[7],Xc[6],max_depth,p,
+                                GP[1],GP[2],GP[3],GP[0]);
       break;
     default:
       ok = false;
-- 
2.43.0


From 35567df7fe7c18f716d5e7620c238534536f01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:13 +0000
Subject: [PATCH 63/74] fix: removing an element from a grid of mixed element
 types merged its neighbours

The end mark of the preceding element was removed with it. The internal element
order is also updated, as well as when merging with another grid.
---
 src/Utility/ElementBlock.C | 65 +++++++++++++++++++++++---------------
 src/Utility/ElementBlock.h |  3 ++
 2 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/src/Utility/ElementBlock.C b/src/Utility/ElementBlock.C
index 0cc4f97..9cddfef 100644
--- a/src/Utility/ElementBlock.C
+++ b/src/Utility/ElementBlock.C
@@ -130,32 +130,39 @@ bool ElementBlock::endOfElm (size_t& i)
     MMNPC[i++] = -1;
 
     if (i == MMNPC.size())
-    {
-      // Compute the internal element mapping due to that mixed element types
-      // are stored blockwise. Same logic as in the getElements() method.
-      elmIdx.resize(MINEX.size(),0);
-      size_t npc, iEx, iEl = 0;
-      for (size_t nenod : legalNENs)
+      this->mapMixedElements();
+  }
+  return true;
+}
+
+
+/*!
+  This method computes the internal element mapping due to that mixed element
+  types are stored blockwise. Same logic as in the getElements() method.
+*/
+
+void ElementBlock::mapMixedElements ()
+{
+  elmIdx.resize(MINEX.size(),0);
+  size_t npc, iEx, iEl = 0;
+  for (size_t nenod : legalNENs)
+  {
+    npc = iEx = 0;
+    std::vector<int>::const_iterator it, itb = MMNPC.begin();
+    for (it = MMNPC.begin(); it != MMNPC.end(); ++it)
+      if (*it < 0)
       {
-        npc = iEx = 0;
-        std::vector<int>::const_iterator it, itb = MMNPC.begin();
-        for (it = MMNPC.begin(); it != MMNPC.end(); ++it)
-          if (*it < 0)
-          {
-            if (npc == nenod)
-              elmIdx[iEx] = iEl++;
-            itb = it + 1;
-            npc = 0;
-            ++iEx;
-          }
-          else
-            ++npc;
-        if (iEl >= MINEX.size())
-          break;
+        if (npc == nenod)
+          elmIdx[iEx] = iEl++;
+        itb = it + 1;
+        npc = 0;
+        ++iEx;
       }
-    }
+      else
+        ++npc;
+    if (iEl >= MINEX.size())
+      break;
   }
-  return true;
 }
 
 
@@ -212,6 +219,9 @@ void ElementBlock::merge (const ElementBlock* other,
     MINEX.reserve(MINEX.size()+other->MINEX.size());
     for (int iel : other->MINEX) MINEX.push_back(ielMax+iel);
   }
+
+  if (!elmIdx.empty())
+    this->mapMixedElements();
 }
 
 
@@ -325,10 +335,12 @@ void ElementBlock::removeElement (int iel)
       {
         size_t elm = 0;
         for (size_t ip = 0; ip < MMNPC.size() && it2 == MMNPC.end(); ip++)
+        {
+          if (elm == i && it1 == MMNPC.end())
+            it1 = MMNPC.begin() + ip;
           if (MMNPC[ip] < 0 && ++elm == i+1)
             it2 = MMNPC.begin() + ip+1;
-          else if (elm == i && it1 == MMNPC.end())
-            it1 = MMNPC.begin() + ip;
+        }
       }
 
       MMNPC.erase(it1,it2);
@@ -336,6 +348,9 @@ void ElementBlock::removeElement (int iel)
     }
     else
       ++i;
+
+  if (!elmIdx.empty())
+    this->mapMixedElements();
 }
 
 
diff --git a/src/Utility/ElementBlock.h b/src/Utility/ElementBlock.h
index 5c304ed..668bb97 100644
--- a/src/Utility/ElementBlock.h
+++ b/src/Utility/ElementBlock.h
@@ -121,6 +121,9 @@ protected:
   size_t            nen;   //!< Number of Element Nodes
 
 private:
+  //! \brief Computes the internal element order in case of mixed types.
+  void mapMixedElements();
+
   std::vector<size_t> elmIdx; //!< Internal element order in case of mixed types
 
 public:
-- 
2.43.0


From ed6a9f7777cbd9a4dfc84bf14bd60b52e432933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:41 +0000
Subject: [PATCH 64/74] fix: node sets with names of three or six letters were
 taken for nodes or elements in matlab files

---
 src/ASM/ASMutils.C | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 480b6bf..e1a793e 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -44,6 +44,13 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
     return n > 0;
   };
 
+  // Lambda function checking if a string ends with the given keyword.
+  auto&& endsWith = [](const std::string& s, const std::string& key)
+  {
+    return s.length() >= key.length() &&
+      s.compare(s.length()-key.length(),key.length(),key) == 0;
+  };
+
   std::string cline;
   if (!readLine(cline,'=') ||
       cline.find("function") == std::string::npos ||
@@ -56,7 +63,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
 
   std::getline(is,cline);
   while (readLine(cline,'['))
-    if (cline.find("Node=") == cline.length()-5)
+    if (endsWith(cline,"Node="))
     {
       while (readLine(cline))
       {
@@ -74,7 +81,7 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
       std::cout <<"Read "<< nodes.size() <<" nodes."<< std::endl;
 #endif
     }
-    else if (cline.find("Element=") == cline.length()-8)
+    else if (endsWith(cline,"Element="))
     {
       while (readLine(cline))
       {
-- 
2.43.0


From f632ddbe46cbb4b7a9d77d02d533fb615325a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:41 +0000
Subject: [PATCH 65/74] fix: node sets were read as elements when the last
 element in a matlab file is not supported

---
 src/ASM/ASMutils.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index e1a793e..6f176cb 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -101,14 +101,14 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
 #endif
         if (mnpc.size() == 4)
           std::swap(mnpc[2],mnpc[3]);
-        else if (mnpc.size() != 2)
+        if (mnpc.size() == 4 || mnpc.size() == 2)
         {
+          if (id > MNPC.size()) MNPC.resize(id);
+          MNPC[id-1] = mnpc;
+        }
+        else
           std::cerr <<"  ** ASM::readMatlab: "<< mnpc.size()
                     <<"-noded elements not supported (ignored).\n";
-          continue;
-        }
-        if (id > MNPC.size()) MNPC.resize(id);
-        MNPC[id-1] = mnpc;
         if (cline.back() == ';') break;
       }
 #ifdef SP_DEBUG
-- 
2.43.0


From 2c49723e5da13a116a2e5abb113141bb6e706d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:41 +0000
Subject: [PATCH 66/74] fix: grids in XML files with lines of more than 127
 characters were refused

---
 src/ASM/ASMutils.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 6f176cb..9a8e05d 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -151,21 +151,21 @@ bool ASM::readXML (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
                    std::vector<NodeSet>& nodeSets,
                    std::vector<NodeSet>* elemSets)
 {
-  char cline[128];
-  if (!is.getline(cline,128))
+  std::string cline;
+  if (!std::getline(is,cline))
     return false;
-  else if (!strstr(cline,"<patch>"))
+  else if (cline.find("<patch>") == std::string::npos)
   {
     std::cerr <<" *** ASM::readXML: Failed to read patch geometry."<< std::endl;
     return false;
   }
 
   std::string data("<patch>\n");
-  while (is.getline(cline,128))
+  while (std::getline(is,cline))
   {
     data.append(cline);
     data.append("\n");
-    if (strstr(cline,"</patch>"))
+    if (cline.find("</patch>") != std::string::npos)
       break;
   }
 
-- 
2.43.0


From 9906384adb643c80376070c787926c551d8e00a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:41 +0000
Subject: [PATCH 67/74] fix: ASMu2DLag::getNodeSet read before the first node
 set for index zero

---
 src/ASM/ASMu2DLag.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index dac16eb..7f8da48 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -111,7 +111,7 @@ bool ASMu2DLag::generateFEMTopology ()
 
 bool ASMu2DLag::getNodeSet (int iset, std::string& name) const
 {
-  if (iset < 0 || iset > static_cast<int>(nodeSets.size()))
+  if (iset < 1 || iset > static_cast<int>(nodeSets.size()))
     return false;
   else if (nodeSets[iset-1].second.empty())
     return false;
-- 
2.43.0


From de06435e55e844eddf29c12d407af7369dfff5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:41 +0000
Subject: [PATCH 68/74] fix: element sets in XML files were ignored for
 unstructured 2D grids

---
 src/ASM/ASMu2DLag.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index 7f8da48..638fd6e 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -60,7 +60,7 @@ bool ASMu2DLag::read (std::istream& is)
     return ASM::readMatlab(is,myMNPC,myCoord,nodeSets);
   case 'x':
   case 'X':
-    return ASM::readXML(is,myMNPC,myCoord,nodeSets);
+    return ASM::readXML(is,myMNPC,myCoord,nodeSets,&elemSets);
   default:
     std::cerr <<" *** ASMu2DLag::read: Undefined file format."<< std::endl;
     return false;
-- 
2.43.0


From 528effcb6b1d0ea3e86351e6821b01577f5dfda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:46 +0000
Subject: [PATCH 69/74] fix: symmetric fourth-order tensors were handled with
 the dimension of general ones

The constructors of SymmTensor4 used the matrix dimension of the parent
class, such that a tensor could not be made from its matrix, assignments
wrote past the end of the array, and increments and printing addressed
wrong components.
---
 src/Utility/Tensor4.C | 32 ++++++++++++++++++++++++++------
 src/Utility/Tensor4.h |  8 ++++----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/Utility/Tensor4.C b/src/Utility/Tensor4.C
index dd98f2f..18065b9 100644
--- a/src/Utility/Tensor4.C
+++ b/src/Utility/Tensor4.C
@@ -68,9 +68,15 @@ Real& Tensor4::operator() (t_ind i, t_ind j, t_ind k, t_ind l)
 
 Tensor4& Tensor4::operator= (const Tensor4& T)
 {
+  if (this == &T) return *this;
+
   this->redim(T.n);
   v.resize(m*m,Real(0));
-  std::copy(T.v.begin(),T.v.end(),v.begin());
+  for (t_ind l = 1; l <= n; l++)
+    for (t_ind k = 1; k <= n; k++)
+      for (t_ind j = 1; j <= n; j++)
+        for (t_ind i = 1; i <= n; i++)
+          (*this)(i,j,k,l) = T(i,j,k,l);
 
   return *this;
 }
@@ -81,7 +87,7 @@ Tensor4& Tensor4::operator= (Real val)
   this->zero();
 
   for (t_ind i = 1; i <= n; i++)
-    v[this->index(i,i,i,i)] = val;
+    (*this)(i,i,i,i) = val;
 
   return *this;
 }
@@ -90,7 +96,7 @@ Tensor4& Tensor4::operator= (Real val)
 Tensor4& Tensor4::operator+= (Real val)
 {
   for (t_ind i = 1; i <= n; i++)
-    v[this->index(i,i,i,i)] += val;
+    (*this)(i,i,i,i) += val;
 
   return *this;
 }
@@ -98,6 +104,10 @@ Tensor4& Tensor4::operator+= (Real val)
 
 SymmTensor4::SymmTensor4 (t_ind nd, bool makeJ) : Tensor4(nd,Real(0))
 {
+  // The parent class constructor has used the general matrix dimension
+  this->SymmTensor4::redim(nd);
+  v.resize(m*m);
+
   if (makeJ) // Define the "identity" tensor, J
     for (t_ind i = 0; i < n; i++)
       for (t_ind j = 0; j < n; j++)
@@ -109,19 +119,29 @@ SymmTensor4::SymmTensor4 (t_ind nd, bool makeJ) : Tensor4(nd,Real(0))
 }
 
 
-SymmTensor4::SymmTensor4 (const std::vector<Real>& x, t_ind nd) : Tensor4(x,nd)
+SymmTensor4::SymmTensor4 (const std::vector<Real>& x, t_ind nd)
+  : Tensor4(nd,Real(0))
 {
+  // The parent class constructor has used the general matrix dimension
+  this->SymmTensor4::redim(nd);
+  v = x;
+
+  if (v.size() < (size_t)m*m)
+    std::cerr <<" *** Invalid fourth-order tensor,"
+              <<" matrix represention too small, size="<< v.size() << std::endl;
+  else if (v.size() > (size_t)m*m)
+    v.resize(m*m);
 }
 
 
 std::ostream& SymmTensor4::print (std::ostream& os) const
 {
-  utl::matrix<Real> A(m,m);
+  utl::matrix<Real> A(n*n,n*n);
   for (t_ind l = 1; l <= n; l++)
     for (t_ind k = 1; k <= n; k++)
       for (t_ind j = 1; j <= n; j++)
         for (t_ind i = 1; i <= n; i++)
-          A(i+n*(j-1),k+l*(n-1)) = v[this->index(i,j)*m+this->index(k,l)];
+          A(i+n*(j-1),k+n*(l-1)) = v[this->index(i,j)*m+this->index(k,l)];
 
   return os << A;;
 }
diff --git a/src/Utility/Tensor4.h b/src/Utility/Tensor4.h
index 44e2f38..5bdd2a3 100644
--- a/src/Utility/Tensor4.h
+++ b/src/Utility/Tensor4.h
@@ -64,9 +64,9 @@ public:
   const Real* ptr() const { return &v.front(); }
 
   //! \brief Index-1 based component reference.
-  const Real& operator()(t_ind i, t_ind j, t_ind d, t_ind l) const;
+  virtual const Real& operator()(t_ind i, t_ind j, t_ind d, t_ind l) const;
   //! \brief Index-1 based component access.
-  Real& operator()(t_ind i, t_ind j, t_ind k, t_ind l);
+  virtual Real& operator()(t_ind i, t_ind j, t_ind k, t_ind l);
 
   //! \brief Assignment operator.
   Tensor4& operator=(const Tensor4& T);
@@ -123,9 +123,9 @@ public:
   SymmTensor4(const std::vector<Real>& x, t_ind nsd = 3);
 
   //! \brief Index-1 based component reference.
-  const Real& operator()(t_ind i, t_ind j, t_ind d, t_ind l) const;
+  virtual const Real& operator()(t_ind i, t_ind j, t_ind d, t_ind l) const;
   //! \brief Index-1 based component access.
-  Real& operator()(t_ind i, t_ind j, t_ind k, t_ind l);
+  virtual Real& operator()(t_ind i, t_ind j, t_ind k, t_ind l);
 };
 
 #endif
-- 
2.43.0


From e937d33d2683f68a5a7e903af4d8f46563e50ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:01 +0000
Subject: [PATCH 70/74] fix: fields of element sets were misplaced in models
 with collapsed or 1-noded elements

The array with the members of an element set was indexed differently by
SIMoutput::getElementSet and ASMbase::extractElmRes, which also counted
only the finite elements with more than one node. An element set that
does not exist in any patch was also returned as if it did.
---
 src/ASM/ASMbase.C   | 3 +--
 src/SIM/SIMoutput.C | 8 ++++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index 117cd96..48ac63e 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -1516,11 +1516,10 @@ void ASMbase::extractElmRes (const Vector& globRes, Vector& elmRes,
   elmRes.clear();
   elmRes.reserve(MLGE.size());
 
-  size_t jel = internalFirst;
   for (size_t i = 0; i < MLGE.size(); i++)
     if (MLGE[i] > 0 && MNPC[i].size() > 1)
     {
-      size_t idx = internalFirst ? jel++ : MLGE[i];
+      size_t idx = internalFirst ? internalFirst+i : MLGE[i];
       elmRes.push_back(idx <= globRes.size() ? globRes(idx) : 0.0);
     }
 }
diff --git a/src/SIM/SIMoutput.C b/src/SIM/SIMoutput.C
index 3422251..b5e3be7 100644
--- a/src/SIM/SIMoutput.C
+++ b/src/SIM/SIMoutput.C
@@ -643,18 +643,18 @@ bool SIMoutput::getElementSet (int iset, std::string& name,
   elSet.clear();
   elSet.reserve(this->getNoElms(false,true));
 
+  bool haveSet = false;
   for (const ASMbase* pch : myModel)
     if (pch->getElementSet(iset,name))
     {
+      haveSet = true;
       for (size_t iel = 1; iel <= pch->getNoElms(true); iel++)
-        if (pch->getElementNodes(iel).size() > 1) // skip 1-noded mass elements
-          elSet.push_back(pch->getElmID(iel) > 0 &&
-                          pch->isInElementSet(iset,iel) ? 1.0 : 0.0);
+        elSet.push_back(pch->isInElementSet(iset,iel) ? 1.0 : 0.0);
     }
     else
       elSet.insert(elSet.end(),pch->getNoElms(true),0);
 
-  return !elSet.empty();
+  return haveSet;
 }
 
 
-- 
2.43.0


From 64887970102ea9e874f52f17239ce6a690606ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:37 +0000
Subject: [PATCH 71/74] fix: element sets given by numbers or boxes were empty
 and zero-based node sets shifted repeatedly

Element sets are parsed before the FE topology is generated, when there are
no global element numbers yet. Node sets given with zero-based numbers in
several items had the nodes of the previous items incremented again.
---
 src/ASM/ASMbase.C   |  8 +++++---
 src/ASM/ASMu1DLag.C | 12 +++++++++---
 src/ASM/ASMu2DLag.C | 14 ++++++++++----
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/ASM/ASMbase.C b/src/ASM/ASMbase.C
index 48ac63e..037b9a2 100644
--- a/src/ASM/ASMbase.C
+++ b/src/ASM/ASMbase.C
@@ -2040,10 +2040,12 @@ int ASMbase::parseNodeSet (const std::string& setName, const char* cset,
     nodeSets.emplace_back(setName,IntVec());
   }
 
-  utl::parseIntegers(nodeSets[iset].second,cset);
+  IntVec& mySet = nodeSets[iset].second;
+  const size_t ifirst = mySet.size(); // the set may already have some nodes
+  utl::parseIntegers(mySet,cset);
   if (assumeZeroBased)
-    for (int& n : nodeSets[iset].second)
-      ++n;
+    for (size_t i = ifirst; i < mySet.size(); i++)
+      ++mySet[i];
 
   return 1+iset;
 }
diff --git a/src/ASM/ASMu1DLag.C b/src/ASM/ASMu1DLag.C
index 138bb22..51e87af 100644
--- a/src/ASM/ASMu1DLag.C
+++ b/src/ASM/ASMu1DLag.C
@@ -168,7 +168,7 @@ int ASMu1DLag::parseElemSet (const std::string& setName, const char* cset)
   IntVec& mySet = elemSets[iset].second;
   if (!strcmp(cset,"all"))
   {
-    mySet.resize(nel);
+    mySet.resize(MNPC.size());
     std::iota(mySet.begin(),mySet.end(),1);
     return 1+iset;
   }
@@ -176,11 +176,17 @@ int ASMu1DLag::parseElemSet (const std::string& setName, const char* cset)
   size_t ifirst = mySet.size();
   utl::parseIntegers(mySet,cset);
 
-  // Transform to internal element indices
+  // Transform to internal element indices. The external and internal numbers
+  // are the same, unless the global element numbers already are established.
   for (size_t i = ifirst; i < mySet.size(); i++)
     if (mySet[i] > 0)
     {
-      if (int iel = this->getElmIndex(mySet[i]); iel > 0)
+      int iel = mySet[i];
+      if (!MLGE.empty())
+        iel = this->getElmIndex(iel);
+      else if (iel > static_cast<int>(MNPC.size()))
+        iel = 0;
+      if (iel > 0)
         mySet[ifirst++] = iel;
       else
         IFEM::cout <<"  ** Warning: Non-existing element "<< mySet[i]
diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index 638fd6e..3666ee4 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -254,7 +254,7 @@ int ASMu2DLag::parseElemSet (const std::string& setName, const char* cset)
   IntVec& mySet = elemSets[iset].second;
   if (!strcmp(cset,"all"))
   {
-    mySet.resize(nel);
+    mySet.resize(MNPC.size());
     std::iota(mySet.begin(),mySet.end(),1);
     return 1+iset;
   }
@@ -262,11 +262,17 @@ int ASMu2DLag::parseElemSet (const std::string& setName, const char* cset)
   size_t ifirst = mySet.size();
   utl::parseIntegers(mySet,cset);
 
-  // Transform to internal element indices
+  // Transform to internal element indices. The external and internal numbers
+  // are the same, unless the global element numbers already are established.
   for (size_t i = ifirst; i < mySet.size(); i++)
     if (mySet[i] > 0)
     {
-      if (int iel = this->getElmIndex(mySet[i]); iel > 0)
+      int iel = mySet[i];
+      if (!MLGE.empty())
+        iel = this->getElmIndex(iel);
+      else if (iel > static_cast<int>(MNPC.size()))
+        iel = 0;
+      if (iel > 0)
         mySet[ifirst++] = iel;
       else
         IFEM::cout <<"  ** Warning: Non-existing element "<< mySet[i]
@@ -306,7 +312,7 @@ int ASMu2DLag::parseElemBox (const std::string& setName,
 
   Matrix Xnod;
   IntVec elems;
-  for (size_t iel = 0; iel < nel; iel++)
+  for (size_t iel = 0; iel < MNPC.size(); iel++)
     if (isInside(iel))
       elems.push_back(1+iel);
 
-- 
2.43.0


From b32930bdbf7e402a2f34dc2fcdb346e0ac69b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:26 +0000
Subject: [PATCH 72/74] fix: internal indices of element sets were taken as
 global element numbers

The element sets of a patch contain its internal element indices, while the
integrands identify their active elements by the global element numbers.
The sets of unstructured 1D patches were also shifted with the global numbers
when merging models, although they are internal indices.
---
 src/ASM/ASMu1DLag.C | 10 ----------
 src/ASM/ASMu1DLag.h |  3 ---
 src/SIM/SIMbase.C   | 20 ++++++++++++++++++--
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/ASM/ASMu1DLag.C b/src/ASM/ASMu1DLag.C
index 51e87af..be396cd 100644
--- a/src/ASM/ASMu1DLag.C
+++ b/src/ASM/ASMu1DLag.C
@@ -210,16 +210,6 @@ void ASMu1DLag::getBoundaryNodes (int lIndex, IntVec& nodes,
 }
 
 
-void ASMu1DLag::shiftGlobalElmNums (int eshift)
-{
-  this->ASMs1DLag::shiftGlobalElmNums(eshift);
-
-  for (ASM::NodeSet& es : elemSets)
-    for (int& iel : es.second)
-      iel += eshift;
-}
-
-
 bool ASMu1DLag::tesselate (ElementBlock& grid, const int*) const
 {
   grid.unStructResize(nel,nnod);
diff --git a/src/ASM/ASMu1DLag.h b/src/ASM/ASMu1DLag.h
index 70d0d54..098e886 100644
--- a/src/ASM/ASMu1DLag.h
+++ b/src/ASM/ASMu1DLag.h
@@ -47,9 +47,6 @@ public:
   //! \brief Checks if this patch is empty.
   virtual bool empty() const { return nel == 0; }
 
-  //! \brief Increase all global element numbers by \a eshift.
-  virtual void shiftGlobalElmNums(int eshift);
-
   //! \brief Returns (1-based) index of a predefined element set in the patch.
   virtual int getElementSetIdx(const std::string& setName) const;
   //! \brief Returns an indexed predefined element set.
diff --git a/src/SIM/SIMbase.C b/src/SIM/SIMbase.C
index d7b7afa..b91ccaa 100644
--- a/src/SIM/SIMbase.C
+++ b/src/SIM/SIMbase.C
@@ -1214,6 +1214,22 @@ int SIMbase::findClosestNode (const Vec3& X) const
 }
 
 
+/*!
+  \brief Static helper returning the global element numbers of an element set.
+  \details The element sets contain internal element indices of the patch,
+  whereas the integrands identify the elements by their global numbers.
+*/
+
+static IntVec getElementGroup (const ASMbase* pch, int iset)
+{
+  IntVec elms(pch->getElementSet(iset));
+  for (int& iel : elms)
+    iel = pch->getElmID(iel);
+
+  return elms;
+}
+
+
 /*!
   This method constitutes the main core of the element assembly process,
   to establish the global linear system of equations to be solved at
@@ -1330,7 +1346,7 @@ bool SIMbase::assembleSystem (const TimeDomain& time, const Vectors& prevSol,
           else if (this->initMaterial(p->pindx))
           {
             if (p->ldim == 5)
-              it->second->activateElmGroup(pch->getElementSet(p->lindx));
+              it->second->activateElmGroup(getElementGroup(pch,p->lindx));
             else
               it->second->activateElmGroup();
             lp = p->patch;
@@ -2027,7 +2043,7 @@ bool SIMbase::solutionNorms (const TimeDomain& time,
       else if (this->initMaterial(p->pindx))
       {
         if (p->ldim == 5)
-          norm->activateElmGroup(pch->getElementSet(p->lindx));
+          norm->activateElmGroup(getElementGroup(pch,p->lindx));
         else
           norm->activateElmGroup();
         lp = p->patch;
-- 
2.43.0


From 911b5f21f69db4b0b700a3b345a5edfe10f912c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:32 +0000
Subject: [PATCH 73/74] fix: an empty node set in a matlab file made the nodes
 of the grid unread

---
 src/ASM/ASMutils.C | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ASM/ASMutils.C b/src/ASM/ASMutils.C
index 9a8e05d..822a6e4 100644
--- a/src/ASM/ASMutils.C
+++ b/src/ASM/ASMutils.C
@@ -33,15 +33,19 @@ bool ASM::readMatlab (std::istream& is, IntMat& MNPC, std::vector<Vec3>& nodes,
   auto&& readLine = [&is](std::string& s, char delim = '\n')
   {
     size_t i, n = 0;
-    while (n == 0 && std::getline(is,s,delim))
+    bool ok = false;
+    while (n == 0 && !ok && std::getline(is,s,delim))
+    {
       for (i = 0; i < s.length(); i++)
         if (!isspace(s[i])) s[n++] = s[i];
+      ok = n > 0 || delim == ']'; // An array may be empty
+    }
 
     s = s.substr(0,n);
     for (i = 0; i < n; i++)
       if (s[i] == ',') s[i] = ' ';
 
-    return n > 0;
+    return ok;
   };
 
   // Lambda function checking if a string ends with the given keyword.
-- 
2.43.0


From 893b6d9627f8de6e6093d308e4201bd3bcb0ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:32 +0000
Subject: [PATCH 74/74] fix: grids with varying number of element nodes were
 garbled when the average is an integer

---
 src/ASM/ASMu2DLag.C        | 11 +++++++++--
 src/Utility/ElementBlock.C |  5 +++--
 src/Utility/ElementBlock.h |  5 ++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/ASM/ASMu2DLag.C b/src/ASM/ASMu2DLag.C
index 3666ee4..882f8c3 100644
--- a/src/ASM/ASMu2DLag.C
+++ b/src/ASM/ASMu2DLag.C
@@ -479,14 +479,21 @@ void ASMu2DLag::generateThreadGroupsMultiColored (bool silence,
 
 bool ASMu2DLag::tesselate (ElementBlock& grid, const int*) const
 {
-  size_t i, nmnpc = 0, nelms = nel;
+  size_t i, nmnpc = 0, nen = 0, nelms = nel;
+  bool mixed = false; // is the number of element nodes varying?
   for (i = 0; i < nel; i++)
     if (MNPC[i].size() > 1 && MLGE[i] > 0)
+    {
+      if (nen == 0)
+        nen = MNPC[i].size();
+      else if (nen != MNPC[i].size())
+        mixed = true;
       nmnpc += MNPC[i].size();
+    }
     else // ignore 1-noded elements (point masses, etc.) and collapsed elements
       --nelms;
 
-  grid.unStructResize(nelms,nnod,nmnpc);
+  grid.unStructResize(nelms,nnod,nmnpc,mixed);
 
   for (i = 0; i < nnod; i++)
     grid.setCoor(i,this->getCoord(1+i));
diff --git a/src/Utility/ElementBlock.C b/src/Utility/ElementBlock.C
index 9cddfef..859de97 100644
--- a/src/Utility/ElementBlock.C
+++ b/src/Utility/ElementBlock.C
@@ -64,12 +64,13 @@ void ElementBlock::resize (size_t nI, size_t nJ, size_t nK)
 }
 
 
-void ElementBlock::unStructResize (size_t nEL, size_t nPts, size_t nMNPC)
+void ElementBlock::unStructResize (size_t nEL, size_t nPts, size_t nMNPC,
+                                   bool mixed)
 {
   if (nMNPC > 0)
   {
     nen = nMNPC/nEL;
-    if (nen*nEL != nMNPC)
+    if (mixed || nen*nEL != nMNPC)
       nen = 0; // Unstructured grid with varying element types
   }
   else
diff --git a/src/Utility/ElementBlock.h b/src/Utility/ElementBlock.h
index 668bb97..1698cf8 100644
--- a/src/Utility/ElementBlock.h
+++ b/src/Utility/ElementBlock.h
@@ -41,7 +41,10 @@ public:
   //! \param[in] nEl Number of elements
   //! \param[in] nPts Number of nodes
   //! \param[in] nMNPC Total size of element connectivity array
-  void unStructResize(size_t nEl, size_t nPts, size_t nMNPC = 0);
+  //! \param[in] mixed If \e true, the number of element nodes is varying,
+  //! also if \a nMNPC is a multiple of \a nEl
+  void unStructResize(size_t nEl, size_t nPts, size_t nMNPC = 0,
+                      bool mixed = false);
 
   //! \brief Defines the \a j'th coordinate of node \a i.
   bool setCoor(size_t i, size_t j, Real x);
-- 
2.43.0

