From d316084115d91868ad67407a54ac0ed643a3e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 01/19] fix: exit flag of a repeated QP_SOLVE depended on the
 iterations of earlier calls

---
 src/qpSWIFT.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 8831d13..cc81409 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -601,7 +601,8 @@ qp_int QP_SOLVE(QP *myQP)
 			}
 		}
 
-		if (myQP->stats->IterationCount == myQP->options->maxit)
+		/* The budget applies to this call; IterationCount accumulates over successive calls */
+		if (idx == myQP->options->maxit)
 		{
 			myQP->stats->Flag = QP_MAXIT;
 		}
-- 
2.43.0


From 6909208b9244ffd23813f0fcc835d7861f8b2acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 02/19] fix: an empty row of G left the KKT matrix without its
 diagonal entry

---
 src/Auxilary.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index cfdae2f..af85f1f 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -123,13 +123,11 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + A->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			/* The diagonal entry exists even if this row of G is empty */
+			kkt->ir[kkt_nnz] = P->m + A->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n + At->n] = kkt_nnz;
 		}
 	}
@@ -168,13 +166,11 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			/* The diagonal entry exists even if this row of G is empty */
+			kkt->ir[kkt_nnz] = P->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n] = kkt_nnz;
 		}
 	}
-- 
2.43.0


From f0fdfad63c399d2a750a17ceb0cc9c159d880c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 03/19] fix: fallback ordering overran the permutation when the
 equality constraints are not used

---
 src/qpSWIFT.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index cc81409..a900c9a 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -209,7 +209,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < n + m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
@@ -431,7 +431,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < n + m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
-- 
2.43.0


From 6c0b3ea2162f595f6bf735430fdcc3f3604ad203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 04/19] fix: LDL time of a repeated QP_SOLVE included the
 earlier calls

---
 src/qpSWIFT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index a900c9a..9966d82 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -480,6 +480,9 @@ qp_int QP_SOLVE(QP *myQP)
 
 	qp_int Flag_kkt;
 
+	/* As kkt_time and tsolve, the LDL time is that of this call */
+	myQP->stats->ldl_numeric = 0.0;
+
 #ifndef MATLAB_MEX_FILE
 	if (myQP->options->verbose > 0)
 	{
-- 
2.43.0


From f903f3ffa64e373134eb68422a1e5e51728ba25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 05/19] fix: statistics not computed by a run were reported
 uninitialised

---
 src/qpSWIFT.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 9966d82..c49e95d 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -81,6 +81,14 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_rx = 0.0;
+	myQP->stats->n_ry = 0.0;
+	myQP->stats->n_rz = 0.0;
+	myQP->stats->n_mu = 0.0;
+	myQP->stats->fval = 0.0;
+	myQP->stats->tsolve = 0.0;
+	myQP->stats->kkt_time = 0.0;
+	myQP->stats->resolve_kkt = 0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -282,6 +290,14 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_rx = 0.0;
+	myQP->stats->n_ry = 0.0;
+	myQP->stats->n_rz = 0.0;
+	myQP->stats->n_mu = 0.0;
+	myQP->stats->fval = 0.0;
+	myQP->stats->tsolve = 0.0;
+	myQP->stats->kkt_time = 0.0;
+	myQP->stats->resolve_kkt = 0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
-- 
2.43.0


From e378c3d2c79a9803f75975e7e9a763622ae68117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 06/19] fix: a failed allocation crashed the setup functions
 instead of returning NULL

---
 include/Auxilary.h |   4 +-
 src/Auxilary.c     |  64 ++++++-
 src/qpSWIFT.c      | 417 ++++++++++++++++++++++++++++++++++++---------
 3 files changed, 393 insertions(+), 92 deletions(-)

diff --git a/include/Auxilary.h b/include/Auxilary.h
index fd60b11..4ab77c4 100644
--- a/include/Auxilary.h
+++ b/include/Auxilary.h
@@ -159,7 +159,7 @@ void kktsolve_2(QP *myQP);
 
 void SparseMatrixSetup(qp_int m, qp_int n, qp_int nnz, qp_int *jc, qp_int *ir, qp_real *pr, smat *sparse);
 
-void Transpose_Row_Count(qp_int m, qp_int n, qp_int *Li, qp_int *Lp, qp_int *Lti, qp_int *Ltp);
+qp_int Transpose_Row_Count(qp_int m, qp_int n, qp_int *Li, qp_int *Lp, qp_int *Lti, qp_int *Ltp);
 
 void computeresiduals(QP *myQP);
 
@@ -173,7 +173,7 @@ void formkktmatrix_U(smat *P, smat *G, smat *Gt, smat *kkt);
 
 void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kktmatrix);
 
-void SparseMatrixTranspose(smat *A, smat *At);
+qp_int SparseMatrixTranspose(smat *A, smat *At);
 
 void updatekktmatrix(smat *kkt, qp_real *s, qp_real *z, qp_real *delta_s, qp_real *delta_z, qp_real alpha_p, qp_real alpha_d, qp_int m, qp_int n, qp_int p, qp_int indicator);
 
diff --git a/src/Auxilary.c b/src/Auxilary.c
index af85f1f..7f165df 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -570,6 +570,7 @@ void kktsolve_2(QP *myQP)
  * 	Creates and updates the LDL workspace variables
  * 	Performs ldl_symbolic and stores the results
  * 	Also Performs LDL_numeric ; LDL_perm; LDL_lsolve; LDL_dsolve; LDL_ltsolve; LDL_permt in the same order
+ * 	Returns 1 : Successful, 0 : factorization failed, -1 : out of memory
  */
 qp_int ldlinitialsolve(kkt *mykkt, qp_real *delta)
 {
@@ -587,6 +588,10 @@ qp_int ldlinitialsolve(kkt *mykkt, qp_real *delta)
 	mykkt->Pattern = (qp_int *)MALLOC(n * sizeof(qp_int));
 	mykkt->Flag = (qp_int *)MALLOC(n * sizeof(qp_int));
 	mykkt->Lnz = (qp_int *)MALLOC(n * sizeof(qp_int));
+	if (!mykkt->Y || !mykkt->D || !mykkt->Lp || !mykkt->Parent || !mykkt->Pattern || !mykkt->Flag || !mykkt->Lnz)
+	{
+		return (-1);
+	}
 
 	/* factorize A into LDL' (P and Pinv used) */
 
@@ -596,13 +601,24 @@ qp_int ldlinitialsolve(kkt *mykkt, qp_real *delta)
 
 	mykkt->Li = (qp_int *)MALLOC((lnz + 1) * sizeof(qp_int));
 	mykkt->Lx = (qp_real *)MALLOC((lnz + 1) * sizeof(qp_real));
+	if (!mykkt->Li || !mykkt->Lx)
+	{
+		return (-1);
+	}
 
 	d = LDL_numeric(mykkt->kktmatrix->n, mykkt->kktmatrix->jc, mykkt->kktmatrix->ir, mykkt->kktmatrix->pr, mykkt->Lp, mykkt->Parent, mykkt->Lnz, mykkt->Li, mykkt->Lx, mykkt->D, mykkt->Y, mykkt->Pattern, mykkt->Flag, mykkt->P, mykkt->Pinv);
 
 	mykkt->Lti = (qp_int *)MALLOC(lnz * sizeof(qp_int));
 	mykkt->Ltp = (qp_int *)MALLOC((n + 1) * sizeof(qp_int));
+	if ((lnz && !mykkt->Lti) || !mykkt->Ltp)
+	{
+		return (-1);
+	}
 
-	Transpose_Row_Count(n, n, mykkt->Li, mykkt->Lp, mykkt->Lti, mykkt->Ltp);
+	if (!Transpose_Row_Count(n, n, mykkt->Li, mykkt->Lp, mykkt->Lti, mykkt->Ltp))
+	{
+		return (-1);
+	}
 
 	if (d == n)
 	{
@@ -676,13 +692,17 @@ void SparseMatrixSetup(qp_int m, qp_int n, qp_int nnz, qp_int *jc, qp_int *ir, q
  *
  *
  */
-void Transpose_Row_Count(qp_int m, qp_int n, qp_int *Li, qp_int *Lp, qp_int *Lti, qp_int *Ltp)
+qp_int Transpose_Row_Count(qp_int m, qp_int n, qp_int *Li, qp_int *Lp, qp_int *Lti, qp_int *Ltp)
 {
 
 	qp_int i, j, k, index;
 
 	qp_int *count;
 	count = (qp_int *)MALLOC(m * sizeof(qp_int));
+	if (!count)
+	{
+		return 0;
+	}
 
 	for (j = 0; j < m; j++)
 	{
@@ -725,6 +745,7 @@ void Transpose_Row_Count(qp_int m, qp_int n, qp_int *Li, qp_int *Lp, qp_int *Lti
 		
 
 	FREE(count);
+	return 1;
 }
 
 /*!
@@ -894,13 +915,17 @@ qp_real formrho(qp_real *s, qp_real *delta_s, qp_real *z, qp_real *delta_z, qp_r
  * @param[in]   At				Transpose of the Sparse Matrix
  *
  */
-void SparseMatrixTranspose(smat *A, smat *At)
+qp_int SparseMatrixTranspose(smat *A, smat *At)
 {
 	qp_int i, j, k, index;
 
 	qp_int *count;
 
 	count = (qp_int *)MALLOC(A->m * sizeof(qp_int));
+	if (!count)
+	{
+		return 0;
+	}
 
 	for (j = 0; j < A->m; j++)
 	{
@@ -944,6 +969,7 @@ void SparseMatrixTranspose(smat *A, smat *At)
 		
 
 	FREE(count);
+	return 1;
 }
 
 /*!
@@ -998,6 +1024,10 @@ qp_int kkt_initialize(QP *myQP)
 	p = myQP->p;
 
 	z_inter = (qp_real *)MALLOC(myQP->m * sizeof(qp_real));
+	if (!z_inter)
+	{
+		return -1;
+	}
 
 	for (i = 0; i < n; i++)
 	{
@@ -1021,7 +1051,7 @@ qp_int kkt_initialize(QP *myQP)
 
 	/* test_reach(myQP->kkt->Parent, myQP->kkt->Pinv, myQP->kkt->UPattern, n, m, p); */
 
-	if (Flag)
+	if (Flag > 0)
 	{
 		for (i = 0; i < n; i++)
 		{
@@ -1137,7 +1167,7 @@ qp_real obj_value(smat *P, qp_real *c, qp_real *x, qp_real *temp)
 }
 
 /*!
- * @brief  Converts dense matrix in column major format to CCS format
+ * @brief  Converts dense matrix in column major format to CCS format; leaves A as it is when out of memory
  *
  * @param[out]  A         	    Sparse Matrix A
  * @param[in]   m				number of rows of A
@@ -1156,6 +1186,10 @@ void densetosparse(qp_int m, qp_int n, qp_real *pr, smat *A)
 	qp_int count = 0;
 
 	Ap = (qp_int *)MALLOC((n + 1) * sizeof(qp_int));
+	if (!Ap)
+	{
+		return;
+	}
 
 	qp_int i, j;
 	for (i = 0; i < n + 1; i++)
@@ -1178,6 +1212,13 @@ void densetosparse(qp_int m, qp_int n, qp_real *pr, smat *A)
 
 	Ai = (qp_int *)MALLOC((count) * sizeof(qp_int));
 	Ax = (qp_real *)MALLOC((count) * sizeof(qp_real));
+	if (count && (!Ai || !Ax))
+	{
+		FREE(Ap);
+		FREE(Ai);
+		FREE(Ax);
+		return;
+	}
 
 	count = 0;
 	for (j = 0; j < n; j++)
@@ -1202,7 +1243,7 @@ void densetosparse(qp_int m, qp_int n, qp_real *pr, smat *A)
 }
 
 /*!
- * @brief  Converts dense matrix in row major format to CCS format
+ * @brief  Converts dense matrix in row major format to CCS format; leaves A as it is when out of memory
  *
  * @param[out]  A         	    Sparse Matrix A
  * @param[in]   m				number of rows of A
@@ -1221,6 +1262,10 @@ void densetosparse_ROWMAJOR(qp_int m, qp_int n, qp_real *pr, smat *A)
 	qp_int count = 0;
 
 	Ap = (qp_int *)MALLOC((n + 1) * sizeof(qp_int));
+	if (!Ap)
+	{
+		return;
+	}
 
 	qp_int i,j;
 
@@ -1243,6 +1288,13 @@ void densetosparse_ROWMAJOR(qp_int m, qp_int n, qp_real *pr, smat *A)
 
 	Ai = (qp_int *)MALLOC((count) * sizeof(qp_int));
 	Ax = (qp_real *)MALLOC((count) * sizeof(qp_real));
+	if (count && (!Ai || !Ax))
+	{
+		FREE(Ap);
+		FREE(Ai);
+		FREE(Ax);
+		return;
+	}
 
 	count = 0;
 	qp_real temp;
diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index c49e95d..0b26f08 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -22,6 +22,7 @@ Permut = amd(kkt) - 1;
 *********************************************************************************************************/
 
 #include "qpSWIFT.h"
+#include <string.h>
 
 /* Setup Function 
 * Allocates memory for all the variables 
@@ -63,11 +64,21 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	tic(&tsetup);
 	qp_int kkt_nnz, kkt_m;
 	qp_int idx;
+	qp_int Flag_init;
 	QP *myQP;
 	myQP = (QP *)MALLOC(sizeof(QP));
+	if (!myQP)
+	{
+		return NULL;
+	}
+	memset(myQP, 0, sizeof(QP));
 
 	/* Initialise Settings */
 	myQP->options = (settings *)MALLOC(sizeof(settings));
+	if (!myQP->options)
+	{
+		goto outofmemory;
+	}
 	myQP->options->abstol = ABSTOL;
 	myQP->options->reltol = RELTOL;
 	myQP->options->maxit = MAXIT;
@@ -77,6 +88,11 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 
 	/* Initialise Stats */
 	myQP->stats = (stats *)MALLOC(sizeof(stats));
+	if (!myQP->stats)
+	{
+		goto outofmemory;
+	}
+	myQP->stats->AMD_RESULT = 0;
 	myQP->stats->Flag = QP_FATAL;
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
@@ -100,6 +116,11 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	{
 		myQP->p = p;
 		myQP->A = (smat *)MALLOC(sizeof(smat));
+		if (!myQP->A)
+		{
+			goto outofmemory;
+		}
+		memset(myQP->A, 0, sizeof(smat));
 		myQP->b = b;
 		SparseMatrixSetup(myQP->p, myQP->n, Ajc[myQP->n], Ajc, Air, Apr, myQP->A);
 	}
@@ -112,8 +133,18 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	}
 
 	myQP->P = (smat *)MALLOC(sizeof(smat));
+	if (!myQP->P)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->P, 0, sizeof(smat));
 	SparseMatrixSetup(myQP->n, myQP->n, Pjc[myQP->n], Pjc, Pir, Ppr, myQP->P);
 	myQP->G = (smat *)MALLOC(sizeof(smat));
+	if (!myQP->G)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->G, 0, sizeof(smat));
 	SparseMatrixSetup(myQP->m, myQP->n, Gjc[myQP->n], Gjc, Gir, Gpr, myQP->G);
 	myQP->c = c;
 	myQP->h = h;
@@ -123,19 +154,43 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	if (myQP->A)
 	{
 		myQP->At = (smat *)MALLOC(sizeof(smat));
+		if (!myQP->At)
+		{
+			goto outofmemory;
+		}
+		memset(myQP->At, 0, sizeof(smat));
 		myQP->At->jc = (qp_int *)MALLOC((myQP->A->m + 1) * sizeof(qp_int));
 		myQP->At->ir = (qp_int *)MALLOC(myQP->A->nnz * sizeof(qp_int));
 		myQP->At->pr = (qp_real *)MALLOC(myQP->A->nnz * sizeof(qp_real));
+		if (!myQP->At->jc || (myQP->A->nnz && (!myQP->At->ir || !myQP->At->pr)))
+		{
+			goto outofmemory;
+		}
 		SparseMatrixSetup(myQP->A->n, myQP->A->m, myQP->A->nnz, myQP->At->jc, myQP->At->ir, myQP->At->pr, myQP->At);
-		SparseMatrixTranspose(myQP->A, myQP->At);
+		if (!SparseMatrixTranspose(myQP->A, myQP->At))
+		{
+			goto outofmemory;
+		}
 	}
 
 	myQP->Gt = (smat *)MALLOC(sizeof(smat));
+	if (!myQP->Gt)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->Gt, 0, sizeof(smat));
 	myQP->Gt->jc = (qp_int *)MALLOC((myQP->G->m + 1) * sizeof(qp_int));
 	myQP->Gt->ir = (qp_int *)MALLOC(myQP->G->nnz * sizeof(qp_int));
 	myQP->Gt->pr = (qp_real *)MALLOC(myQP->G->nnz * sizeof(qp_real));
+	if (!myQP->Gt->jc || (myQP->G->nnz && (!myQP->Gt->ir || !myQP->Gt->pr)))
+	{
+		goto outofmemory;
+	}
 	SparseMatrixSetup(myQP->G->n, myQP->G->m, myQP->G->nnz, myQP->Gt->jc, myQP->Gt->ir, myQP->Gt->pr, myQP->Gt);
-	SparseMatrixTranspose(myQP->G, myQP->Gt);
+	if (!SparseMatrixTranspose(myQP->G, myQP->Gt))
+	{
+		goto outofmemory;
+	}
 	/* Allocate Memory for Transpose of Matrix */
 
 	myQP->x = (qp_real *)MALLOC(myQP->n * sizeof(qp_real));
@@ -168,6 +223,14 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->lambda = (qp_real *)MALLOC(myQP->m * sizeof(qp_real));
 
 	myQP->temp = (qp_real *)MALLOC(myQP->n * sizeof(qp_real));
+	if (!myQP->x || !myQP->z || !myQP->s || !myQP->rx || !myQP->rz || !myQP->delta || !myQP->delta_x || !myQP->delta_z || !myQP->delta_s || !myQP->ds || !myQP->lambda || !myQP->temp)
+	{
+		goto outofmemory;
+	}
+	if (myQP->A && (!myQP->y || !myQP->ry || !myQP->delta_y))
+	{
+		goto outofmemory;
+	}
 
 	/* Initialise KKT Matrix */
 	if (myQP->A)
@@ -182,11 +245,25 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	}
 
 	myQP->kkt = (kkt *)MALLOC(sizeof(kkt));
+	if (!myQP->kkt)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->kkt, 0, sizeof(kkt));
 
 	myQP->kkt->kktmatrix = (smat *)MALLOC(sizeof(smat));
+	if (!myQP->kkt->kktmatrix)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->kkt->kktmatrix, 0, sizeof(smat));
 	myQP->kkt->kktmatrix->jc = (qp_int *)MALLOC((kkt_m + 1) * sizeof(qp_int));
 	myQP->kkt->kktmatrix->pr = (qp_real *)MALLOC(kkt_nnz * sizeof(qp_real));
 	myQP->kkt->kktmatrix->ir = (qp_int *)MALLOC(kkt_nnz * sizeof(qp_int));
+	if (!myQP->kkt->kktmatrix->jc || !myQP->kkt->kktmatrix->pr || !myQP->kkt->kktmatrix->ir)
+	{
+		goto outofmemory;
+	}
 
 	SparseMatrixSetup(kkt_m, kkt_m, kkt_nnz, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->kktmatrix);
 	/* Forms the full kkt Matrix ***********
@@ -198,6 +275,10 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	formkktmatrix_full(myQP->P, myQP->G, myQP->A, myQP->Gt, myQP->At, myQP->kkt->kktmatrix);
 
 	myQP->kkt->b = (qp_real *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_real));
+	if (!myQP->kkt->b)
+	{
+		goto outofmemory;
+	}
 
 	if (Permut)
 	{
@@ -208,6 +289,10 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	{
 		/* AMD Ordering */
 		myQP->kkt->P = (qp_int *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_int));
+		if (!myQP->kkt->P)
+		{
+			goto outofmemory;
+		}
 		double Control[AMD_CONTROL], Info[AMD_INFO];
 		amd_l_defaults(Control);
 		myQP->stats->AMD_RESULT = amd_l_order(myQP->kkt->kktmatrix->n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->P, Control, Info);
@@ -228,9 +313,18 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 
 	myQP->kkt->Pinv = (qp_int *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_int));
 	myQP->kkt->UPattern = (qp_int *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_int));
+	if (!myQP->kkt->Pinv || !myQP->kkt->UPattern)
+	{
+		goto outofmemory;
+	}
 
 	/* Initialise the solver */
-	if (!kkt_initialize(myQP))
+	Flag_init = kkt_initialize(myQP);
+	if (Flag_init < 0)
+	{
+		goto outofmemory;
+	}
+	if (!Flag_init)
 	{
 		myQP->stats->Flag = QP_KKTFAIL;
 		PRINT("Status : %d", QP_KKTFAIL);
@@ -239,6 +333,11 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->stats->ldl_numeric = 0.0;
 	myQP->stats->tsetup = toc(&tsetup);
 	return myQP;
+
+outofmemory:
+	/* Releases what has been allocated so far */
+	QP_CLEANUP(myQP);
+	return NULL;
 }
 
 /*!
@@ -272,11 +371,21 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	tic(&tsetup);
 	qp_int kkt_nnz, kkt_m;
 	qp_int idx;
+	qp_int Flag_init;
 	QP *myQP;
 	myQP = (QP *)MALLOC(sizeof(QP));
+	if (!myQP)
+	{
+		return NULL;
+	}
+	memset(myQP, 0, sizeof(QP));
 
 	/* Initialise Settings */
 	myQP->options = (settings *)MALLOC(sizeof(settings));
+	if (!myQP->options)
+	{
+		goto outofmemory;
+	}
 	myQP->options->abstol = ABSTOL;
 	myQP->options->reltol = RELTOL;
 	myQP->options->maxit = MAXIT;
@@ -286,6 +395,11 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 
 	/* Initialise Stats */
 	myQP->stats = (stats *)MALLOC(sizeof(stats));
+	if (!myQP->stats)
+	{
+		goto outofmemory;
+	}
+	myQP->stats->AMD_RESULT = 0;
 	myQP->stats->Flag = QP_FATAL;
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
@@ -309,6 +423,11 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	{
 		myQP->p = p;
 		myQP->A = (smat *)MALLOC(sizeof(smat));
+		if (!myQP->A)
+		{
+			goto outofmemory;
+		}
+		memset(myQP->A, 0, sizeof(smat));
 		myQP->b = b;
 		if (ordering == COLUMN_MAJOR_ORDERING)
 		{
@@ -318,6 +437,10 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 		{
 			densetosparse_ROWMAJOR(myQP->p, myQP->n, Apr, myQP->A);
 		}
+		if (!myQP->A->jc)
+		{
+			goto outofmemory;
+		}
 	}
 	else
 	{
@@ -328,6 +451,11 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	}
 
 	myQP->P = (smat *)MALLOC(sizeof(smat));
+	if (!myQP->P)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->P, 0, sizeof(smat));
 	if (ordering == COLUMN_MAJOR_ORDERING)
 	{
 		densetosparse(myQP->n, myQP->n, Ppr, myQP->P);
@@ -336,7 +464,16 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	{
 		densetosparse_ROWMAJOR(myQP->n, myQP->n, Ppr, myQP->P);
 	}
+	if (!myQP->P->jc)
+	{
+		goto outofmemory;
+	}
 	myQP->G = (smat *)MALLOC(sizeof(smat));
+	if (!myQP->G)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->G, 0, sizeof(smat));
 	if (ordering == COLUMN_MAJOR_ORDERING)
 	{
 		densetosparse(myQP->m, myQP->n, Gpr, myQP->G);
@@ -345,6 +482,10 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	{
 		densetosparse_ROWMAJOR(myQP->m, myQP->n, Gpr, myQP->G);
 	}
+	if (!myQP->G->jc)
+	{
+		goto outofmemory;
+	}
 	myQP->c = c;
 	myQP->h = h;
 	myQP->sigma_d = 0.0;
@@ -353,19 +494,43 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	if (myQP->A)
 	{
 		myQP->At = (smat *)MALLOC(sizeof(smat));
+		if (!myQP->At)
+		{
+			goto outofmemory;
+		}
+		memset(myQP->At, 0, sizeof(smat));
 		myQP->At->jc = (qp_int *)MALLOC((myQP->A->m + 1) * sizeof(qp_int));
 		myQP->At->ir = (qp_int *)MALLOC(myQP->A->nnz * sizeof(qp_int));
 		myQP->At->pr = (qp_real *)MALLOC(myQP->A->nnz * sizeof(qp_real));
+		if (!myQP->At->jc || (myQP->A->nnz && (!myQP->At->ir || !myQP->At->pr)))
+		{
+			goto outofmemory;
+		}
 		SparseMatrixSetup(myQP->A->n, myQP->A->m, myQP->A->nnz, myQP->At->jc, myQP->At->ir, myQP->At->pr, myQP->At);
-		SparseMatrixTranspose(myQP->A, myQP->At);
+		if (!SparseMatrixTranspose(myQP->A, myQP->At))
+		{
+			goto outofmemory;
+		}
 	}
 
 	myQP->Gt = (smat *)MALLOC(sizeof(smat));
+	if (!myQP->Gt)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->Gt, 0, sizeof(smat));
 	myQP->Gt->jc = (qp_int *)MALLOC((myQP->G->m + 1) * sizeof(qp_int));
 	myQP->Gt->ir = (qp_int *)MALLOC(myQP->G->nnz * sizeof(qp_int));
 	myQP->Gt->pr = (qp_real *)MALLOC(myQP->G->nnz * sizeof(qp_real));
+	if (!myQP->Gt->jc || (myQP->G->nnz && (!myQP->Gt->ir || !myQP->Gt->pr)))
+	{
+		goto outofmemory;
+	}
 	SparseMatrixSetup(myQP->G->n, myQP->G->m, myQP->G->nnz, myQP->Gt->jc, myQP->Gt->ir, myQP->Gt->pr, myQP->Gt);
-	SparseMatrixTranspose(myQP->G, myQP->Gt);
+	if (!SparseMatrixTranspose(myQP->G, myQP->Gt))
+	{
+		goto outofmemory;
+	}
 	/* Allocate Memory for Transpose of Matrix */
 
 	myQP->x = (qp_real *)MALLOC(myQP->n * sizeof(qp_real));
@@ -398,6 +563,14 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->lambda = (qp_real *)MALLOC(myQP->m * sizeof(qp_real));
 
 	myQP->temp = (qp_real *)MALLOC(myQP->n * sizeof(qp_real));
+	if (!myQP->x || !myQP->z || !myQP->s || !myQP->rx || !myQP->rz || !myQP->delta || !myQP->delta_x || !myQP->delta_z || !myQP->delta_s || !myQP->ds || !myQP->lambda || !myQP->temp)
+	{
+		goto outofmemory;
+	}
+	if (myQP->A && (!myQP->y || !myQP->ry || !myQP->delta_y))
+	{
+		goto outofmemory;
+	}
 
 	/* Initialise KKT Matrix */
 	if (myQP->A)
@@ -412,11 +585,25 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	}
 
 	myQP->kkt = (kkt *)MALLOC(sizeof(kkt));
+	if (!myQP->kkt)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->kkt, 0, sizeof(kkt));
 
 	myQP->kkt->kktmatrix = (smat *)MALLOC(sizeof(smat));
+	if (!myQP->kkt->kktmatrix)
+	{
+		goto outofmemory;
+	}
+	memset(myQP->kkt->kktmatrix, 0, sizeof(smat));
 	myQP->kkt->kktmatrix->jc = (qp_int *)MALLOC((kkt_m + 1) * sizeof(qp_int));
 	myQP->kkt->kktmatrix->pr = (qp_real *)MALLOC(kkt_nnz * sizeof(qp_real));
 	myQP->kkt->kktmatrix->ir = (qp_int *)MALLOC(kkt_nnz * sizeof(qp_int));
+	if (!myQP->kkt->kktmatrix->jc || !myQP->kkt->kktmatrix->pr || !myQP->kkt->kktmatrix->ir)
+	{
+		goto outofmemory;
+	}
 
 	SparseMatrixSetup(kkt_m, kkt_m, kkt_nnz, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->kktmatrix);
 	/* Forms the full kkt Matrix  ********
@@ -428,6 +615,10 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	formkktmatrix_full(myQP->P, myQP->G, myQP->A, myQP->Gt, myQP->At, myQP->kkt->kktmatrix);
 
 	myQP->kkt->b = (qp_real *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_real));
+	if (!myQP->kkt->b)
+	{
+		goto outofmemory;
+	}
 
 	if (Permut)
 	{
@@ -438,6 +629,10 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	{
 		/* AMD Ordering */
 		myQP->kkt->P = (qp_int *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_int));
+		if (!myQP->kkt->P)
+		{
+			goto outofmemory;
+		}
 		double Control[AMD_CONTROL], Info[AMD_INFO];
 		amd_l_defaults(Control);
 		myQP->stats->AMD_RESULT = amd_l_order(myQP->kkt->kktmatrix->n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->P, Control, Info);
@@ -458,9 +653,18 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 
 	myQP->kkt->Pinv = (qp_int *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_int));
 	myQP->kkt->UPattern = (qp_int *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_int));
+	if (!myQP->kkt->Pinv || !myQP->kkt->UPattern)
+	{
+		goto outofmemory;
+	}
 
 	/* Initialise the solver */
-	if (!kkt_initialize(myQP))
+	Flag_init = kkt_initialize(myQP);
+	if (Flag_init < 0)
+	{
+		goto outofmemory;
+	}
+	if (!Flag_init)
 	{
 		myQP->stats->Flag = QP_KKTFAIL;
 		PRINT("Status : %d", QP_KKTFAIL);
@@ -469,6 +673,11 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->stats->ldl_numeric = 0.0;
 	myQP->stats->tsetup = toc(&tsetup);
 	return myQP;
+
+outofmemory:
+	/* Releases what has been allocated so far */
+	QP_CLEANUP_dense(myQP);
+	return NULL;
 }
 
 /*!
@@ -681,6 +890,11 @@ qp_int QP_SOLVE(QP *myQP)
 void QP_CLEANUP(QP *myQP)
 {
 
+	if (!myQP)
+	{
+		return;
+	}
+
 	/* FREE myQP Vectors */
 	FREE(myQP->x);
 	FREE(myQP->z);
@@ -701,50 +915,62 @@ void QP_CLEANUP(QP *myQP)
 	if (myQP->A)
 	{
 		FREE(myQP->A);
-		FREE(myQP->At->ir);
-		FREE(myQP->At->jc);
-		FREE(myQP->At->pr);
+		if (myQP->At)
+		{
+			FREE(myQP->At->ir);
+			FREE(myQP->At->jc);
+			FREE(myQP->At->pr);
+		}
 		FREE(myQP->At);
 		FREE(myQP->y);
 		FREE(myQP->delta_y);
 		FREE(myQP->ry);
 	}
 
-	FREE(myQP->Gt->ir);
-	FREE(myQP->Gt->jc);
-	FREE(myQP->Gt->pr);
+	if (myQP->Gt)
+	{
+		FREE(myQP->Gt->ir);
+		FREE(myQP->Gt->jc);
+		FREE(myQP->Gt->pr);
+	}
 	FREE(myQP->Gt);
 
-	/* FREE myQP->kkt Structure */
-	FREE(myQP->kkt->kktmatrix->ir);
-	FREE(myQP->kkt->kktmatrix->jc);
-	FREE(myQP->kkt->kktmatrix->pr);
-	FREE(myQP->kkt->kktmatrix);
-
-	/* Free myQP->kkt vectors */
-	FREE(myQP->kkt->b);
-	FREE(myQP->kkt->Parent);
-	FREE(myQP->kkt->Flag);
-	FREE(myQP->kkt->Lnz);
-	FREE(myQP->kkt->Li);
-	FREE(myQP->kkt->Lp);
-	FREE(myQP->kkt->Lti);
-	FREE(myQP->kkt->Ltp);
-	FREE(myQP->kkt->Pattern);
-	FREE(myQP->kkt->UPattern);
-	FREE(myQP->kkt->Y);
-	FREE(myQP->kkt->Lx);
-	FREE(myQP->kkt->D);
-	FREE(myQP->kkt->Pinv);
-
-	/* FREE Permutation Matrix */
-	if (myQP->stats->AMD_RESULT != -3)
-	{
-		FREE(myQP->kkt->P);
-	}
-		
-
-	FREE(myQP->kkt);
+	if (myQP->kkt)
+	{
+		/* FREE myQP->kkt Structure */
+		if (myQP->kkt->kktmatrix)
+		{
+			FREE(myQP->kkt->kktmatrix->ir);
+			FREE(myQP->kkt->kktmatrix->jc);
+			FREE(myQP->kkt->kktmatrix->pr);
+		}
+		FREE(myQP->kkt->kktmatrix);
+
+		/* Free myQP->kkt vectors */
+		FREE(myQP->kkt->b);
+		FREE(myQP->kkt->Parent);
+		FREE(myQP->kkt->Flag);
+		FREE(myQP->kkt->Lnz);
+		FREE(myQP->kkt->Li);
+		FREE(myQP->kkt->Lp);
+		FREE(myQP->kkt->Lti);
+		FREE(myQP->kkt->Ltp);
+		FREE(myQP->kkt->Pattern);
+		FREE(myQP->kkt->UPattern);
+		FREE(myQP->kkt->Y);
+		FREE(myQP->kkt->Lx);
+		FREE(myQP->kkt->D);
+		FREE(myQP->kkt->Pinv);
+
+		/* FREE Permutation Matrix */
+		if (myQP->stats->AMD_RESULT != -3)
+		{
+			FREE(myQP->kkt->P);
+		}
+
+
+		FREE(myQP->kkt);
+	}
 
 	/* FREE Settings */
 	FREE(myQP->options);
@@ -774,6 +1000,11 @@ void QP_CLEANUP(QP *myQP)
 void QP_CLEANUP_dense(QP *myQP)
 {
 
+	if (!myQP)
+	{
+		return;
+	}
+
 	/* FREE myQP Vectors */
 	FREE(myQP->x);
 	FREE(myQP->z);
@@ -789,13 +1020,19 @@ void QP_CLEANUP_dense(QP *myQP)
 	FREE(myQP->temp);
 
 	/* Free myQP Matrices */
-	FREE(myQP->P->pr);
-	FREE(myQP->P->jc);
-	FREE(myQP->P->ir);
+	if (myQP->P)
+	{
+		FREE(myQP->P->pr);
+		FREE(myQP->P->jc);
+		FREE(myQP->P->ir);
+	}
 	FREE(myQP->P);
-	FREE(myQP->G->pr);
-	FREE(myQP->G->jc);
-	FREE(myQP->G->ir);
+	if (myQP->G)
+	{
+		FREE(myQP->G->pr);
+		FREE(myQP->G->jc);
+		FREE(myQP->G->ir);
+	}
 	FREE(myQP->G);
 	if (myQP->A)
 	{
@@ -803,50 +1040,62 @@ void QP_CLEANUP_dense(QP *myQP)
 		FREE(myQP->A->jc);
 		FREE(myQP->A->ir);
 		FREE(myQP->A);
-		FREE(myQP->At->ir);
-		FREE(myQP->At->jc);
-		FREE(myQP->At->pr);
+		if (myQP->At)
+		{
+			FREE(myQP->At->ir);
+			FREE(myQP->At->jc);
+			FREE(myQP->At->pr);
+		}
 		FREE(myQP->At);
 		FREE(myQP->y);
 		FREE(myQP->delta_y);
 		FREE(myQP->ry);
 	}
 
-	FREE(myQP->Gt->ir);
-	FREE(myQP->Gt->jc);
-	FREE(myQP->Gt->pr);
+	if (myQP->Gt)
+	{
+		FREE(myQP->Gt->ir);
+		FREE(myQP->Gt->jc);
+		FREE(myQP->Gt->pr);
+	}
 	FREE(myQP->Gt);
 
-	/* FREE myQP->kkt Structure */
-	FREE(myQP->kkt->kktmatrix->ir);
-	FREE(myQP->kkt->kktmatrix->jc);
-	FREE(myQP->kkt->kktmatrix->pr);
-	FREE(myQP->kkt->kktmatrix);
-
-	/* Free myQP->kkt vectors */
-	FREE(myQP->kkt->b);
-	FREE(myQP->kkt->Parent);
-	FREE(myQP->kkt->Flag);
-	FREE(myQP->kkt->Lnz);
-	FREE(myQP->kkt->Li);
-	FREE(myQP->kkt->Lp);
-	FREE(myQP->kkt->Lti);
-	FREE(myQP->kkt->Ltp);
-	FREE(myQP->kkt->Pattern);
-	FREE(myQP->kkt->UPattern);
-	FREE(myQP->kkt->Y);
-	FREE(myQP->kkt->Lx);
-	FREE(myQP->kkt->D);
-	FREE(myQP->kkt->Pinv);
-
-	/* FREE Permutation Matrix */
-	if (myQP->stats->AMD_RESULT != -3)
-	{
-		FREE(myQP->kkt->P);
-	}
-		
-
-	FREE(myQP->kkt);
+	if (myQP->kkt)
+	{
+		/* FREE myQP->kkt Structure */
+		if (myQP->kkt->kktmatrix)
+		{
+			FREE(myQP->kkt->kktmatrix->ir);
+			FREE(myQP->kkt->kktmatrix->jc);
+			FREE(myQP->kkt->kktmatrix->pr);
+		}
+		FREE(myQP->kkt->kktmatrix);
+
+		/* Free myQP->kkt vectors */
+		FREE(myQP->kkt->b);
+		FREE(myQP->kkt->Parent);
+		FREE(myQP->kkt->Flag);
+		FREE(myQP->kkt->Lnz);
+		FREE(myQP->kkt->Li);
+		FREE(myQP->kkt->Lp);
+		FREE(myQP->kkt->Lti);
+		FREE(myQP->kkt->Ltp);
+		FREE(myQP->kkt->Pattern);
+		FREE(myQP->kkt->UPattern);
+		FREE(myQP->kkt->Y);
+		FREE(myQP->kkt->Lx);
+		FREE(myQP->kkt->D);
+		FREE(myQP->kkt->Pinv);
+
+		/* FREE Permutation Matrix */
+		if (myQP->stats->AMD_RESULT != -3)
+		{
+			FREE(myQP->kkt->P);
+		}
+
+
+		FREE(myQP->kkt);
+	}
 
 	/* FREE Settings */
 	FREE(myQP->options);
-- 
2.43.0


From d001866b06a84a33d82b7664214ba9607754b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 07/19] fix: a 0-dimensional c, h or b passed to the Python
 module crashed the interpreter

---
 python/pyqpSWIFT.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 2f75797..d6cfcd7 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -49,8 +49,6 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     qp_real *Ppr, *Apr = NULL, *Gpr;
     qp_real *cpr, *hpr, *bpr = NULL;
 
-    npy_intp *dims;
-
     PyObject *basic_info = NULL, *adv_info = NULL, *result;
 
     /* Temporary Pointer */
@@ -85,14 +83,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     }
 
     qp_int n, m, p;
-    dims = PyArray_DIMS(c);
-    n = (qp_int)dims[0];
-    dims = PyArray_DIMS(h);
-    m = (qp_int)dims[0];
+    n = (qp_int)PyArray_SIZE(c); /* a 0-dimensional array has no dims[0] */
+    m = (qp_int)PyArray_SIZE(h); /* a 0-dimensional array has no dims[0] */
     if (b && A)
     {
-        dims = PyArray_DIMS(b);
-        p = (qp_int)dims[0];
+        p = (qp_int)PyArray_SIZE(b);
     }
     else
     {
-- 
2.43.0


From 68171f7d1bb0bbf5309dcefde8cbf09b524e184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 08/19] fix: an invalid option value passed to the Python
 module leaked a reference to it

---
 python/pyqpSWIFT.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index d6cfcd7..c593c71 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -182,7 +182,6 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
 
         if (opts_maxiter)
         {
-            Py_INCREF(opts_maxiter);
             if (qpLong_check(opts_maxiter) && qp_getlong(opts_maxiter) < 200 && qp_getlong(opts_maxiter) > 0)
             {
                 inopts.maxit = (qp_int)qp_getlong(opts_maxiter);
@@ -192,14 +191,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "max iterations must be between 0 and 200, using the default value of 100");
                 return NULL;
             }
-            Py_DECREF(opts_maxiter);
         }
 
         opts_abstol = PyDict_GetItemString(opts, "ABSTOL");
 
         if (opts_abstol)
         {
-            Py_INCREF(opts_abstol);
             if (PyFloat_Check(opts_abstol) && PyFloat_AsDouble(opts_abstol) < 1.0 && PyFloat_AsDouble(opts_abstol) > 0.0)
             {
                 inopts.abstol = (qp_real)PyFloat_AsDouble(opts_abstol);
@@ -209,14 +206,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "absolute tolerance must be between 0 and 1, using the default value");
                 return NULL;
             }
-            Py_DECREF(opts_abstol);
         }
 
         opts_reltol = PyDict_GetItemString(opts, "RELTOL");
 
         if (opts_reltol)
         {
-            Py_INCREF(opts_reltol);
             if (PyFloat_Check(opts_reltol) && PyFloat_AsDouble(opts_reltol) < 1.0 && PyFloat_AsDouble(opts_reltol) > 0.0)
             {
                 inopts.reltol = (qp_real)PyFloat_AsDouble(opts_reltol);
@@ -226,14 +221,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "realtive tolerance must be between 0 and 1, using the default value");
                 return NULL;
             }
-            Py_DECREF(opts_reltol);
         }
 
         opts_sigma = PyDict_GetItemString(opts, "SIGMA");
 
         if (opts_sigma)
         {
-            Py_INCREF(opts_sigma);
             if (PyFloat_Check(opts_sigma) && PyFloat_AsDouble(opts_sigma) > 0.0)
             {
                 inopts.sigma = (qp_real)PyFloat_AsDouble(opts_sigma);
@@ -243,14 +236,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "sigma must be positive, using the default value");
                 return NULL;
             }
-            Py_DECREF(opts_sigma);
         }
 
         opts_verbose = PyDict_GetItemString(opts, "VERBOSE");
 
         if (opts_verbose)
         {
-            Py_INCREF(opts_verbose);
             if (qpLong_check(opts_verbose) && qp_getlong(opts_verbose) >= 0)
             {
                 inopts.verbose = (qp_int)qp_getlong(opts_verbose);
@@ -261,14 +252,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 return NULL;
             }
-            Py_DECREF(opts_verbose);
         }
 
         opts_output = PyDict_GetItemString(opts, "OUTPUT");
 
         if (opts_output)
         {
-            Py_INCREF(opts_output);
             if (qpLong_check(opts_output) && qp_getlong(opts_output) >= 0)
             {
                 opts_output_level = (qp_int)qp_getlong(opts_output);
@@ -279,7 +268,6 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-            Py_DECREF(opts_output);
         }
     }
 
-- 
2.43.0


From 6e8cdfa204fa52141da2211b9e6a6c5ec06c513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 09/19] fix: an invalid OUTPUT option of the Python module left
 an exception pending

---
 python/pyqpSWIFT.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index c593c71..f880a21 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -264,7 +264,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
-                PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1);
+                /* the conversion may have overflowed, and the warning may be turned into an exception */
+                PyErr_Clear();
+                if (PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1) < 0)
+                {
+                    return NULL;
+                }
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-- 
2.43.0


From cd4673e44ac258eb1319b34988e7422c6b08323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 10/19] fix: a failed allocation in the Python module crashed
 the interpreter

---
 python/pyqpSWIFT.c | 114 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 81 insertions(+), 33 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index f880a21..5455b43 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -27,6 +27,10 @@ qp_real *getptr(PyArrayObject *ar)
     PyArrayObject *tmp_arr;
     PyArrayObject *new_owner;
     tmp_arr = PyArray_GETCONTIGUOUS(ar);
+    if (!tmp_arr)
+    {
+        return NULL;
+    }
     new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);
     Py_DECREF(tmp_arr);
     // qp_real *ptr = PyArray_DATA(new_owner);
@@ -49,16 +53,18 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     qp_real *Ppr, *Apr = NULL, *Gpr;
     qp_real *cpr, *hpr, *bpr = NULL;
 
-    PyObject *basic_info = NULL, *adv_info = NULL, *result;
+    PyObject *basic_info = NULL, *adv_info = NULL, *result = NULL;
 
     /* Temporary Pointer */
     qp_real *temptr;
 
-    PyArrayObject *ctemp, *htemp, *btemp = NULL;
-    PyArrayObject *Ptemp, *Gtemp, *Atemp = NULL;
+    PyArrayObject *ctemp = NULL, *htemp = NULL, *btemp = NULL;
+    PyArrayObject *Ptemp = NULL, *Gtemp = NULL, *Atemp = NULL;
+
+    QP *myQP = NULL;
 
     /* Results Pointer */
-    PyArrayObject *sol_x, *sol_y = NULL, *sol_z = NULL, *sol_s = NULL;
+    PyArrayObject *sol_x = NULL, *sol_y = NULL, *sol_z = NULL, *sol_s = NULL;
     /* Results Pointer */
 
     /* Results Dimensions */
@@ -282,26 +288,53 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
 
     /*** Get Data Pointers ***/
     ctemp = getptr(c);
+    if (!ctemp)
+    {
+        goto cleanup;
+    }
     cpr = (qp_real *)PyArray_DATA(ctemp);
 
     htemp = getptr(h);
+    if (!htemp)
+    {
+        goto cleanup;
+    }
     hpr = (qp_real *)PyArray_DATA(htemp);
     if (b && A)
     {
         btemp = getptr(b);
+        if (!btemp)
+        {
+            goto cleanup;
+        }
         bpr = (qp_real *)PyArray_DATA(btemp);
         Atemp = getptr(A);
+        if (!Atemp)
+        {
+            goto cleanup;
+        }
         Apr = (qp_real *)PyArray_DATA(Atemp);
     }
     Ptemp = getptr(P);
+    if (!Ptemp)
+    {
+        goto cleanup;
+    }
     Ppr = (qp_real *)PyArray_DATA(Ptemp);
     Gtemp = getptr(G);
+    if (!Gtemp)
+    {
+        goto cleanup;
+    }
     Gpr = (qp_real *)PyArray_DATA(Gtemp);
     /*** Get Data Pointers ***/
 
-    QP *myQP;
-
     myQP = QP_SETUP_dense(n, m, p, Ppr, Apr, Gpr, cpr, hpr, bpr, NULL, ROW_MAJOR_ORDERING);
+    if (!myQP)
+    {
+        PyErr_NoMemory();
+        goto cleanup;
+    }
 
     /*---- Copy Settings if any---*/
     myQP->options->abstol = inopts.abstol;
@@ -331,6 +364,10 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
 
     sol_xdim[0] = myQP->n;
     sol_x = (PyArrayObject *)PyArray_SimpleNew(1, sol_xdim, NPY_DOUBLE);
+    if (!sol_x)
+    {
+        goto cleanup;
+    }
     temptr = PyArray_DATA(sol_x);
     for (qp_int i = 0; i < myQP->n; ++i)
     {
@@ -345,12 +382,15 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                                    "Iterations", myQP->stats->IterationCount,
                                    "Setup_Time", myQP->stats->tsetup,
                                    "Solve_Time", myQP->stats->tsolve);
+        if (!basic_info)
+        {
+            goto cleanup;
+        }
 
         result = Py_BuildValue("{s:O,s:O}",
                                "sol", sol_x,
                                "basicInfo", basic_info);
 
-        Py_DECREF(basic_info);
         break;
     case 2:
         basic_info = Py_BuildValue("{s:l,s:l,s:d,s:d}",
@@ -358,11 +398,19 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                                    "Iterations", myQP->stats->IterationCount,
                                    "Setup_Time", myQP->stats->tsetup,
                                    "Solve_Time", myQP->stats->tsolve);
+        if (!basic_info)
+        {
+            goto cleanup;
+        }
 
         if (b && A)
         {
             sol_ydim[0] = myQP->p;
             sol_y = (PyArrayObject *)PyArray_SimpleNew(1, sol_ydim, NPY_DOUBLE);
+            if (!sol_y)
+            {
+                goto cleanup;
+            }
             temptr = PyArray_DATA(sol_y);
             for (qp_int i = 0; i < myQP->p; ++i)
             {
@@ -372,6 +420,10 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
 
         sol_zdim[0] = myQP->m;
         sol_z = (PyArrayObject *)PyArray_SimpleNew(1, sol_zdim, NPY_DOUBLE);
+        if (!sol_z)
+        {
+            goto cleanup;
+        }
         temptr = PyArray_DATA(sol_z);
         for (qp_int i = 0; i < myQP->m; ++i)
         {
@@ -380,6 +432,10 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
 
         sol_sdim[0] = myQP->m;
         sol_s = (PyArrayObject *)PyArray_SimpleNew(1, sol_sdim, NPY_DOUBLE);
+        if (!sol_s)
+        {
+            goto cleanup;
+        }
         temptr = PyArray_DATA(sol_s);
         for (qp_int i = 0; i < myQP->m; ++i)
         {
@@ -405,22 +461,15 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                                      "z", sol_z,
                                      "s", sol_s);
         }
+        if (!adv_info)
+        {
+            goto cleanup;
+        }
         result = Py_BuildValue("{s:O,s:O,s:O}",
                                "sol", sol_x,
                                "basicInfo", basic_info,
                                "advInfo", adv_info);
 
-        Py_DECREF(basic_info);
-
-        Py_DECREF(adv_info);
-
-        if (sol_y)
-        {
-            Py_DECREF(sol_y);
-        }
-        Py_DECREF(sol_z);
-        Py_DECREF(sol_s);
-
         break;
     default:
         result = Py_BuildValue("{s:O}",
@@ -429,21 +478,20 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         break;
     }
 
-    Py_DECREF(sol_x);
-
-    Py_DECREF(Ptemp);
-    Py_DECREF(ctemp);
-    Py_DECREF(Gtemp);
-    Py_DECREF(htemp);
-    if (Atemp)
-    {
-        Py_DECREF(Atemp);
-    }
-
-    if (btemp)
-    {
-        Py_DECREF(btemp);
-    }
+cleanup:
+    Py_XDECREF(basic_info);
+    Py_XDECREF(adv_info);
+    Py_XDECREF(sol_x);
+    Py_XDECREF(sol_y);
+    Py_XDECREF(sol_z);
+    Py_XDECREF(sol_s);
+
+    Py_XDECREF(Ptemp);
+    Py_XDECREF(ctemp);
+    Py_XDECREF(Gtemp);
+    Py_XDECREF(htemp);
+    Py_XDECREF(Atemp);
+    Py_XDECREF(btemp);
 
     QP_CLEANUP_dense(myQP);
 
-- 
2.43.0


From 9c8d7612f80ef988bda20a875d7ee9ffe014b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 11/19] fix: the Simulink blocks reported an optimal solution
 when the setup failed

---
 simulink/qpSWIFT_sfunc.c   | 3 +--
 simulink/qpSWIFT_sfunc_e.c | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/simulink/qpSWIFT_sfunc.c b/simulink/qpSWIFT_sfunc.c
index 9fbb4a5..6809a9b 100644
--- a/simulink/qpSWIFT_sfunc.c
+++ b/simulink/qpSWIFT_sfunc.c
@@ -169,11 +169,10 @@ static void mdlOutputs(SimStruct *S, int_T tid)
         {
             out_x[idx] = (real_T)(0.0);
         }
-        out_exitflag[0] = (real_T)(0.0);
+        out_exitflag[0] = (real_T)(QP_FATAL);
         out_iter[0] = (real_T)(0.0);
         out_tsetup[0] = (real_T)(0.0);
         out_tsolve[0] = (real_T)(0.0);
-        QP_CLEANUP_dense(myQP);
     }
 
 }
diff --git a/simulink/qpSWIFT_sfunc_e.c b/simulink/qpSWIFT_sfunc_e.c
index 9b301c8..73363aa 100644
--- a/simulink/qpSWIFT_sfunc_e.c
+++ b/simulink/qpSWIFT_sfunc_e.c
@@ -169,11 +169,10 @@ static void mdlOutputs(SimStruct *S, int_T tid)
         {
             out_x[idx] = (real_T)(0.0);
         }
-        out_exitflag[0] = (real_T)(0.0);
+        out_exitflag[0] = (real_T)(QP_FATAL);
         out_iter[0] = (real_T)(0.0);
         out_tsetup[0] = (real_T)(0.0);
         out_tsolve[0] = (real_T)(0.0);
-        QP_CLEANUP_dense(myQP);
     }
 
 }
-- 
2.43.0


From 42f66b0f697b3705200a9895a8ceb2cc2cdfe5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 12/19] fix: LDL time omitted the factorisations of the
 centering steps

---
 src/Auxilary.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index 7f165df..9a1569f 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -525,7 +525,10 @@ void kktsolve_2(QP *myQP)
 
 	if(myQP->stats->resolve_kkt)
 	{
+		qp_timer t;
+		tic(&t);
 		qp_int d = LDL_numeric(n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->Lp, myQP->kkt->Parent, myQP->kkt->Lnz, myQP->kkt->Li, myQP->kkt->Lx, myQP->kkt->D, myQP->kkt->Y, myQP->kkt->Pattern, myQP->kkt->Flag, myQP->kkt->P, myQP->kkt->Pinv);
+		myQP->stats->ldl_numeric += toc(&t);
 	}
     
 	LDL_perm(n, myQP->delta, myQP->kkt->b, myQP->kkt->P);
-- 
2.43.0


From 96c80d0926f4d0e2f62fa7435cd2340f097a9730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 13/19] fix: an empty option value crashed the MATLAB gateway

---
 matlab/qpSWIFT_mex.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index eeebc68..94d7f28 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -348,6 +348,18 @@ void mexFunction(int nlhs, mxArray *plhs[],
         sttgs_permut = sttgs ? mxGetField(sttgs, 0, "permut") : 0;
     }
 
+    /* An empty option has no value to read : use the default */
+    if (sttgs_maxiter && mxIsEmpty(sttgs_maxiter))
+        sttgs_maxiter = NULL;
+    if (sttgs_abstol && mxIsEmpty(sttgs_abstol))
+        sttgs_abstol = NULL;
+    if (sttgs_reltol && mxIsEmpty(sttgs_reltol))
+        sttgs_reltol = NULL;
+    if (sttgs_verbose && mxIsEmpty(sttgs_verbose))
+        sttgs_verbose = NULL;
+    if (sttgs_sigma && mxIsEmpty(sttgs_sigma))
+        sttgs_sigma = NULL;
+
     if (sttgs_permut)
     {
 
-- 
2.43.0


From e3770bdd891f38b118aea0b5411849546cb6061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:34 +0000
Subject: [PATCH 14/19] fix: a failed allocation while an option was read made
 the Python module ignore the option

---
 python/pyqpSWIFT.c | 55 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 5455b43..6806f24 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -38,6 +38,25 @@ qp_real *getptr(PyArrayObject *ar)
     return new_owner;
 }
 
+/* Value of an option as a borrowed reference; NULL without an exception if it is not given.
+   PyDict_GetItemString would also report a failed allocation as an option that is not given. */
+static PyObject *getoption(PyObject *opts, const char *name)
+{
+#if PY_MAJOR_VERSION >= 3
+    PyObject *key, *value;
+    key = PyUnicode_FromString(name);
+    if (!key)
+    {
+        return NULL;
+    }
+    value = PyDict_GetItemWithError(opts, key);
+    Py_DECREF(key);
+    return value;
+#else
+    return PyDict_GetItemString(opts, name);
+#endif
+}
+
 static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs)
 {
     PyArrayObject *c, *h, *b = NULL;
@@ -184,7 +203,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
 
     if (opts)
     {
-        opts_maxiter = PyDict_GetItemString(opts, "MAXITER");
+        opts_maxiter = getoption(opts, "MAXITER");
+        if (!opts_maxiter && PyErr_Occurred())
+        {
+            return NULL;
+        }
 
         if (opts_maxiter)
         {
@@ -199,7 +222,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
         }
 
-        opts_abstol = PyDict_GetItemString(opts, "ABSTOL");
+        opts_abstol = getoption(opts, "ABSTOL");
+        if (!opts_abstol && PyErr_Occurred())
+        {
+            return NULL;
+        }
 
         if (opts_abstol)
         {
@@ -214,7 +241,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
         }
 
-        opts_reltol = PyDict_GetItemString(opts, "RELTOL");
+        opts_reltol = getoption(opts, "RELTOL");
+        if (!opts_reltol && PyErr_Occurred())
+        {
+            return NULL;
+        }
 
         if (opts_reltol)
         {
@@ -229,7 +260,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
         }
 
-        opts_sigma = PyDict_GetItemString(opts, "SIGMA");
+        opts_sigma = getoption(opts, "SIGMA");
+        if (!opts_sigma && PyErr_Occurred())
+        {
+            return NULL;
+        }
 
         if (opts_sigma)
         {
@@ -244,7 +279,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
         }
 
-        opts_verbose = PyDict_GetItemString(opts, "VERBOSE");
+        opts_verbose = getoption(opts, "VERBOSE");
+        if (!opts_verbose && PyErr_Occurred())
+        {
+            return NULL;
+        }
 
         if (opts_verbose)
         {
@@ -260,7 +299,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
         }
 
-        opts_output = PyDict_GetItemString(opts, "OUTPUT");
+        opts_output = getoption(opts, "OUTPUT");
+        if (!opts_output && PyErr_Occurred())
+        {
+            return NULL;
+        }
 
         if (opts_output)
         {
-- 
2.43.0


From 94673914e0d8507a5abfd3ab63424f96cc354ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 15/19] fix: an argument resized while the Python module read
 the options crashed the interpreter

---
 python/pyqpSWIFT.c | 118 ++++++++++++++++++++++++---------------------
 1 file changed, 63 insertions(+), 55 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 6806f24..9e5d212 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -190,6 +190,57 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     }
     /*---- P Matrix ------*/
 
+    /*** Get Data Pointers ***/
+    ctemp = getptr(c);
+    if (!ctemp)
+    {
+        goto cleanup;
+    }
+    cpr = (qp_real *)PyArray_DATA(ctemp);
+
+    htemp = getptr(h);
+    if (!htemp)
+    {
+        goto cleanup;
+    }
+    hpr = (qp_real *)PyArray_DATA(htemp);
+    if (b && A)
+    {
+        btemp = getptr(b);
+        if (!btemp)
+        {
+            goto cleanup;
+        }
+        bpr = (qp_real *)PyArray_DATA(btemp);
+        Atemp = getptr(A);
+        if (!Atemp)
+        {
+            goto cleanup;
+        }
+        Apr = (qp_real *)PyArray_DATA(Atemp);
+    }
+    Ptemp = getptr(P);
+    if (!Ptemp)
+    {
+        goto cleanup;
+    }
+    Ppr = (qp_real *)PyArray_DATA(Ptemp);
+    Gtemp = getptr(G);
+    if (!Gtemp)
+    {
+        goto cleanup;
+    }
+    Gpr = (qp_real *)PyArray_DATA(Gtemp);
+
+    /* Python code may run, and numpy may release the interpreter lock, while the arguments are copied */
+    if (PyArray_SIZE(ctemp) != n || PyArray_SIZE(htemp) != m || PyArray_SIZE(Ptemp) != n * n || PyArray_SIZE(Gtemp) != m * n ||
+        (btemp && (PyArray_SIZE(btemp) != p || PyArray_SIZE(Atemp) != p * n)))
+    {
+        PyErr_SetString(PyExc_TypeError, "an argument was resized during the call");
+        goto cleanup;
+    }
+    /*** Get Data Pointers ***/
+
     /*----- options ------*/
 
     /*---Initialize default options ----*/
@@ -206,7 +257,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         opts_maxiter = getoption(opts, "MAXITER");
         if (!opts_maxiter && PyErr_Occurred())
         {
-            return NULL;
+            goto cleanup;
         }
 
         if (opts_maxiter)
@@ -218,14 +269,14 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "max iterations must be between 0 and 200, using the default value of 100");
-                return NULL;
+                goto cleanup;
             }
         }
 
         opts_abstol = getoption(opts, "ABSTOL");
         if (!opts_abstol && PyErr_Occurred())
         {
-            return NULL;
+            goto cleanup;
         }
 
         if (opts_abstol)
@@ -237,14 +288,14 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "absolute tolerance must be between 0 and 1, using the default value");
-                return NULL;
+                goto cleanup;
             }
         }
 
         opts_reltol = getoption(opts, "RELTOL");
         if (!opts_reltol && PyErr_Occurred())
         {
-            return NULL;
+            goto cleanup;
         }
 
         if (opts_reltol)
@@ -256,14 +307,14 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "realtive tolerance must be between 0 and 1, using the default value");
-                return NULL;
+                goto cleanup;
             }
         }
 
         opts_sigma = getoption(opts, "SIGMA");
         if (!opts_sigma && PyErr_Occurred())
         {
-            return NULL;
+            goto cleanup;
         }
 
         if (opts_sigma)
@@ -275,14 +326,14 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "sigma must be positive, using the default value");
-                return NULL;
+                goto cleanup;
             }
         }
 
         opts_verbose = getoption(opts, "VERBOSE");
         if (!opts_verbose && PyErr_Occurred())
         {
-            return NULL;
+            goto cleanup;
         }
 
         if (opts_verbose)
@@ -295,14 +346,14 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             {
                 //  PyErr_WarnEx(PyExc_UserWarning, "verbose must be non-negative, using the default value", 1);
                 PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
-                return NULL;
+                goto cleanup;
             }
         }
 
         opts_output = getoption(opts, "OUTPUT");
         if (!opts_output && PyErr_Occurred())
         {
-            return NULL;
+            goto cleanup;
         }
 
         if (opts_output)
@@ -317,7 +368,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
                 PyErr_Clear();
                 if (PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1) < 0)
                 {
-                    return NULL;
+                    goto cleanup;
                 }
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
@@ -329,49 +380,6 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
 
     /*Check Input Data here*/
 
-    /*** Get Data Pointers ***/
-    ctemp = getptr(c);
-    if (!ctemp)
-    {
-        goto cleanup;
-    }
-    cpr = (qp_real *)PyArray_DATA(ctemp);
-
-    htemp = getptr(h);
-    if (!htemp)
-    {
-        goto cleanup;
-    }
-    hpr = (qp_real *)PyArray_DATA(htemp);
-    if (b && A)
-    {
-        btemp = getptr(b);
-        if (!btemp)
-        {
-            goto cleanup;
-        }
-        bpr = (qp_real *)PyArray_DATA(btemp);
-        Atemp = getptr(A);
-        if (!Atemp)
-        {
-            goto cleanup;
-        }
-        Apr = (qp_real *)PyArray_DATA(Atemp);
-    }
-    Ptemp = getptr(P);
-    if (!Ptemp)
-    {
-        goto cleanup;
-    }
-    Ppr = (qp_real *)PyArray_DATA(Ptemp);
-    Gtemp = getptr(G);
-    if (!Gtemp)
-    {
-        goto cleanup;
-    }
-    Gpr = (qp_real *)PyArray_DATA(Gtemp);
-    /*** Get Data Pointers ***/
-
     myQP = QP_SETUP_dense(n, m, p, Ppr, Apr, Gpr, cpr, hpr, bpr, NULL, ROW_MAJOR_ORDERING);
     if (!myQP)
     {
-- 
2.43.0


From b638f2e8a5a751205a634074ff32094e57b0e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 16/19] fix: a problem without inequality constraints passed to
 the Python module read beyond an array

---
 src/Auxilary.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index 9a1569f..c4bb385 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -987,6 +987,14 @@ qp_int SparseMatrixTranspose(smat *A, smat *At)
 void findminmax(qp_real *z, long n, qp_real *min, qp_real *max)
 {
 
+	/* A vector without elements (a problem without inequality constraints) */
+	if (n < 1)
+	{
+		min[0] = 0.0;
+		max[0] = 0.0;
+		return;
+	}
+
 	min[0] = z[0];
 	max[0] = z[0];
 	qp_int i;
-- 
2.43.0


From 2b442c7bd7eada81971e7a8a3c01281aa1b9d006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 17/19] fix: options of the MATLAB gateway that are not of type
 double were misread

---
 matlab/qpSWIFT_mex.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index 94d7f28..6815259 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -99,6 +99,15 @@ char helpstr[] = {
 "      -> s          : Primal Slack Variables \n"
 };
 
+/* Value of an option; mxGetPr does not point to a double if the option is logical, single or an integer */
+static double optionvalue(const mxArray *opt)
+{
+    if (!mxIsNumeric(opt) && !mxIsLogical(opt))
+        mexErrMsgTxt("Options should be numeric");
+
+    return mxGetScalar(opt);
+}
+
 void mexFunction(int nlhs, mxArray *plhs[],
                  int nrhs, const mxArray *prhs[])
 {
@@ -453,43 +462,43 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (sttgs_maxiter)
     {
 
-        if (*mxGetPr(sttgs_maxiter) < 0 || *mxGetPr(sttgs_maxiter) > 200)
+        if (optionvalue(sttgs_maxiter) < 0 || optionvalue(sttgs_maxiter) > 200)
             mexErrMsgTxt("Iteration Number must be within 0 and 200");
 
-        myQP->options->maxit = (qp_int)(*mxGetPr(sttgs_maxiter));
+        myQP->options->maxit = (qp_int)(optionvalue(sttgs_maxiter));
     }
 
     if (sttgs_abstol)
     {
 
-        if (*mxGetPr(sttgs_abstol) < 0 || *mxGetPr(sttgs_abstol) > 1)
+        if (optionvalue(sttgs_abstol) < 0 || optionvalue(sttgs_abstol) > 1)
             mexErrMsgTxt("Absolute Tolerance must be within 0 and 1");
 
-        myQP->options->abstol = (qp_real)(*mxGetPr(sttgs_abstol));
+        myQP->options->abstol = (qp_real)(optionvalue(sttgs_abstol));
     }
     if (sttgs_reltol)
     {
 
-        if (*mxGetPr(sttgs_reltol) < 0 || *mxGetPr(sttgs_reltol) > 1)
+        if (optionvalue(sttgs_reltol) < 0 || optionvalue(sttgs_reltol) > 1)
             mexErrMsgTxt("Relative Tolerance must be within 0 and 1");
 
-        myQP->options->reltol = (qp_real)(*mxGetPr(sttgs_reltol));
+        myQP->options->reltol = (qp_real)(optionvalue(sttgs_reltol));
     }
 
     if (sttgs_sigma)
     {
-        myQP->options->sigma = (qp_real)(*mxGetPr(sttgs_sigma));
-        if (*mxGetPr(sttgs_sigma) < 0)
+        myQP->options->sigma = (qp_real)(optionvalue(sttgs_sigma));
+        if (optionvalue(sttgs_sigma) < 0)
             mexErrMsgTxt("Sigma must be positive");
     }
 
     if (sttgs_verbose)
     {
 
-        if (*mxGetPr(sttgs_verbose) < 0)
+        if (optionvalue(sttgs_verbose) < 0)
             mexErrMsgTxt("Verbose must be positive");
 
-        myQP->options->verbose = (qp_real)(*mxGetPr(sttgs_verbose));
+        myQP->options->verbose = (qp_real)(optionvalue(sttgs_verbose));
     }
 
     if (myQP->options->verbose > 0)
-- 
2.43.0


From e16f411bc7423241e5b8813dce82430071a27b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 18/19] fix: Simulink blocks require contiguous input signals
 before reading them as arrays

The block steps read each input through its first signal pointer as if the
elements were adjacent; without requiring contiguous signals they read
unrelated memory when a port is driven by scattered signals.
---
 simulink/qpSWIFT_sfunc.c   | 19 +++++++++++++------
 simulink/qpSWIFT_sfunc_e.c | 25 +++++++++++++++++--------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/simulink/qpSWIFT_sfunc.c b/simulink/qpSWIFT_sfunc.c
index 6809a9b..e7a3349 100644
--- a/simulink/qpSWIFT_sfunc.c
+++ b/simulink/qpSWIFT_sfunc.c
@@ -54,6 +54,13 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetOutputPortVectorDimension(S, 3, 1);  /* tsetup */
     ssSetOutputPortVectorDimension(S, 4, 1);  /* tsolve */
 
+    /* The solver reads the signals as arrays */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+
     /* Specify the direct feedthrough status */
 
     ssSetInputPortDirectFeedThrough(S, 0, 1);
@@ -111,12 +118,12 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_G, in_h, in_sigma_d;
+    qp_real *in_P, *in_c, *in_G, *in_h;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_G = ssGetInputPortRealSignalPtrs(S, 2);
-    in_h = ssGetInputPortRealSignalPtrs(S, 3);
+    in_P = (qp_real *)ssGetInputPortRealSignal(S, 0);
+    in_c = (qp_real *)ssGetInputPortRealSignal(S, 1);
+    in_G = (qp_real *)ssGetInputPortRealSignal(S, 2);
+    in_h = (qp_real *)ssGetInputPortRealSignal(S, 3);
 
  
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +144,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     
     
     
-    myQP = QP_SETUP_dense(n, m, 0, *in_P , NULL, *in_G, *in_c, *in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, 0, in_P, NULL, in_G, in_c, in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
       
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
diff --git a/simulink/qpSWIFT_sfunc_e.c b/simulink/qpSWIFT_sfunc_e.c
index 73363aa..da97ad8 100644
--- a/simulink/qpSWIFT_sfunc_e.c
+++ b/simulink/qpSWIFT_sfunc_e.c
@@ -55,6 +55,15 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetOutputPortVectorDimension(S, 3, 1);  /* tsetup */
     ssSetOutputPortVectorDimension(S, 4, 1);  /* tsolve */
 
+    /* The solver reads the signals as arrays */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+    ssSetInputPortRequiredContiguous(S, 4, 1);
+    ssSetInputPortRequiredContiguous(S, 5, 1);
+
     /* Specify the direct feedthrough status */
 
     ssSetInputPortDirectFeedThrough(S, 0, 1);
@@ -115,14 +124,14 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_A, in_b, in_G, in_h;
+    qp_real *in_P, *in_c, *in_A, *in_b, *in_G, *in_h;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_A = ssGetInputPortRealSignalPtrs(S, 2);
-    in_b = ssGetInputPortRealSignalPtrs(S, 3);
-    in_G = ssGetInputPortRealSignalPtrs(S, 4);
-    in_h = ssGetInputPortRealSignalPtrs(S, 5);
+    in_P = (qp_real *)ssGetInputPortRealSignal(S, 0);
+    in_c = (qp_real *)ssGetInputPortRealSignal(S, 1);
+    in_A = (qp_real *)ssGetInputPortRealSignal(S, 2);
+    in_b = (qp_real *)ssGetInputPortRealSignal(S, 3);
+    in_G = (qp_real *)ssGetInputPortRealSignal(S, 4);
+    in_h = (qp_real *)ssGetInputPortRealSignal(S, 5);
 
    
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +146,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     m = (qp_int)size_h;
 
 
-    myQP = QP_SETUP_dense(n, m, p, *in_P , *in_A, *in_G, *in_c, *in_h, *in_b, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, p, in_P, in_A, in_G, in_c, in_h, in_b, NULL, COLUMN_MAJOR_ORDERING);
     
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
-- 
2.43.0


From 5a48a67ac82df39b5eca3f9398b4432b399addeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:45 +0000
Subject: [PATCH 19/19] fix: MATLAB gateway rejects options that are not a
 number and permutations that are not whole

NaN passed every range check of the options (no comparison with NaN holds)
and reached the solver; entries of PERMUT such as 1.5 were rounded to an
index and accepted.
---
 matlab/qpSWIFT_mex.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index 6815259..6fb38b7 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -432,6 +432,10 @@ void mexFunction(int nlhs, mxArray *plhs[],
         // Change Matlab Indexing to C-based Indexing
         for (qp_int i = 0; i < n + m + p; i++)
         {
+            // A value that is not one of 1, 2, ... (fraction, NaN) must not be rounded to one
+            if (!(pr[i] >= 1 && pr[i] <= n + m + p && pr[i] == (double)(qp_int)pr[i]))
+                mexErrMsgTxt("Not a Valid Permutation Vector");
+
             Permutpr[i] = pr[i] - 1;
         }
 
@@ -462,7 +466,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (sttgs_maxiter)
     {
 
-        if (optionvalue(sttgs_maxiter) < 0 || optionvalue(sttgs_maxiter) > 200)
+        if (!(optionvalue(sttgs_maxiter) >= 0 && optionvalue(sttgs_maxiter) <= 200))
             mexErrMsgTxt("Iteration Number must be within 0 and 200");
 
         myQP->options->maxit = (qp_int)(optionvalue(sttgs_maxiter));
@@ -471,7 +475,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (sttgs_abstol)
     {
 
-        if (optionvalue(sttgs_abstol) < 0 || optionvalue(sttgs_abstol) > 1)
+        if (!(optionvalue(sttgs_abstol) >= 0 && optionvalue(sttgs_abstol) <= 1))
             mexErrMsgTxt("Absolute Tolerance must be within 0 and 1");
 
         myQP->options->abstol = (qp_real)(optionvalue(sttgs_abstol));
@@ -479,7 +483,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (sttgs_reltol)
     {
 
-        if (optionvalue(sttgs_reltol) < 0 || optionvalue(sttgs_reltol) > 1)
+        if (!(optionvalue(sttgs_reltol) >= 0 && optionvalue(sttgs_reltol) <= 1))
             mexErrMsgTxt("Relative Tolerance must be within 0 and 1");
 
         myQP->options->reltol = (qp_real)(optionvalue(sttgs_reltol));
@@ -488,14 +492,14 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (sttgs_sigma)
     {
         myQP->options->sigma = (qp_real)(optionvalue(sttgs_sigma));
-        if (optionvalue(sttgs_sigma) < 0)
+        if (!(optionvalue(sttgs_sigma) >= 0))
             mexErrMsgTxt("Sigma must be positive");
     }
 
     if (sttgs_verbose)
     {
 
-        if (optionvalue(sttgs_verbose) < 0)
+        if (!(optionvalue(sttgs_verbose) >= 0))
             mexErrMsgTxt("Verbose must be positive");
 
         myQP->options->verbose = (qp_real)(optionvalue(sttgs_verbose));
-- 
2.43.0

