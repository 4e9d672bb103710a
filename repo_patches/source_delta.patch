From 274ffa123bdb3e488275ff5ee307be82af6af526 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:20:14 +0000
Subject: [PATCH 01/40] fix: forget the initial duals when the starting point
 is reset

resetStartingPoint() cleared the vector holding the initial point but kept
duals_init_ pointing into it, so a later request for the dual starting point
hit an assertion or read stale memory.
---
 src/Interfaces/BonTMINLP2TNLP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index e5ee820..7bb9e2a 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -281,6 +281,7 @@ namespace Bonmin
   {
     curr_warm_starter_ = NULL;
     x_init_.clear();
+    duals_init_ = NULL;
   }
 
   void TMINLP2TNLP::setxInit(Index n,const Number* x_init)
-- 
2.43.0


From fcf6793af6a2286610d09bcfd216767dead0013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:15 +0000
Subject: [PATCH 02/40] fix: test one-sided rows against the interface's
 infinity when linearising

A row whose missing side is given as e.g. -1e30 was taken for a two-sided one,
and with a zero multiplier its outer-approximation cut was made vacuous.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 7271c30..d6a9b02 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1965,7 +1965,7 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
         ub[numCuts] = rowUpper[rowIdx] - g[rowIdx];
       else
         ub[numCuts] = infty;
-      if(rowLower[rowIdx] > -infty && rowUpper[rowIdx] < infty)
+      if(rowLower[rowIdx] > -infty_ && rowUpper[rowIdx] < infty_)
       {
         if(duals[rowIdx] >= 0)// <= inequality
           lb[numCuts] = - infty;
@@ -2235,7 +2235,7 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
     ub = rowUpper - g;
   else
     ub = infty;
-  if(rowLower > -infty && rowUpper < infty)
+  if(rowLower > -infty_ && rowUpper < infty_)
   {
     if(dual >= 0)// <= inequality
       lb = - infty;
-- 
2.43.0


From 9d8739e6360d01efdeb40bee200acfb93019a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:08 +0000
Subject: [PATCH 03/40] fix: keep row bounds aligned when non-binding rows
 leave the linear relaxation

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index d6a9b02..e49944d 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2492,6 +2492,19 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
   
   //remove non-bindings equality constraints
   mat.deleteRows(numNonBindings, nonBindings());
+  if(numNonBindings){//bounds have to follow the rows which are left
+    int numKept = 0;
+    for(int i = 0, k = 0 ; i < m ; i++){
+      if(k < numNonBindings && nonBindings[k] == i){
+        k++;
+        continue;
+      }
+      rowLow[numKept] = rowLow[i];
+      rowUp[numKept++] = rowUp[i];
+    }
+    rowLow.resize(numKept);
+    rowUp.resize(numKept);
+  }
 
   int numcols=getNumCols();
   vector<double> obj(numcols);
-- 
2.43.0


From 1cea21c7f8797e451d5ff482de311a351f58e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:27 +0000
Subject: [PATCH 04/40] fix: remove cleaned coefficients from the linear
 relaxation

Their contribution was moved to the row bounds but they stayed in the row, so
that the row could cut off feasible points.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index e49944d..1837bf7 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2478,6 +2478,8 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
           if(rowUp[jRow_[i]] < infty)
           rowUp[jRow_[i]] += jValues_[i] *x[jCol_[i]];
        }
+       else //the bounds account for the removal
+          jValues_[i] = 0.;
     }
     else {
       //double value = jValues_[i] * x[jCol_[i]];
-- 
2.43.0


From ea25940b12c1fdb711ebee751b8905a049eaf89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:47 +0000
Subject: [PATCH 05/40] fix: keep the constraints' part of the right-hand side
 of Benders cuts

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 1837bf7..e657d5b 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2176,7 +2176,7 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     double f;
     problem_to_optimize_->eval_f(n, x, 1, f);
 
-    ub = -f;
+    ub -= f;
     //double minCoeff = 1e50;
     for(int i = 0; i<n ; i++) {
       if(cleanNnz(obj[i],colLower[i], colUpper[i], -getInfinity(), 0,
-- 
2.43.0


From 1ae58f0bf078d6e73988a2929216e444fef5cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:13 +0000
Subject: [PATCH 06/40] fix: clean the coefficients of Benders cuts as those of
 a <= inequality

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index e657d5b..159f732 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2161,7 +2161,7 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     const double & lam = duals[rowIdx];
     double coeff = lam*jValues_[i];
     if(cleanNnz(coeff,colLower[colIdx], colUpper[colIdx],
-      	  rowLower[rowIdx], rowUpper[rowIdx], x[colIdx], lb,
+      	  -getInfinity(), 0, x[colIdx], lb,
       	  ub, tiny_, veryTiny_, infty_)) {
       cut[colIdx] += coeff;
       ub += coeff * x[colIdx];
-- 
2.43.0


From d91500c2ce9706646ee003472b8f874b60822eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:10 +0000
Subject: [PATCH 07/40] fix: index the outer approximation of a single
 constraint from zero

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 159f732..cdb207d 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2214,6 +2214,13 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
   int nnz;
   problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, values);
   problem_->eval_gi(getNumCols(),x,1, rowIdx, g);
+  {
+    int n,m, nnz_jac_g, nnz_h_lag;
+    TNLP::IndexStyleEnum index_style;
+    problem_->get_nlp_info(n, m, nnz_jac_g, nnz_h_lag, index_style);
+    if(index_style == TNLP::FORTRAN_STYLE)
+      for(int i = 0 ; i < nnz ; i++) indices[i]--;
+  }
 
   CoinPackedVector cut;
   double lb;
-- 
2.43.0


From 6267b3efa2c5c39d959fafd010ca5161d2b72c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:29 +0000
Subject: [PATCH 08/40] fix: use the user's objective in the cutoff row of the
 feasibility problem

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 913f8e6..0d8fb93 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -206,7 +206,7 @@ namespace Bonmin
       ret_code = tnlp_->eval_g(n, x, new_x, m-2, g);
       // compute the value of the cutoff constraint
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-2] = obj_value;
       else
 	ret_code = false;
@@ -223,7 +223,7 @@ namespace Bonmin
     else if(use_cutoff_constraint_) {
       ret_code = tnlp_->eval_g(n, x, new_x, m-1, g);
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-1] = obj_value;
       else
 	ret_code = false;
@@ -279,7 +279,7 @@ namespace Bonmin
       else if (!iRow & !jCol && values) { //computation phase
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n - n_integers;
 	  values += k;
@@ -320,7 +320,7 @@ namespace Bonmin
       }
       else if (!iRow & !jCol && values) { //computation phase
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n;
 	  values += k;
-- 
2.43.0


From c872634f239c938719e2442920e0c65aaab60825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:29 +0000
Subject: [PATCH 09/40] fix: keep both extra rows inside the Jacobian of the
 feasibility problem

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 0d8fb93..56e8c50 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -254,7 +254,7 @@ namespace Bonmin
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 2, nele_jac - n - n_integers, 
 				   iRow, jCol, values);
 
       if (iRow && jCol && !values) { //Initialization phase 
@@ -268,9 +268,8 @@ namespace Bonmin
 	  jCol[i] = i + index_correction;
 	}
 	// compute the jacobian contribution of the local branching constraint
-	k = nele_jac - n_integers;
-	iRow += k;
-	jCol += k;
+	iRow += n;
+	jCol += n;
 	for(int i = 0; i< n_integers; i++) {
 	  iRow[i] = m - 1 + index_correction;
 	  jCol[i] = inds_[i] + index_correction;
@@ -280,9 +279,8 @@ namespace Bonmin
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
 	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
+	values += nele_jac - n - n_integers;
 	if(ret_code_grad_f) {
-	  int k = nele_jac - n - n_integers;
-	  values += k;
 	  for(int i = 0; i< n; i++) {
 	    values[i] = grad_f[i];
 	  }
@@ -291,8 +289,7 @@ namespace Bonmin
 	  ret_code = false;
 	delete [] grad_f;
 	// compute the jacobian contribution of the local branching constraint
-	int k = nele_jac - n_integers;
-	values += k;
+	values += n;
 	for(int i = 0; i< n_integers; i++) {
 	  if(vals_[i] <= 0.1)
 	    values[i] = 1.0;
@@ -305,7 +302,7 @@ namespace Bonmin
       }
     }
     else if(use_cutoff_constraint_) {
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -338,7 +335,7 @@ namespace Bonmin
     }
     else if(use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n_integers, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
-- 
2.43.0


From 9b29c7bde990e9102c8b190720f9bd98108dbc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:29 +0000
Subject: [PATCH 10/40] fix: scale the Hessian of the objective only when the
 feasibility pump objective is used

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 56e8c50..bfafafa 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -377,27 +377,29 @@ namespace Bonmin
   {
     bool ret_code;
 
-    int  nnz_obj_h = (norm_ == 2) ? (int)inds_.size() : 0;
+    int  nnz_obj_h = (use_feasibility_pump_objective_ && norm_ == 2) ? (int)inds_.size() : 0;
+    // weight of the original objective in the one which is used
+    double coef_f = use_feasibility_pump_objective_ ? (1-lambda_)*sigma_ : 1.;
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 2];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*coef_f + coef_obj, 
 			       m - 2, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_cutoff_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 1];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*coef_f + coef_obj, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_local_branching_constraint_) {
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*coef_f, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else { // this is the original feasibility pump implementation
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*coef_f, 
 			       m, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
-- 
2.43.0


From 745822a3fae5c59fb54530f17fb82eb98c77707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:29 +0000
Subject: [PATCH 11/40] fix: report the linearity of the extra rows in the
 order of their values

---
 src/Interfaces/BonTNLP2FPNLP.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.hpp b/src/Interfaces/BonTNLP2FPNLP.hpp
index 991d989..29a813a 100644
--- a/src/Interfaces/BonTNLP2FPNLP.hpp
+++ b/src/Interfaces/BonTNLP2FPNLP.hpp
@@ -166,14 +166,14 @@ namespace Bonmin
     virtual bool get_constraints_linearity(Ipopt::Index m, LinearityType* const_types)
     {
       int m2 = m;
-      if(use_cutoff_constraint_) {
-        m2--;
-        const_types[m2] = Ipopt::TNLP::NON_LINEAR;
-      } 
       if(use_local_branching_constraint_) {
         m2--;
         const_types[m2] = Ipopt::TNLP::LINEAR;
       }
+      if(use_cutoff_constraint_) {
+        m2--;
+        const_types[m2] = Ipopt::TNLP::NON_LINEAR;
+      } 
       return tnlp_->get_constraints_linearity(m2, const_types);
     }
     /** @name Scaling of the objective function */
-- 
2.43.0


From 2e9429177a8eb7f2d7e515842be6ffc58c6e7174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:45 +0000
Subject: [PATCH 12/40] fix: keep the constant term of quadratic cuts in the
 rows made from them

---
 src/Algorithms/QuadCuts/BonQuadRow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonQuadRow.cpp b/src/Algorithms/QuadCuts/BonQuadRow.cpp
index c473701..efe95a6 100644
--- a/src/Algorithms/QuadCuts/BonQuadRow.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadRow.cpp
@@ -52,7 +52,7 @@ QuadRow & QuadRow::operator=(const QuadRow &rhs){
 }
 
 QuadRow::QuadRow(const QuadCut &cut):
-  c_(0),
+  c_(cut.c()),
   a_(cut.row()),
   Q_(cut.Q(), cut.type())
   {
-- 
2.43.0


From bf74d995e43aa778dfb316baefed9d1aa54bf094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:45 +0000
Subject: [PATCH 13/40] fix: convert quadratic forms stored in full to upper
 triangular ones

---
 src/Algorithms/QuadCuts/BonTMatrix.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMatrix.cpp b/src/Algorithms/QuadCuts/BonTMatrix.cpp
index 12ab75b..56689b4 100644
--- a/src/Algorithms/QuadCuts/BonTMatrix.cpp
+++ b/src/Algorithms/QuadCuts/BonTMatrix.cpp
@@ -137,6 +137,7 @@ TMat::numNonEmptyCols(){
 /** Remove the duplicated entries.*/
 void 
 TMat::removeDuplicates(){
+  if(nnz_ == 0) return;
   orderByRows();
   int j = 0;
   for(int i = 1; i < nnz_ ; i++){
@@ -150,10 +151,23 @@ TMat::removeDuplicates(){
       value_[rowOrdering_[j]] = value_[rowOrdering_[i]];
     }
   }
-  resizeAndCopyArray(jCol_, j, capacity_);
-  resizeAndCopyArray(iRow_, j, capacity_);
-  resizeAndCopyArray(value_, j, capacity_);
-  nnz_ = j;
+  // The j+1 remaining entries are the first ones in the row ordering, put them
+  // at the beginning of the arrays
+  nnz_ = j + 1;
+  int * iRow = new int[capacity_];
+  int * jCol = new int[capacity_];
+  double * value = new double[capacity_];
+  for(int i = 0 ; i < nnz_ ; i++){
+    iRow[i] = iRow_[rowOrdering_[i]];
+    jCol[i] = jCol_[rowOrdering_[i]];
+    value[i] = value_[rowOrdering_[i]];
+  }
+  freeSpace();
+  iRow_ = iRow;
+  jCol_ = jCol;
+  value_ = value;
+  rowOrdering_.clear();
+  columnOrdering_.clear();
 }
 
 void
@@ -192,8 +206,8 @@ TMat::make_lower_to_be_upper(){
 void
 TMat::make_full_upper_triangular(){
   // Make it upper triangular
-  for(int i = 0 , j = 0; i < nnz_ && j < nnz_ ;){
-    if(iRow_[i] < jCol_[i]){//swap the two entries
+  for(int i = 0 ; i < nnz_ ; i++){
+    if(iRow_[i] > jCol_[i]){//swap the two entries
       int buf = iRow_[i];
       iRow_[i] = jCol_[i];
       jCol_[i] = buf;
-- 
2.43.0


From 4d7544e84972e5dc04288d639205525f75777826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:45 +0000
Subject: [PATCH 14/40] fix: count entries of quadratic cuts stored in full
 once in their violation

---
 src/Algorithms/QuadCuts/BonQuadCut.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonQuadCut.cpp b/src/Algorithms/QuadCuts/BonQuadCut.cpp
index c723953..c3f0d1f 100644
--- a/src/Algorithms/QuadCuts/BonQuadCut.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadCut.cpp
@@ -59,7 +59,7 @@ namespace Bonmin {
     	int s=start[i];
 	int l=length[i];
       for(int k = s ; k < s+l ; k++){
-        if(i == indice[k]) rhs += solution[i] * solution[indice[k]] * val[k];
+        if(i == indice[k] || type_ == Full) rhs += solution[i] * solution[indice[k]] * val[k];
         else rhs += 2*solution[i] * solution[indice[k]] * val[k];
       }
     }
-- 
2.43.0


From 36f4385dc9db9fb60c1971f46f08a46e659b3c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:45 +0000
Subject: [PATCH 15/40] fix: endless recursion in the scaling parameters of
 problems with quadratic cuts

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 62e71ff..fba69ae 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -152,7 +152,7 @@ namespace Bonmin {
                                         bool& use_g_scaling, Index m,
                                         Number* g_scaling){
            assert(num_constraints() == m);
-           bool retval = get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
+           bool retval = TMINLP2TNLP::get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
            if(use_g_scaling){
              g_scaling += m - (int)quadRows_.size();
              CoinFillN(g_scaling, (int)quadRows_.size(), 1.);}
-- 
2.43.0


From d31059fab22d39dc0fd3019a134c2b5ef5bbfca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:45 +0000
Subject: [PATCH 16/40] fix: report success when single quadratic rows are
 evaluated

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index fba69ae..bea4229 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -202,7 +202,7 @@ namespace Bonmin {
     }
     i -= m_orig;
      gi = quadRows_[i]->eval_f(x, new_x);
-     return false;
+     return true;
   }
 
 
@@ -278,7 +278,7 @@ namespace Bonmin {
       assert(jCol == NULL);
       quadRows_[i]->eval_grad(nele_grad_gi, x, new_x, values);
     }
-    return false;
+    return true;
   }
     /** Return the hessian of the
      *  lagrangian. The vectors iRow and jCol only need to be set once
-- 
2.43.0


From 0c69d9199852553c2b260d538b52485130628633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:45 +0000
Subject: [PATCH 17/40] fix: copy the constant of the linear objective with the
 problem

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index bea4229..da6c0bb 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -55,7 +55,8 @@ namespace Bonmin {
       quadRows_(other.quadRows_),
       H_(),
       curr_nnz_jac_(other.curr_nnz_jac_),
-      obj_(other.obj_)
+      obj_(other.obj_),
+      c_(other.c_)
       {
        // Get the number of nonzoeroes in the matrix
        const size_t nnz_h = TMINLP2TNLP::nnz_h_lag();
-- 
2.43.0


From 9f9a2d55a25e0f57cfaa147d54087121fc779e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 18/40] fix: scale the added constraint and variable when the
 user problem asks for scaling

---
 src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
index 2dd7729..f80b41a 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
@@ -65,17 +65,17 @@ namespace Bonmin{
      assert(m == m_);
 
 
+     obj_scaling = 1.;
+     // The objective is the first constraint, its scaling becomes that of the constraint
+     double f_scaling = 1.;
+     bool ret_val = tminlp_->get_scaling_parameters(f_scaling, use_x_scaling, n - 1, x_scaling,
+                                                    use_g_scaling, m - 1,
+                                                    (g_scaling != NULL) ? g_scaling + 1 : NULL);
      if(g_scaling && use_g_scaling)
-       g_scaling[0] = 1.;
+       g_scaling[0] = f_scaling;
      if(x_scaling && use_x_scaling)
        x_scaling[n - 1] = 1.;
-     obj_scaling = 1.;
-     double dummy = 1.;
-     double * mod_obj_scaling = &dummy;
-     if(use_g_scaling && g_scaling){
-       mod_obj_scaling = g_scaling;}
-     return tminlp_->get_scaling_parameters(*mod_obj_scaling, use_x_scaling, n - 1, x_scaling,
-                                                         use_g_scaling, m - 1, g_scaling + 1);
+     return ret_val;
    }
 
 
-- 
2.43.0


From 20e6a242bff1d82169c62c3bc01ac904eec58b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 19/40] fix: size and structure of the gradient of the
 objective constraint

---
 src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
index f80b41a..ca07d34 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
@@ -196,9 +196,11 @@ namespace Bonmin{
      assert(i < m_);
      assert(n == n_);
      if(i == 0){
+      nele_grad_gi = n;
       if(jCol != NULL){
         for(int i = 0 ; i < n ; i++) jCol[i] = i + offset_;
       }
+      if(values == NULL) return true;
       bool ret_val= tminlp_->eval_grad_f(n-1, x, new_x, values);
       values[n-1] = -1;
       return ret_val;}
-- 
2.43.0


From 0e79c6b8b872d5b97094adb75e52608e74d0d4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 20/40] fix: start point of the problem with linear objective

---
 src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
index ca07d34..cb9bd8e 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
@@ -115,8 +115,13 @@ namespace Bonmin{
      assert(m == m_);
 
      bool return_value = tminlp_->get_starting_point(n - 1, init_x, x, init_z, z_L, z_U,
-                                            m - 1, init_lambda, lambda + 1);
-     tminlp_->eval_f(n-1, x, true, x[n-1]);
+                                            m - 1, init_lambda, (lambda != NULL) ? lambda + 1 : NULL);
+     if(init_x)
+       tminlp_->eval_f(n-1, x, true, x[n-1]);
+     if(init_z){
+       z_L[n-1] = 0.;
+       z_U[n-1] = 0.;
+     }
      if(init_lambda && lambda != NULL)
        lambda[0] = 0;
      return return_value;
-- 
2.43.0


From 53898f0fc00e53454145aaaba65ea4b18bb5409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:41 +0000
Subject: [PATCH 21/40] fix: Bab does not report FeasibleOptimal when the
 search ended with an error

---
 src/CbcBonmin/BonCbc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 65fcb20..94deb4a 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -69,7 +69,7 @@ namespace Bonmin
   /** Constructor.*/
   Bab::Bab():
       bestSolution_(NULL),
-      mipStatus_(),
+      mipStatus_(NoSolutionKnown),
       bestObj_(1e200),
       bestBound_(-1e200),
       continuousRelaxation_(-COIN_DBL_MAX),
@@ -681,6 +681,7 @@ namespace Bonmin
     }
     else if (model_.status()==2) {
       status = TMINLP::MINLP_ERROR;
+      mipStatus_ = bestSolution_ ? Feasible : NoSolutionKnown;
     }
   }
   s.nonlinearSolver()->model()->finalize_solution(status,
-- 
2.43.0


From 78654038d7cfc4bb67c6b2c720bb6283315c3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:10 +0000
Subject: [PATCH 22/40] fix: copying SosInfo copies the source, including the
 end of the last set

---
 src/Interfaces/BonTMINLP.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTMINLP.cpp b/src/Interfaces/BonTMINLP.cpp
index fc96bc4..becf892 100644
--- a/src/Interfaces/BonTMINLP.cpp
+++ b/src/Interfaces/BonTMINLP.cpp
@@ -47,13 +47,14 @@ TMINLP::SosInfo::SosInfo(const SosInfo & source):
     indices = new int[numNz];
     weights = new double[numNz];
     for(int i = 0 ; i < num ; i++) {
-      source.types[i] = types[i];
-      source.priorities[i] = priorities[i];
-      source.starts[i] = starts[i];
+      types[i] = source.types[i];
+      priorities[i] = source.priorities[i];
+      starts[i] = source.starts[i];
     }
+    starts[num] = source.starts[num];
     for(int i = 0 ; i < numNz ; i++) {
-      source.indices[i] = indices[i];
-      source.weights[i] = weights[i];
+      indices[i] = source.indices[i];
+      weights[i] = source.weights[i];
     }
   }
   else {
-- 
2.43.0


From 44562e82963895dc885384c57a863c4516974d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:24 +0000
Subject: [PATCH 23/40] fix: probed diving does not push a missing child on the
 heap

---
 src/CbcBonmin/BonDiver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 2f3054e..aa50142 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -345,7 +345,8 @@ namespace Bonmin
           CbcTree::push(nextOnBranch_);
           nextOnBranch_ = NULL;
           //Also have to cleanup candidateChild_
-          CbcTree::push(candidateChild_);
+          if (candidateChild_ != NULL)
+            CbcTree::push(candidateChild_);
           candidateChild_ = NULL;
           return CbcTree::bestNode(cutoff);
         }
-- 
2.43.0


From 137cbd965e44f25a80119c77c768c1c8c93b61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:24 +0000
Subject: [PATCH 24/40] fix: dfs diving returns the node taken off the heap
 once it stopped diving

---
 src/CbcBonmin/BonDiver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index aa50142..8e77494 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -515,7 +515,7 @@ namespace Bonmin
 #endif
     if (mode_ != CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::top();
+      return CbcTree::top();
     }
     if (diveListSize_) {
       return dive_.front();
@@ -600,7 +600,7 @@ namespace Bonmin
     }
     if (mode_ != CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::bestNode(cutoff);
+      return CbcTree::bestNode(cutoff);
     }
     assert(nBacktracks_ < maxDiveBacktracks_);
     CbcNode * node = NULL;
-- 
2.43.0


From 121b8d8b7fa8cb3b161f4c614dc7fe7b2be54ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:24 +0000
Subject: [PATCH 25/40] fix: dfs diving honours its limits on backtracks and
 depth instead of aborting

Neither assertion is an invariant: max_backtracks_in_dive may be 0, and a node
beyond max_dive_depth is put back on the heap just below.
---
 src/CbcBonmin/BonDiver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 8e77494..e63c814 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -602,7 +602,6 @@ namespace Bonmin
       assert(dive_.empty());
       return CbcTree::bestNode(cutoff);
     }
-    assert(nBacktracks_ < maxDiveBacktracks_);
     CbcNode * node = NULL;
     while (diveListSize_ > 0) {
 #ifdef DIVE_DEBUG
@@ -614,7 +613,6 @@ namespace Bonmin
       dive_.pop_front();
       diveListSize_ --;
       assert(node);
-      assert((node->depth() - divingBoardDepth_) <= maxDiveDepth_);
       if (node->objectiveValue() > cutoff) {//throw away node for now just put it on the heap as deleting a node is
         //more complicated than that (has to delete nodeInfo, cuts...)
 #ifdef DIVE_DEBUG
-- 
2.43.0


From 7ca8ab5ca3da2ded3bd710245fc3278f5297bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:24 +0000
Subject: [PATCH 26/40] fix: assigning a CbcDfsDiver copies the dive depth
 limit

---
 src/CbcBonmin/BonDiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index e63c814..a4ebea8 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -488,7 +488,7 @@ namespace Bonmin
       nBacktracks_ = rhs.nBacktracks_;
       maxDepthBFS_ = rhs.maxDepthBFS_;
       maxDiveBacktracks_ = rhs.maxDiveBacktracks_;
-      maxDiveDepth_ = maxDiveDepth_;
+      maxDiveDepth_ = rhs.maxDiveDepth_;
       mode_ = rhs.mode_;
     }
     return *this;
-- 
2.43.0


From fd39b58b0ef3ae112c9d02474ceb246d99a78794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:41 +0000
Subject: [PATCH 27/40] fix: strong branching only considers objects of the
 best priority

The list of unsatisfied objects ends with those of worse priority; when fewer
objects of the best priority are unsatisfied than strong branching may
consider, they were taken for candidates and branched on first.
---
 src/Algorithms/Branching/BonChooseVariable.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 02f0b9d..54a082e 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -630,6 +630,9 @@ namespace Bonmin
       double bestTrusted=-COIN_DBL_MAX;
       for (int i=0;i<numberLeft;i++) {
         int iObject = list_[i];
+        // objects of worse priority follow in the list, they are not candidates
+        if (solver->object(iObject)->priority() > solver->object(list_[0])->priority())
+          continue;
         if (numberBeforeTrusted == 0||
             i < minNumberStrongBranch_ ||
             (
-- 
2.43.0


From 28ac4d826e43b76851d0d0915678bf19c705c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:56 +0000
Subject: [PATCH 28/40] fix: look-ahead in strong branching copes with
 infeasible branches

It asserted that both branches were solved, which nothing ensures.
---
 src/Algorithms/Branching/BonChooseVariable.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 54a082e..694d3fa 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -931,8 +931,7 @@ namespace Bonmin
         break;
       }
       // stop if look ahead heuristic tells us so
-      if (!isRoot && numberLookAhead_) {
-	assert(status0==0 && status1==0);
+      if (!isRoot && numberLookAhead_ && status0==0 && status1==0) {
 	double upEstimate = result->upChange();
 	double downEstimate = result->downChange();
 	double MAXMIN_CRITERION = maxminCrit(info);
-- 
2.43.0


From 62f6bc5b7e4b7778864933830e19ef3f248d359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:24 +0000
Subject: [PATCH 29/40] fix: num_resolve_at_infeasibles is honoured when nodes
 are not warm started

Without warm start (the default) a node is solved by initialSolve, which
ignored the option: an infeasible node was never solved again.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index cdb207d..1c1ba3b 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2836,6 +2836,8 @@ void OsiTMINLPInterface::initialSolve(const char * whereFrom)
     return;
   }
   int numRetry = firstSolve_ ? numRetryInitial_ : numRetryResolve_;
+  if(!firstSolve_ && isProvenPrimalInfeasible())
+    numRetry = std::max(numRetry, numRetryInfeasibles_);
   if(isAbandoned() ||
     ( isProvenPrimalInfeasible() && getObjValue() < infeasibility_epsilon_)) {
     resolveForRobustness(numRetryUnsolved_);
-- 
2.43.0


From e69223334b602f6dc312a83332f3de653031f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:51 +0000
Subject: [PATCH 30/40] fix: MILP rounding heuristic sorts the Jacobian values
 with its indices

The matrix of the MILP was put together from the sorted row and column
indices but the unsorted values.
---
 src/CbcBonmin/Heuristics/BonMilpRounding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
index c0d9ef3..0115541 100644
--- a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
+++ b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
@@ -171,7 +171,7 @@ namespace Bonmin
       if(thisIndexRow == -1) continue;
       columnLength[thisIndexCol]++;
       row[nnz] = thisIndexRow;
-      value[nnz] = jac_g[i];
+      value[nnz] = jac_g[sortedIndex[i]];
       nnz++;
     }
 
-- 
2.43.0


From dde7e965850c7df37c2801100c000076bb084c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:03 +0000
Subject: [PATCH 31/40] fix: copies of a setup own the branching objects they
 hold

The copy constructors cloned the objects but dropped the clones and kept
the pointers of the original, which were then deleted twice.
---
 src/Algorithms/BonBabSetupBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 391480e..b15e8b8 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -121,7 +121,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
@@ -173,7 +173,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
   /** Copy constructor with change of nlp. */
@@ -209,7 +209,7 @@ namespace Bonmin
     CoinCopyN(defaultDoubleParam_, NumberDoubleParam, doubleParam_);
     gatherParametersValues(options_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
-- 
2.43.0


From 3e787bc6108974998f3874be6707dadb887cd787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:07 +0000
Subject: [PATCH 32/40] fix: fix-and-solve and dummy-pump heuristics delete
 their NLP once

doLocalSearch hands the NLP to the setup it creates, which deletes it.
---
 src/CbcBonmin/Heuristics/BonDummyPump.cpp            |  2 +-
 src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonDummyPump.cpp b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
index dd9bf72..eb71e27 100644
--- a/src/CbcBonmin/Heuristics/BonDummyPump.cpp
+++ b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
@@ -55,8 +55,8 @@ namespace Bonmin {
     nlp->switchToFeasibilityProblem(inds.size(), vals(), inds(), 1., 0., 1);
 
     double cutoff = info.cutoff_; 
+    //Note that doLocalSearch deletes nlp
     int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
-    delete nlp;
     return r_val;
   }
 
diff --git a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
index ca21485..daf07b3 100644
--- a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
+++ b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
@@ -64,11 +64,13 @@ namespace Bonmin {
          nFixed ++;
       }
     }
-    if(nFixed < numberObjects / 3) return 0;
+    if(nFixed < numberObjects / 3){
+      delete nlp;
+      return 0;
+    }
     double cutoff = info.cutoff_; 
-    int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
-    delete nlp;
-    return r_val;
+    //Note that doLocalSearch deletes nlp
+    return doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
   }
 
   void
-- 
2.43.0


From aeb9c4422a6b8ab14a772a76a47a87a3ac45836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:01 +0000
Subject: [PATCH 33/40] fix: dummy pump heuristic reports the objective of its
 solution

The value returned to the tree search was the distance minimized by the
pump, which could become the incumbent's value and cut off better nodes.
---
 src/CbcBonmin/Heuristics/BonDummyPump.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonDummyPump.cpp b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
index eb71e27..8b35147 100644
--- a/src/CbcBonmin/Heuristics/BonDummyPump.cpp
+++ b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
@@ -54,10 +54,18 @@ namespace Bonmin {
     }
     nlp->switchToFeasibilityProblem(inds.size(), vals(), inds(), 1., 0., 1);
 
-    double cutoff = info.cutoff_; 
+    //The local search minimizes a distance: the cutoff does not apply to it and
+    //its optimal value is not the objective value of the solution.
+    double distance;
+    vector<double> point(numcols);
     //Note that doLocalSearch deletes nlp
-    int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
-    return r_val;
+    if(!doLocalSearch(nlp, point(), distance, COIN_DBL_MAX)) return 0;
+    double value;
+    setup_->nonlinearSolver()->problem()->eval_f(numcols, point(), true, value);
+    if(value >= info.cutoff_ || value >= objectiveValue) return 0;
+    std::copy(point.begin(), point.end(), newSolution);
+    objectiveValue = value;
+    return 1;
   }
 
   void
-- 
2.43.0


From 65dec93e3d24387838ce5d040bb579e1688a0cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:08 +0000
Subject: [PATCH 34/40] fix: an NLP for which the solver did not converge
 counts as failed

isAbandoned() left out doesNotConverge, so such a solve was neither retried
nor reported as a failure and the node was dropped as if it were infeasible.
---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 1c1ba3b..4c043f0 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2935,6 +2935,7 @@ bool OsiTMINLPInterface::isAbandoned() const
   pretendSucceededNext_ = false;
   return ( 
         (optimizationStatus_==TNLPSolver::iterationLimit)||
+        (optimizationStatus_==TNLPSolver::doesNotConverge)||
         (optimizationStatus_==TNLPSolver::computationError)||
         (optimizationStatus_==TNLPSolver::illDefinedProblem)||
         (optimizationStatus_==TNLPSolver::illegalOption)||
-- 
2.43.0


From aaf1ec613b3ed628db612b663f1b1fa4d06768de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:08 +0000
Subject: [PATCH 35/40] fix: a failed or infeasible node is branched on only if
 an integer is free

force_fractionnal_sol made fixed integer variables fractional as well, and
branching on those crashed Cbc (max_consecutive_infeasible > 0).
---
 src/CbcBonmin/BonCbcNlpStrategy.cpp      | 24 +++++++-----------------
 src/Interfaces/BonOsiTMINLPInterface.hpp |  6 ++++--
 src/Interfaces/BonTMINLP2TNLP.cpp        | 11 ++++++++---
 src/Interfaces/BonTMINLP2TNLP.hpp        |  5 +++--
 4 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/CbcBonmin/BonCbcNlpStrategy.cpp b/src/CbcBonmin/BonCbcNlpStrategy.cpp
index 729bf57..0ddad0a 100644
--- a/src/CbcBonmin/BonCbcNlpStrategy.cpp
+++ b/src/CbcBonmin/BonCbcNlpStrategy.cpp
@@ -89,6 +89,7 @@ namespace Bonmin
 
     int seqOfInfeasiblesSize = bmNodeInfo->getSequenceOfInfeasiblesSize();
     int seqOfUnsolvedSize = bmNodeInfo->getSequenceOfUnsolvedSize();
+    OsiTMINLPInterface * nlp = dynamic_cast<OsiTMINLPInterface *>(solver);
 
 
     if (solver->isAbandoned()) {
@@ -115,40 +116,29 @@ namespace Bonmin
     }
 
     if (seqOfInfeasiblesSize < maxInfeasible_ &&
-        solved && !feasible) {
+        solved && !feasible && nlp->forceBranchable()) {
       (*model->messageHandler())<<"Branching on infeasible node, sequence of infeasible size "
       <<seqOfInfeasiblesSize<<CoinMessageEol;
-      // Have to make sure that we will branch
-      OsiTMINLPInterface * ipopt = dynamic_cast<OsiTMINLPInterface *>(solver);
-      ipopt->forceBranchable();
-      //change objective value
       returnStatus = 0;
 
     }
 
     if (!solved && parent != NULL &&
-        seqOfUnsolvedSize <= maxFailure_) {
+        seqOfUnsolvedSize <= maxFailure_ && nlp->forceBranchable()) {
       (*model->messageHandler())<<"Branching on unsolved node, sequence of unsolved size "<<seqOfUnsolvedSize<<CoinMessageEol;
-      // Have to make sure that we will branch
-      OsiTMINLPInterface * osiMinlp = dynamic_cast<OsiTMINLPInterface *>(solver);
-      osiMinlp->forceBranchable();     //      feasible=1;
       returnStatus = 0;
     }
-
-    if (solver->isAbandoned() && parent != NULL &&
-        seqOfUnsolvedSize > maxFailure_) {
+    else if (!solved && parent != NULL) {
       hasFailed_ = true;
-      OsiTMINLPInterface * osiMinlp =
-        dynamic_cast<OsiTMINLPInterface *>(solver);
       if (pretendFailIsInfeasible_) {
         //force infeasible
-        osiMinlp->forceInfeasible();
+        nlp->forceInfeasible();
         returnStatus = 2;
       }
       else {
         std::string probName;
-        osiMinlp->getStrParam(OsiProbName,probName);
-        throw osiMinlp->newUnsolvedError(0, osiMinlp->problem(), probName);
+        nlp->getStrParam(OsiProbName,probName);
+        throw nlp->newUnsolvedError(0, nlp->problem(), probName);
       }
     }
     return returnStatus;
diff --git a/src/Interfaces/BonOsiTMINLPInterface.hpp b/src/Interfaces/BonOsiTMINLPInterface.hpp
index eb81628..d6ba913 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.hpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.hpp
@@ -284,10 +284,12 @@ class Messages : public CoinMessages
     problem_->set_obj_value(1e200);
   }
   /// Force current solution to be branched on (make it fractionnal with small objective)
-  void forceBranchable()
+  /// \return false if there is nothing left to branch on (and the solution is left as is).
+  bool forceBranchable()
   {
+    if(!problem_->force_fractionnal_sol()) return false;
     problem_->set_obj_value(-1e200);
-    problem_->force_fractionnal_sol();
+    return true;
   }
   //@}
 
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index 7bb9e2a..41af477 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -616,17 +616,22 @@ namespace Bonmin
   }
 
   /** force solution to be fractionnal.*/
-  void
+  bool
   TMINLP2TNLP::force_fractionnal_sol()
   {
+    bool forced = false;
     for(int i=0 ; i < num_variables() ; i++) {
       if( ( var_types_[i] == TMINLP::INTEGER ||
           var_types_[i] == TMINLP::BINARY )&&
-          x_l_[i] < x_u_[i] + 0.5)//not fixed
+          ceil(x_l_[i]) + 0.5 < x_u_[i])//not fixed
       {
-        x_sol_[i] = ceil(x_l_[i]) + 0.5;//make it integer infeasible
+        double base = (x_l_[i] > -1e10) ? ceil(x_l_[i]) :
+                      std::min(0., floor(x_u_[i]) - 1.);
+        x_sol_[i] = base + 0.5;//make it integer infeasible
+        forced = true;
       }
     }
+    return forced;
   }
 
   bool 
diff --git a/src/Interfaces/BonTMINLP2TNLP.hpp b/src/Interfaces/BonTMINLP2TNLP.hpp
index f158ad8..b4c7b50 100644
--- a/src/Interfaces/BonTMINLP2TNLP.hpp
+++ b/src/Interfaces/BonTMINLP2TNLP.hpp
@@ -168,8 +168,9 @@ namespace Bonmin
       obj_value_ = value;
     }
 
-    /** force solution to be fractionnal.*/
-    void force_fractionnal_sol();
+    /** force solution to be fractionnal.
+        \return false if no integer variable can be made fractionnal.*/
+    bool force_fractionnal_sol();
 
     /** Change the bounds on the variables */
     void SetVariablesBounds(Ipopt::Index n,
-- 
2.43.0


From 9fa6bf8100ecfd36db005042dd6a7d58e38e9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:08 +0000
Subject: [PATCH 36/40] fix: NLP failures at nodes of B-BB reach CbcNlpStrategy

isAbandoned() pretended success forever after one failed node, and children of
the root were not looked at, so that failed nodes were silently dropped as
infeasible whatever nlp_failure_behavior and max_consecutive_failures say.
---
 src/CbcBonmin/BonCbcNlpStrategy.cpp      | 13 ++++++++-----
 src/CbcBonmin/BonCbcNode.cpp             |  3 ++-
 src/Interfaces/BonOsiTMINLPInterface.cpp | 11 +++++++++--
 src/Interfaces/BonOsiTMINLPInterface.hpp |  3 +++
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/CbcBonmin/BonCbcNlpStrategy.cpp b/src/CbcBonmin/BonCbcNlpStrategy.cpp
index 0ddad0a..68c70de 100644
--- a/src/CbcBonmin/BonCbcNlpStrategy.cpp
+++ b/src/CbcBonmin/BonCbcNlpStrategy.cpp
@@ -58,7 +58,7 @@ namespace Bonmin
   CbcNodeInfo *
   CbcNlpStrategy::fullNodeInfo(CbcModel * model,int numberRowsAtContinuous) const
   {
-    return new CbcFullNodeInfo(model,numberRowsAtContinuous);
+    return new BonCbcFullNodeInfo(model,numberRowsAtContinuous);
   }
 // Return a new Partial node information pointer (descendant of CbcPartialNodeInfo)
   CbcNodeInfo *
@@ -85,14 +85,17 @@ namespace Bonmin
     bool solved = true;
     int returnStatus = -1;
     BonCbcPartialNodeInfo * bmNodeInfo = dynamic_cast<BonCbcPartialNodeInfo *>(parent);
-    if (!bmNodeInfo) return -1;
+    BonCbcFullNodeInfo * bmRootInfo = dynamic_cast<BonCbcFullNodeInfo *>(parent);
+    if (!bmNodeInfo && !bmRootInfo) return -1;
 
-    int seqOfInfeasiblesSize = bmNodeInfo->getSequenceOfInfeasiblesSize();
-    int seqOfUnsolvedSize = bmNodeInfo->getSequenceOfUnsolvedSize();
+    int seqOfInfeasiblesSize = bmNodeInfo ? bmNodeInfo->getSequenceOfInfeasiblesSize()
+                                          : bmRootInfo->getSequenceOfInfeasiblesSize();
+    int seqOfUnsolvedSize = bmNodeInfo ? bmNodeInfo->getSequenceOfUnsolvedSize()
+                                       : bmRootInfo->getSequenceOfUnsolvedSize();
     OsiTMINLPInterface * nlp = dynamic_cast<OsiTMINLPInterface *>(solver);
 
 
-    if (solver->isAbandoned()) {
+    if (nlp->lastSolveFailed()) {
       solved = false;
       seqOfUnsolvedSize++;
       ;
diff --git a/src/CbcBonmin/BonCbcNode.cpp b/src/CbcBonmin/BonCbcNode.cpp
index ea34268..67d3fd7 100644
--- a/src/CbcBonmin/BonCbcNode.cpp
+++ b/src/CbcBonmin/BonCbcNode.cpp
@@ -132,7 +132,8 @@ namespace Bonmin
         numberUnsolved =  nlpRoot->getSequenceOfUnsolvedSize();
       }
     }
-    if (model->solver()->isAbandoned() ||
+    OsiTMINLPInterface * nlp = dynamic_cast<OsiTMINLPInterface *>(model->solver());
+    if ((nlp ? nlp->lastSolveFailed() : model->solver()->isAbandoned()) ||
         model->solver()->isIterationLimitReached())
       sequenceOfUnsolvedSize_ = numberUnsolved + 1;
 
diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 4c043f0..b46e9bf 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2631,6 +2631,7 @@ OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
     const char * whereFrom)
 {
   if (BonminAbortAll == true) return;
+  pretendSucceededNext_ = false;
   totalNlpSolveTime_-=CoinCpuTime();
   if(warmStarted)
     optimizationStatus_ = app_->ReOptimizeTNLP(GetRawPtr(problem_to_optimize_));
@@ -2932,7 +2933,12 @@ bool OsiTMINLPInterface::isAbandoned() const
 {
   if (pretendSucceededNext_)
     return false;
-  pretendSucceededNext_ = false;
+  return lastSolveFailed();
+}
+
+/// Did the last NLP solve fail?
+bool OsiTMINLPInterface::lastSolveFailed() const
+{
   return ( 
         (optimizationStatus_==TNLPSolver::iterationLimit)||
         (optimizationStatus_==TNLPSolver::doesNotConverge)||
@@ -2948,7 +2954,8 @@ bool OsiTMINLPInterface::isAbandoned() const
 bool OsiTMINLPInterface::isProvenOptimal() const
 {
   return (optimizationStatus_==TNLPSolver::solvedOptimal) ||
-	  (optimizationStatus_==TNLPSolver::solvedOptimalTol);
+	  (optimizationStatus_==TNLPSolver::solvedOptimalTol) ||
+	  pretendSucceededNext_ == 2;
 }
 /// Is primal infeasiblity proven?
 bool OsiTMINLPInterface::isProvenPrimalInfeasible() const
diff --git a/src/Interfaces/BonOsiTMINLPInterface.hpp b/src/Interfaces/BonOsiTMINLPInterface.hpp
index d6ba913..6fabbe7 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.hpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.hpp
@@ -278,6 +278,8 @@ class Messages : public CoinMessages
   {
     pretendFailIsInfeasible_ = 2;
   }
+  /// Say if last solve failed (even if it is pretended to be a success)
+  bool lastSolveFailed() const;
   /// Force current solution to be infeasible
   void forceInfeasible()
   {
@@ -289,6 +291,7 @@ class Messages : public CoinMessages
   {
     if(!problem_->force_fractionnal_sol()) return false;
     problem_->set_obj_value(-1e200);
+    if(lastSolveFailed()) pretendSucceededNext_ = 2;
     return true;
   }
   //@}
-- 
2.43.0


From 1cabdab62f5b96a2d53b9f275502bb6d6d627e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:46 +0000
Subject: [PATCH 37/40] fix: OA decomposition accepts an NLP of value zero

The cutoff is the value of the solution reduced by a fraction of its
absolute value: it equals the value when that is 0, where the assertions
stopped the program.
---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 2 +-
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index cab337f..ce656e6 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -161,7 +161,7 @@ namespace Bonmin
            cutoff = ub > 0 ?
                     ub * (1 - parameters_.cbcCutoffIncrement_):
                     ub * (1 + parameters_.cbcCutoffIncrement_);
-           assert(cutoff < ub);
+           assert(cutoff <= ub);
            
            numSols_++;
          }
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 33d9c80..36811b3 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -147,7 +147,7 @@ namespace Bonmin
         // Update the cutoff
         ub = std::min(nlp_->getObjValue(), ub);
         cutoff = ub > 0 ? ub *(1 - parameters_.cbcCutoffIncrement_) : ub*(1 + parameters_.cbcCutoffIncrement_);
-        assert(cutoff < ub);
+        assert(cutoff <= ub);
         // Update the lp solver cutoff
         lp->setDblParam(OsiDualObjectiveLimit, cutoff);
         numSols_++;
-- 
2.43.0


From cf21fcc55bbe413ba48d4b9a9613c6aaec2e5d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:39 +0000
Subject: [PATCH 38/40] fix: OA decomposition stops when it may not search for
 a new point

Once the solution limit was reached and the LP solution was integer, the
loop went on solving the NLP at the same MILP solution until the time
limit.
---
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 36811b3..5155869 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -264,6 +264,9 @@ namespace Bonmin
 		  feasible = 0;
 		}
       }
+      else {//No new point to try
+        break;
+      }
       
     }
 
-- 
2.43.0


From 1a67e5dd4bedb7c1f22bd08ba88357857be5476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:23 +0000
Subject: [PATCH 39/40] fix: feasibility pump claims convergence only if the
 MILP is infeasible

Stopping on the time limit or on the solution limit was reported like a
MILP proven infeasible (with fp_pass_infeasible set).
---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index ce656e6..fcf6eec 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -205,6 +205,7 @@ namespace Bonmin
       //check time
       if (CoinCpuTime() - timeBegin_ > parameters_.maxLocalSearchTime_){
         colsol = NULL;
+        milpOptimal = false;
         break;
       }
       //do we perform a new local search ?
@@ -232,6 +233,7 @@ namespace Bonmin
       }/** endif localSearch*/
       else {
         colsol = NULL;
+        milpOptimal = false;
       }
     }
      //return -DBL_MAX;
-- 
2.43.0


From aaca0bf5c437f533aea6d45ba0ebba17cfd56dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:00 +0000
Subject: [PATCH 40/40] fix: milp_solver Cbc_Par does not read an option that
 does not exist

Option probing_cuts is no longer registered: asking for its value throws.
---
 src/Algorithms/BonCbcLpStrategy.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonCbcLpStrategy.cpp b/src/Algorithms/BonCbcLpStrategy.cpp
index 35efae8..c6c9d88 100644
--- a/src/Algorithms/BonCbcLpStrategy.cpp
+++ b/src/Algorithms/BonCbcLpStrategy.cpp
@@ -60,11 +60,11 @@ namespace Bonmin
 
     int k = 0;
     
-    bool set = s.options()->GetIntegerValue("probing_cuts", gen_freqs_[k], prefix);
-    if(set==0) gen_freqs_[k] = -99;
+    //Option probing_cuts is not registered, use the default of Cbc
+    gen_freqs_[k] = -99;
     k++;
 
-    set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
+    bool set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
     if(set==0) gen_freqs_[k] = -99;
     k++;
     
-- 
2.43.0

