From 2a3dfa9d78050aac0ae762d459b6712800108acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 01/49] fix: interior point line search on programs without
 linear cone rows

The step length was initialised from the first linear-cone entry even
when the cone has none (reading past the end of the vectors and crashing
on programs without linear inequality rows).
---
 solver/src/solver/optimizer/IPSolver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 0ef1bb2..96bd220 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -140,9 +140,9 @@ namespace solver {
     double conicres_lk, conicres_ds, conicres_dz, inv_conicres, factor1, factor2;
 
     // Linear cone
-    double rhomin = ds[0]/lambda[0];
-    double sigmamin = dz[0]/lambda[0];
-    for (int i=1; i<this->getCone().sizeLpc(); i++){
+    double rhomin = 0.0;
+    double sigmamin = 0.0;
+    for (int i=0; i<this->getCone().sizeLpc(); i++){
       if (ds[i]/lambda[i]<rhomin) { rhomin = ds[i]/lambda[i]; }
       if (dz[i]/lambda[i]<sigmamin) { sigmamin = dz[i]/lambda[i]; }
     }
-- 
2.43.0


From b4df313fbc8d1a713d7aaaa57671769dae03a360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 02/49] fix: scale-invariant infeasibility measures in the
 interior point solver

The infeasibility residuals were divided by max(norm,1). With iterates
of small magnitude this accepted almost-zero vectors as unbounded rays and
reported DualInf for bounded, infeasible programs. Certificates are rays
and are now measured relative to their own magnitude.
---
 solver/src/solver/optimizer/IPSolver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/solver/src/solver/optimizer/IPSolver.cpp b/solver/src/solver/optimizer/IPSolver.cpp
index 96bd220..da62aec 100644
--- a/solver/src/solver/optimizer/IPSolver.cpp
+++ b/solver/src/solver/optimizer/IPSolver.cpp
@@ -207,9 +207,12 @@ namespace solver {
                                                                res_.z().norm()/std::max(inires_z_+opt_.x().norm()+opt_.s().norm(),1.0)) / opt_.tau();
     this->getInfo().get(SolverDoubleParam_DualResidual) = res_.x().norm()/std::max(inires_x_+opt_.y().norm()+opt_.z().norm(),1.0) / opt_.tau();
 
-    // infeasibility measures
-    this->getInfo().get(SolverDoubleParam_PrimalInfeasibility) = (hz_ + by_)/std::max(opt_.y().norm()+opt_.z().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? residual_x_ / std::max(opt_.y().norm()+opt_.z().norm(),1.0) : SolverSetting::nan;
-    this->getInfo().get(SolverDoubleParam_DualInfeasibility) = cx_/std::max(opt_.x().norm(),1.0) < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol) ? std::max(residual_y_/std::max(opt_.x().norm(),1.0), residual_z_/std::max(opt_.x().norm()+opt_.s().norm(),1.0)) : SolverSetting::nan;
+    // infeasibility measures (certificates are rays: only meaningful relative to their own magnitude)
+    const double norm_yz = opt_.y().norm()+opt_.z().norm();
+    const double norm_x  = opt_.x().norm();
+    const double norm_xs = norm_x+opt_.s().norm();
+    this->getInfo().get(SolverDoubleParam_PrimalInfeasibility) = hz_ + by_ < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol)*norm_yz ? residual_x_/norm_yz : SolverSetting::nan;
+    this->getInfo().get(SolverDoubleParam_DualInfeasibility) = cx_ < -this->getSetting().get(SolverDoubleParam_DualityGapRelTol)*norm_x ? std::max(residual_y_/norm_x, residual_z_/norm_xs) : SolverSetting::nan;
   }
 
   ExitCode InteriorPointSolver::convergenceCheck(const PrecisionConvergence& mode)
-- 
2.43.0


From e2b3a450cfd319fe7634ce1f539248b0569c0ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 03/49] fix: read-only access to slack and dual variables of an
 optimization vector

The const overloads of s() and z() returned each other's segment.
---
 solver/include/solver/interface/Cone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/include/solver/interface/Cone.hpp b/solver/include/solver/interface/Cone.hpp
index 04ab1ba..18768e4 100644
--- a/solver/include/solver/interface/Cone.hpp
+++ b/solver/include/solver/interface/Cone.hpp
@@ -350,8 +350,8 @@ namespace solver {
 
 	  const Eigen::Ref<const Eigen::VectorXd> x() const { return this->head(cone_->numVars()); }
 	  const Eigen::Ref<const Eigen::VectorXd> y() const { return this->segment(cone_->numVars(),cone_->numLeq()); }
-	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
-	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> z() const { return this->segment(cone_->lpConeStart(),cone_->sizeCone()); }
+	  const Eigen::Ref<const Eigen::VectorXd> s() const { return this->segment(cone_->sizeProb()+2,cone_->sizeCone()); }
 	  const Eigen::Ref<const Eigen::VectorXd> yz() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()); }
 	  const Eigen::Ref<const Eigen::VectorXd> yztau() const { return this->segment(cone_->numVars(),cone_->sizeConstraints()+1); }
 	  double tau() const { return this->segment<2>(cone_->sizeProb())[0]; }
-- 
2.43.0


From 78b9bb1d38cb344b8d77f36e0a04ba03445f4f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 04/49] fix: branch and bound bounds in units of the original
 objective

Node bounds multiplied the equilibrated cost vector with the unscaled
solution; with equilibration active the incumbent was compared using a
different objective than the one being minimised.
---
 solver/src/solver/optimizer/BnBSolver.cpp     | 6 +++---
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 9080245..2b6b2d7 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -116,7 +116,7 @@ namespace solver {
         opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -126,7 +126,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -135,7 +135,7 @@ namespace solver {
         opt_status_ = this->getSolver().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getSolver().getStorage().c().dot(this->getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index df1ecfa..3f12330 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -113,7 +113,7 @@ namespace solver {
         opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
-      nodes_[node_id].lower_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+      nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
 
       bool is_integer_sol = true;
       for (int var_id=0; var_id<nbin_vars_; var_id++) {
@@ -123,7 +123,7 @@ namespace solver {
 
       if (is_integer_sol) {
         nodes_[node_id].status_ = Status::SolvedNonBranchable;
-        nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+        nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
       } else {
         this->selectPartitionVariable(nodes_[node_id].partition_id_, nodes_[node_id].partition_val_);
         nodes_[node_id].status_ = Status::SolvedBranchable;
@@ -132,7 +132,7 @@ namespace solver {
         opt_status_ = this->getProblem().optimize();
 
         if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc){
-          nodes_[node_id].upper_bound_ = this->getProblem().getStorage().c().dot(this->getProblem().getSolver().optimalVector().x());
+          nodes_[node_id].upper_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
           is_viable_sol = true;
         }
       }
-- 
2.43.0


From db8364f4eb9fdb150b5bce55edc8bb9820e5aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 05/49] fix: branch and bound prunes infeasible nodes

An infeasible relaxation was treated as solved: the iterate of its
infeasibility certificate could become the incumbent or a lower bound.
---
 solver/src/solver/optimizer/BnBSolver.cpp     | 1 -
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index 2b6b2d7..e9200f6 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -113,7 +113,6 @@ namespace solver {
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 3f12330..53ffeb1 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -110,7 +110,6 @@ namespace solver {
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
         opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
-        opt_status_ == ExitCode::PrimalInf || opt_status_ == ExitCode::PrimalInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
-- 
2.43.0


From fe47555718cabc92046e87d9e18320c2bf7d8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 06/49] fix: linear constraints whose variables cancel keep
 their constant

The right hand side was only written while iterating over the variables of
the row, so a constraint such as x - x + 1 <= 0 was silently ignored.
---
 solver/src/solver/interface/ConicProblem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index 9919f92..e171695 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -130,8 +130,8 @@ namespace solver {
     	    this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_id,
 			                        leqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            leqcons_[row_id].getCoeff(var_id)), true);
-	    this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
 	  }
+      this->getStorage().b()[row_start+row_id] = -leqcons_[row_id].getConstant();
     }
 
     // Linear inequality constraints due to integer variables
@@ -149,8 +149,8 @@ namespace solver {
 		this->getStorage().addCoeff(Eigen::Triplet<double>(row_start+row_offset+row_id,
 			                        lineqcons_[row_id].getVar(var_id).get(SolverIntParam_ColNum),
 						            lineqcons_[row_id].getCoeff(var_id)));
-	    this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
 	  }
+      this->getStorage().h()[row_start+row_id] = -lineqcons_[row_id].getConstant();
     }
     row_start += lineqcons_.size();
 
-- 
2.43.0


From 89da431d75fa3c868b247e102762b25aa4737753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 07/49] fix: the objective of a model can be replaced

setObjective kept the helper variables of the previous objective, so a
second call indexed past the quadratic terms of the new objective.
---
 solver/src/solver/interface/ConicProblem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/src/solver/interface/ConicProblem.cpp b/solver/src/solver/interface/ConicProblem.cpp
index e171695..542f4ba 100644
--- a/solver/src/solver/interface/ConicProblem.cpp
+++ b/solver/src/solver/interface/ConicProblem.cpp
@@ -93,7 +93,9 @@ namespace solver {
     objective_.qexpr() = qexpr.qexpr();
     objective_.coeffs() = qexpr.coeffs();
     objective_.lexpr() = qexpr.lexpr() + lexpr;
-    for (int i=0; i<(int)qexpr.coeffs().size(); i++)
+    while (objective_.extraVars().size() > qexpr.coeffs().size())
+      objective_.extraVars().pop_back();
+    while (objective_.extraVars().size() < qexpr.coeffs().size())
       objective_.extraVars().push_back(this->addVar(VarType::Continuous, 0.0, 1.0, 0.5));
   }
 
-- 
2.43.0


From 722441926eee147b17419bc525c406919d6b2a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 08/49] fix: branch and bound reports unbounded relaxations

The relaxation of a node can be unbounded; its cost is then not a bound
and the relaxed point is not a solution: such programs were reported
Optimal.
---
 solver/src/solver/optimizer/BnBSolver.cpp     | 10 +++++++++-
 solver/src/solver/optimizer/NcvxBnBSolver.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/solver/src/solver/optimizer/BnBSolver.cpp b/solver/src/solver/optimizer/BnBSolver.cpp
index e9200f6..4280a0f 100644
--- a/solver/src/solver/optimizer/BnBSolver.cpp
+++ b/solver/src/solver/optimizer/BnBSolver.cpp
@@ -112,7 +112,6 @@ namespace solver {
     opt_status_ = this->getSolver().optimize();
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
-        opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
@@ -146,6 +145,15 @@ namespace solver {
 
       if (is_viable_sol) { nodes_[node_id].upper_bound_ = SolverSetting::inf; }
     }
+    else if (opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc)
+    {
+      // unbounded relaxation: the cost can be decreased along a ray of the continuous variables
+      nodes_[node_id].lower_bound_ = -SolverSetting::inf;
+      nodes_[node_id].upper_bound_ = -SolverSetting::inf;
+      nodes_[node_id].status_ = Status::SolvedNonBranchable;
+      storeSolution();
+      prob_upper_bound_ = -SolverSetting::inf;
+    }
     else
     {
       nodes_[node_id].lower_bound_ = SolverSetting::inf;
diff --git a/solver/src/solver/optimizer/NcvxBnBSolver.cpp b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
index 53ffeb1..6030cf3 100644
--- a/solver/src/solver/optimizer/NcvxBnBSolver.cpp
+++ b/solver/src/solver/optimizer/NcvxBnBSolver.cpp
@@ -109,7 +109,6 @@ namespace solver {
     opt_status_ = this->getProblem().optimize();
 
     if (opt_status_ == ExitCode::Optimal || opt_status_ == ExitCode::OptimalInacc ||
-        opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc ||
         opt_status_ == ExitCode::ReachMaxIters)
     {
       nodes_[node_id].lower_bound_ = this->getProblem().getSolver().getInfo().get(SolverDoubleParam_PrimalCost);
@@ -143,6 +142,15 @@ namespace solver {
 
       if (is_viable_sol) { nodes_[node_id].upper_bound_ = SolverSetting::inf; }
     }
+    else if (opt_status_ == ExitCode::DualInf || opt_status_ == ExitCode::DualInfInacc)
+    {
+      // unbounded relaxation: the cost can be decreased along a ray of the continuous variables
+      nodes_[node_id].lower_bound_ = -SolverSetting::inf;
+      nodes_[node_id].upper_bound_ = -SolverSetting::inf;
+      nodes_[node_id].status_ = Status::SolvedNonBranchable;
+      storeSolution();
+      prob_upper_bound_ = -SolverSetting::inf;
+    }
     else
     {
       nodes_[node_id].lower_bound_ = SolverSetting::inf;
-- 
2.43.0


From e51ee788101201f65db5a3b6ac6ef5945f7fb3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 09/49] fix: L-BFGS returns the objective of the point it
 returns

A failed line search restored the previous point but returned the value
of the last trial point.
---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 925cc4a..8786a00 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -203,7 +203,7 @@ namespace solver {
     iteration_data_t *lm = NULL, *it = NULL;
     double ys, yy;
     double xnorm, gnorm, beta;
-    double fx = 0.;
+    double fx = 0., fxp = 0.;
     double rate = 0.;
     line_search_proc linesearch = line_search_morethuente;
 
@@ -335,13 +335,17 @@ namespace solver {
       /* Store the current position and gradient vectors. */
       veccpy(xp, x, n);
       veccpy(gp, g, n);
+      fxp = fx;
 
       /* Search for an optimal step. */
       ls = linesearch(n, x, &fx, g, d, &step, xp, gp, w, &cd, &param);
       if (ls < 0) {
-        /* Revert to the previous point. */
-        veccpy(x, xp, n);
-        veccpy(g, gp, n);
+        /* Revert to the previous point, unless the last one is better. */
+        if (!(fx < fxp)) {
+          veccpy(x, xp, n);
+          veccpy(g, gp, n);
+          fx = fxp;
+        }
         ret = ls;
         goto lbfgs_exit;
       }
-- 
2.43.0


From da2924c399c7a9118e17a3727e657410bf8f553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 10/49] fix: L-BFGS keeps only pairs with positive curvature

With the Armijo condition alone two iterates may have the same gradient
(piecewise linear or unbounded objectives): the direction became NaN,
was accepted, and without an iteration limit the run never ended.
---
 solver/src/solver/optimizer/LbfgsSolver.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/solver/src/solver/optimizer/LbfgsSolver.cpp b/solver/src/solver/optimizer/LbfgsSolver.cpp
index 8786a00..178f561 100644
--- a/solver/src/solver/optimizer/LbfgsSolver.cpp
+++ b/solver/src/solver/optimizer/LbfgsSolver.cpp
@@ -191,7 +191,7 @@ namespace solver {
   {
     int ret;
     int i, j, k, ls, end, bound;
-    double step;
+    double step, scale = 1.;
 
     /* Constant parameters and their default values. */
     lbfgs_parameter_t param = (_param != NULL) ? (*_param) : _defparam;
@@ -330,7 +330,7 @@ namespace solver {
     vec2norminv(&step, d, n);
 
     k = 1;
-    end = 0;
+    end = bound = 0;
     for (;;) {
       /* Store the current position and gradient vectors. */
       veccpy(xp, x, n);
@@ -428,9 +428,17 @@ namespace solver {
        *      Mathematics of Computation, Vol. 35, No. 151,
        *      pp. 773--782, 1980.
        */
-      bound = (m <= k) ? m : k;
       ++k;
-      end = (end + 1) % m;
+
+      /* A pair without positive curvature (the Armijo condition does not
+       * ensure it) carries no information about the inverse hessian. */
+      if (0. < ys) {
+        scale = ys / yy;
+        end = (end + 1) % m;
+        if (bound < m) ++bound;
+      } else if (bound == m) {
+        --bound;    /* the oldest pair gave its place to this one */
+      }
 
       /* Compute the steepest direction. */
       /* Compute the negative of gradients. */
@@ -447,7 +455,7 @@ namespace solver {
         vecadd(d, it->y, -it->alpha, n);
       }
 
-      vecscale(d, ys / yy, n);
+      vecscale(d, scale, n);
 
       for (i = 0;i < bound;++i) {
         it = &lm[j];
@@ -463,6 +471,7 @@ namespace solver {
        *  Now the search direction d is ready. We try step = 1 first.
        */
       step = 1.0;
+      if (bound == 0) vec2norminv(&step, d, n);
     }
 
   lbfgs_exit:
-- 
2.43.0


From 00dcc8ac695a6605e3efb8c7c618aa1796837062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 11/49] fix: the QP solver recognises dependent constraints
 independently of scale

---
 solver/include/solver/rt_optimizer/RtQPSolver.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtQPSolver.hpp b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
index 5f60035..a6c9473 100644
--- a/solver/include/solver/rt_optimizer/RtQPSolver.hpp
+++ b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
@@ -94,6 +94,11 @@ namespace rt_solver {
         typename RtVector<nIneqCon+nEqCon>::d& r, const typename RtVector<nVars>::d& d, int iq)
       { r.head(iq)= R.topLeftCorner(iq,iq).template triangularView<Eigen::Upper>().solve(d.head(iq)); }
 
+      // a constraint is independent of the iq active ones, if its normal has a component (relative
+      // to its length) outside of their span; d is its normal in the coordinates of J
+      inline bool isIndependent(const typename RtVector<nVars>::d& d, int iq) const
+      { return d.tail(d.size()-iq).squaredNorm() > std::numeric_limits<double>::epsilon() * d.squaredNorm(); }
+
       // helper functions to add and delete constraints
       inline bool addConstraint(
         typename RtMatrix<nVars,nVars>::d & R, typename RtMatrix<nVars,nVars>::d & J,
@@ -319,7 +324,7 @@ namespace rt_solver {
             /* compute full step length t2: i.e., the minimum step in primal space s.t. the contraint
                becomes feasible */
             t2 = 0.0;
-            if (std::abs(z.dot(z)) > std::numeric_limits<double>::epsilon()) // i.e. z != 0
+            if (isIndependent(d, iq)) // i.e. z != 0
               t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
             x += t2 * z;
@@ -433,7 +438,7 @@ namespace rt_solver {
             }
           }
           /* Compute t2: full step length (minimum step in primal space such that the constraint ip becomes feasible */
-          if (std::abs(z.dot(z))  > std::numeric_limits<double>::epsilon()) // i.e. z != 0
+          if (isIndependent(d, iq)) // i.e. z != 0
             t2 = -s(ip) / z.dot(np);
           else
             t2 = inf; /* +inf */
-- 
2.43.0


From 4b41f6b2632df5b53164af07e14d24863503261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 12/49] fix: the QP solver handles dependent equality
 constraints

---
 .../solver/rt_optimizer/RtQPSolver.hpp        | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtQPSolver.hpp b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
index a6c9473..dc3670a 100644
--- a/solver/include/solver/rt_optimizer/RtQPSolver.hpp
+++ b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
@@ -323,9 +323,15 @@ namespace rt_solver {
 
             /* compute full step length t2: i.e., the minimum step in primal space s.t. the contraint
                becomes feasible */
-            t2 = 0.0;
-            if (isIndependent(d, iq)) // i.e. z != 0
-              t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+            if (!isIndependent(d, iq)) // i.e. z = 0
+            {
+              /* the constraint is a combination of the previous ones: redundant or contradicting them */
+              const double residual = std::abs(np.dot(x) + ce0(i));
+              if (residual > std::sqrt(std::numeric_limits<double>::epsilon()) * std::max(std::abs(ce0(i)), np.norm()*std::max(1.0, x.norm())))
+                return inf;
+              continue;
+            }
+            t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
             x += t2 * z;
 
@@ -335,7 +341,7 @@ namespace rt_solver {
 
             /* compute the new solution value */
             f_value += 0.5 * (t2 * t2) * z.dot(np);
-            A(i) = -i - 1;
+            A(iq) = -i - 1;
 
             if (!addConstraint(R, Hessian_factor_inv_, d, iq, R_norm))
             {
@@ -347,6 +353,8 @@ namespace rt_solver {
               return f_value;
             }
           }
+          /* number of independent equality constraints */
+          me = iq;
 
           /* set iai = K \ A */
           for (i = 0; i < mi; i++)
@@ -463,7 +471,7 @@ namespace rt_solver {
             u.head(iq) -= t * r.head(iq);
             u(iq) += t;
             iai(l) = l;
-            deleteConstraint(R, Hessian_factor_inv_, A, u, p, iq, l);
+            deleteConstraint(R, Hessian_factor_inv_, A, u, me, iq, l);
 
             goto l2a;
           }
@@ -484,7 +492,7 @@ namespace rt_solver {
             if (!addConstraint(R, Hessian_factor_inv_, d, iq, R_norm))
             {
               iaexcl(ip) = 0;
-              deleteConstraint(R, Hessian_factor_inv_, A, u, p, iq, ip);
+              deleteConstraint(R, Hessian_factor_inv_, A, u, me, iq, ip);
 
               for (i = 0; i < m; i++)
                 iai(i) = i;
@@ -505,7 +513,7 @@ namespace rt_solver {
           /* a patial step has taken */
           /* drop constraint l */
           iai(l) = l;
-          deleteConstraint(R, Hessian_factor_inv_, A, u, p, iq, l);
+          deleteConstraint(R, Hessian_factor_inv_, A, u, me, iq, l);
 
           s(ip) = -(CI.row(ip).dot(x) + ci0(ip));
 
-- 
2.43.0


From f274e25d3ba78d9924186f8169216db6842ff4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 13/49] fix: the QP solver does not take rounding errors for
 violated constraints

---
 solver/include/solver/rt_optimizer/RtQPSolver.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/solver/include/solver/rt_optimizer/RtQPSolver.hpp b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
index dc3670a..397cfa0 100644
--- a/solver/include/solver/rt_optimizer/RtQPSolver.hpp
+++ b/solver/include/solver/rt_optimizer/RtQPSolver.hpp
@@ -309,6 +309,9 @@ namespace rt_solver {
           else                     { x = chol_.solve(g0); }
           x = -x;
 
+          /* largest iterate, the rounding errors of x are relative to it */
+          double x_norm = x.norm();
+
           /* and compute the current solution value */
           f_value = 0.5 * g0.dot(x);
 
@@ -372,11 +375,15 @@ namespace rt_solver {
           /* compute s(x) = ci^T * x + ci0 for all elements of K \ A */
           ss = 0.0;
           psi = 0.0; /* this value will contain the sum of all infeasibilities */
+          x_norm = std::max(x_norm, x.norm());
           ip = 0; /* ip will be the index of the chosen violated constraint */
           for (i = 0; i < mi; i++)
           {
              iaexcl(i) = 1;
              sum = -(CI.row(i).dot(x) + ci0(i));
+             /* a violation within the rounding error of x is none */
+             if (sum < 0.0 && -sum <= 1.e4 * std::numeric_limits<double>::epsilon() * (CI.row(i).norm() * x_norm + std::abs(ci0(i))))
+               sum = 0.0;
              s(i) = sum;
              psi += std::min(0.0, sum);
           }
-- 
2.43.0


From 31932c9631d327c66fed8ea726d6f3282fe58a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 14/49] fix: later ranks do not increase the violation of
 earlier inequalities

---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 79fc283..6e0387f 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -144,12 +144,12 @@ namespace rt_solver {
         if (Ahat_.cols() != zopt_.rows()) { assert(Ahat_.cols() == zopt_.rows()); }
       #endif
       ahat_ += Ahat_ * zopt_;
+      if (wopt_.rows() != 0) //previous task had inequality constraints
+        ahat_.bottomRows(wopt_.rows()) += wopt_;
+
       for (int id=0; id<ahat_.size(); id++)
         if(ahat_[id] >= -inequality_relaxation_)
           ahat_[id] = -inequality_relaxation_;
-
-      if (wopt_.rows() != 0) //previous task had inequality constraints
-        ahat_.bottomRows(wopt_.rows()) += wopt_;
     }
 
     /*
@@ -250,6 +250,8 @@ namespace rt_solver {
       } else {
         RtVectorUtils::setZero(wopt_, dim_w);
       }
+    } else {
+      RtVectorUtils::resize(wopt_, 0);
     }
 
     return qp_solver_interface_.isOptimized() || !apply_ineq_slacks_;
-- 
2.43.0


From 548ecc9727765b9110eca228e67d143796678a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 15/49] fix: no decomposition of an exhausted null space

---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 6e0387f..153c224 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -60,7 +60,7 @@ namespace rt_solver {
       while (!stop_svd2problem_converter_ && is_svd_computed_) { problem2svd_converter_.wait(mutex_); }
       if (stop_svd2problem_converter_) { mutex_.unlock(); break; }
 
-      if(B_Nprev_.rows() != 0) {
+      if(B_Nprev_.rows() != 0 && B_Nprev_.cols() != 0) {
         svd_B_Nprev_.compute(B_Nprev_, Eigen::ComputeFullV);
         RtMatrixUtils::computeNullspaceMap(B_Nprev_, K_, svd_B_Nprev_, eq_condition_threash_);
         prev_K_[cur_rank_] = K_;
-- 
2.43.0


From 1930536fe461a839d9bb6abbdeab5dfba8f1b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 16/49] fix: tasks that depend on previous ones do not use up
 the null space

---
 solver/include/solver/rt_optimizer/RtHQPSolver.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solver/include/solver/rt_optimizer/RtHQPSolver.h b/solver/include/solver/rt_optimizer/RtHQPSolver.h
index 153c224..8892d98 100644
--- a/solver/include/solver/rt_optimizer/RtHQPSolver.h
+++ b/solver/include/solver/rt_optimizer/RtHQPSolver.h
@@ -178,6 +178,10 @@ namespace rt_solver {
     if (eq_mat.rows() != 0)
     {
       B_Nprev_ = eq_mat * Nprev_;
+      // rows that depend on previous tasks are left with rounding errors only
+      for (int id=0; id<B_Nprev_.rows(); id++)
+        if (B_Nprev_.row(id).norm() * eq_condition_threash_ <= eq_mat.row(id).norm())
+          B_Nprev_.row(id).setZero();
       RtQuadraticUtils::addFromNorm(qp_solver_interface_.objectiveQuadPart().topLeftCorner(dim_z, dim_z),
                                     qp_solver_interface_.objectiveLinPart().topRows(dim_z), B_Nprev_,
                                     eq_vec + eq_mat * xopt_);
-- 
2.43.0


From d9f61d5e67145109ef0b96c76d846b17547f72c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 17/49] fix: the number of time steps is not lost to rounding

---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 2 +-
 solver_lqr/src/solver_lqr/SolverLqrSetting.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index dd7386a..2d115c6 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -221,7 +221,7 @@ namespace momentumopt {
       num_act_dofs_ = active_dofs_.size();
       mass_times_gravity_ = robot_mass_ * gravity_;
       gravity_vector_ = Eigen::Vector3d(0., 0., -gravity_);
-      num_timesteps_ = std::floor(time_horizon_/time_step_);
+      num_timesteps_ = std::floor(time_horizon_/time_step_ + 1e-6);
       num_extended_act_dofs_ = extended_active_dofs_.size();
     }
     catch (std::runtime_error& e)
diff --git a/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp b/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
index 3ecbd32..a8d81e7 100644
--- a/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqrSetting.cpp
@@ -53,7 +53,7 @@ namespace solverlqr {
       state_dimension_ = stgs_vars["state_dimension"].as<int>();
       control_dimension_ = stgs_vars["control_dimension"].as<int>();
       initial_state_ = stgs_vars["initial_state"].as<Eigen::VectorXd>();
-      time_dimension_ = std::floor(time_horizon_/time_step_);
+      time_dimension_ = std::floor(time_horizon_/time_step_ + 1e-6);
 
       has_control_limits_ = stgs_vars["has_control_limits"].as<bool>();
       if (has_control_limits_) {
-- 
2.43.0


From 9bb75eab5f814f0db92fe4aff9270fefe87a60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:09 +0000
Subject: [PATCH 18/49] fix: every second order gain of the planner can be
 written

---
 momentumopt/src/momentumopt/setting/PlannerSetting.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
index 2d115c6..b6f551f 100644
--- a/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
+++ b/momentumopt/src/momentumopt/setting/PlannerSetting.cpp
@@ -351,6 +351,7 @@ namespace momentumopt {
       case PlannerDoubleParam_DGainBaseOrientationTracking_Second : { return d_orient_tracking_second_; }
       case PlannerDoubleParam_PGainJointRegularization_Second : { return p_joint_regularization_second_; }
       case PlannerDoubleParam_DGainJointRegularization_Second : { return d_joint_regularization_second_; }
+
       // Not handled parameters
       default: { throw std::runtime_error("PlannerSetting::get PlannerDoubleParam invalid"); break; }
     }
@@ -585,6 +586,12 @@ namespace momentumopt {
       case PlannerDoubleParam_WeightEndEffTracking_Second : { return w_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainEndEffTracking_Second : { return p_endeff_tracking_second_; }
       case PlannerDoubleParam_PGainComTracking_Second : { return p_com_tracking_second_; }
+      case PlannerDoubleParam_WeightJointReg_Second : { return w_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainEndEffTracking_Second : { return d_endeff_tracking_second_; }
+      case PlannerDoubleParam_PGainBaseOrientationTracking_Second : { return p_orient_tracking_second_; }
+      case PlannerDoubleParam_DGainBaseOrientationTracking_Second : { return d_orient_tracking_second_; }
+      case PlannerDoubleParam_PGainJointRegularization_Second : { return p_joint_regularization_second_; }
+      case PlannerDoubleParam_DGainJointRegularization_Second : { return d_joint_regularization_second_; }
 
       // Not handled parameters
       default: { throw std::runtime_error("PlannerSetting::set PlannerDoubleParam invalid"); break; }
-- 
2.43.0


From 4965a0a68f8051f8a7b4add321d21df47da44226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 19/49] fix: rotation vector of small rotations

Rotations of up to 0.28 rad were treated as infinitesimal, with an error in
the angle of up to 9e-4 rad and a discontinuity at the threshold, and the
angle of others was taken from the cosine alone.
---
 momentumopt/src/momentumopt/utilities/OrientationUtils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
index 2d704b5..2102075 100644
--- a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
+++ b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
@@ -30,11 +30,12 @@ namespace momentumopt {
       normalized_quaternion.vec() *= -1.0;
     }
 
-    if (std::abs(1.0-normalized_quaternion.w()) < 0.01) {
+    double sin_half_norm = normalized_quaternion.vec().norm();
+    if (sin_half_norm < 1.e-6) {
       return 2.0*normalized_quaternion.vec();
     } else {
-      double norm = 2.0*std::acos(normalized_quaternion.w());
-      return norm/std::sin(0.5*norm) * normalized_quaternion.vec();
+      double norm = 2.0*std::atan2(sin_half_norm, normalized_quaternion.w());
+      return norm/sin_half_norm * normalized_quaternion.vec();
     }
   }
 
-- 
2.43.0


From cd42c78ef6189757d98aff827377438df5840948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 20/49] fix: angular velocities between orientations

The rotation from the current to the desired orientation was taken for a
change of the rotation vector of the current orientation, so that the angular
velocity was wrong unless the current orientation was close to the identity
or turned about the same axis.
---
 .../momentumopt/utilities/OrientationUtils.cpp    | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
index 2102075..875adf0 100644
--- a/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
+++ b/momentumopt/src/momentumopt/utilities/OrientationUtils.cpp
@@ -118,10 +118,10 @@ namespace momentumopt {
     if (q_current.dot(q_desired) < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
 
     Eigen::Quaternion<double> delta_quaternion = q_desired*q_current.inverse();
-    Eigen::Vector3d delta_rotation = logarithmicMap(delta_quaternion);
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
+    Eigen::Vector3d angular_velocity = logarithmicMap(delta_quaternion)/time_step;
 
-    return toAngularVelocity(current_rotation, delta_rotation/time_step, in_body_coordinates);
+    if (!in_body_coordinates) { return angular_velocity; }
+    else                      { return q_current.inverse()*angular_velocity; }
   }
 
   // integration of current orientation given an angular velocity and a time interval
@@ -130,13 +130,10 @@ namespace momentumopt {
                                                      const double& time_step, bool in_body_coordinates)
   {
     Eigen::Quaternion<double> q_current = current_orientation;    q_current.normalize();
-    if (q_current.w() < 0.0) { q_current.w() *= -1.0; q_current.vec() *= -1.0; }
-
-    Eigen::Vector3d current_rotation = logarithmicMap(q_current);
-    Eigen::Vector3d current_rotation_rate = fromAngularVelocity(current_rotation, angular_velocity, in_body_coordinates);
+    Eigen::Quaternion<double> delta_quaternion = exponentialMap(angular_velocity*time_step);
 
-    // return exponentialMap(current_rotation + current_rotation_rate*time_step);
-    return exponentialMap(current_rotation_rate*time_step) * current_orientation;
+    if (!in_body_coordinates) { return delta_quaternion*q_current; }
+    else                      { return q_current*delta_quaternion; }
   }
 
   // error in the orientation between current and desired orientation
-- 
2.43.0


From ab886494483892ceae8d0a5ee879a8e9c30487a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 21/49] fix: the difference of two quaternions is the shortest
 one

Two quaternions of opposite sign stand for nearby orientations, but their
difference was close to a whole turn.
---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index a570e15..afad18d 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -164,6 +164,9 @@ class CentroidalLqr:
         q1conjugate = np.array([-q1[0],-q1[1],-q1[2],q1[3]])
         # order of multiplication is very essential here 
         dq = self.quaternion_product(q2, q1conjugate)
+        # q and -q are the same orientation, take the shortest difference
+        if dq[3] < 0.:
+            dq = -dq
         # increment is log of dq  
         return self.log_quaternion(dq)   
 
-- 
2.43.0


From e495ab2a6a7b79005f908eba9c672f7f88286597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 22/49] fix: trajectories are regressed on normalised time

Velocity and acceleration at time zero were 0*pow(0,-1), not a number, and the
regression was ill conditioned for trajectories that start late.
---
 .../utilities/TrajectoryGenerator.hpp         |  3 ++
 .../utilities/TrajectoryGenerator.cpp         | 29 +++++++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/momentumopt/include/momentumopt/utilities/TrajectoryGenerator.hpp b/momentumopt/include/momentumopt/utilities/TrajectoryGenerator.hpp
index b729f29..9599aa2 100644
--- a/momentumopt/include/momentumopt/utilities/TrajectoryGenerator.hpp
+++ b/momentumopt/include/momentumopt/utilities/TrajectoryGenerator.hpp
@@ -31,6 +31,9 @@ namespace momentumopt
       void initialize(const InterpMat& pos_des, const InterpMat& vel_des, const InterpMat& acc_des);
       void interpolate(const double time, double& position, double& velocity, double& acceleration);
 
+    private:
+      double timeScale() const;
+
     private:
       double cons_size_;
 	  std::vector<double> time_span_;
diff --git a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
index db578a4..d1d11f2 100644
--- a/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
+++ b/momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp
@@ -25,9 +25,13 @@ namespace momentumopt
 	time_span_.push_back(std::min(std::min(pos_des.col(0).minCoeff(), vel_des.col(0).minCoeff()), acc_des.col(0).minCoeff()));
 	time_span_.push_back(std::max(std::max(pos_des.col(0).maxCoeff(), vel_des.col(0).maxCoeff()), acc_des.col(0).maxCoeff()));
 
+	// the polynomial is built on a time normalized to the unit interval, which keeps the regression
+	// well conditioned for any absolute time and any duration
+	const double time_scale = this->timeScale();
+
 	int row_start = 0;
 	for (int row=0; row<pos_des.rows(); row++) {
-	  double time = pos_des(row,0);
+	  double time = (pos_des(row,0)-time_span_[0])/time_scale;
 	  regression_vector_(row_start+row) = pos_des(row,1);
 	  for (int col=0; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = std::pow(time,double(col));
@@ -35,32 +39,39 @@ namespace momentumopt
 
 	row_start += pos_des.rows();
 	for (int row=0; row<vel_des.rows(); row++) {
-	  double time = vel_des(row,0);
-	  regression_vector_(row_start+row) = vel_des(row,1);
+	  double time = (vel_des(row,0)-time_span_[0])/time_scale;
+	  regression_vector_(row_start+row) = vel_des(row,1)*time_scale;
 	  for (int col=1; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = col*std::pow(time,col-1.0);
 	}
 
 	row_start += vel_des.rows();
 	for (int row=0; row<acc_des.rows(); row++) {
-	  double time = acc_des(row,0);
-	  regression_vector_(row_start+row) = acc_des(row,1);
+	  double time = (acc_des(row,0)-time_span_[0])/time_scale;
+	  regression_vector_(row_start+row) = acc_des(row,1)*time_scale*time_scale;
 	  for (int col=2; col<cons_size_; col++)
 		regression_matrix_(row_start+row,col) = col*(col-1)*std::pow(time,col-2.0);
 	}
 
-	regression_coeffs_ = regression_matrix_.householderQr().solve(regression_vector_);
+	regression_coeffs_ = regression_matrix_.colPivHouseholderQr().solve(regression_vector_);
+  }
+
+  double Interpolator::timeScale() const
+  {
+    // a span of zero length is a single point
+    return time_span_[1]>time_span_[0] ? time_span_[1]-time_span_[0] : 1.0;
   }
 
   void Interpolator::interpolate(const double time, double& position, double& velocity, double& acceleration)
   {
-    double query_time = std::min(std::max(time, time_span_[0]), time_span_[1]);
+    const double time_scale = this->timeScale();
+    double query_time = (std::min(std::max(time, time_span_[0]), time_span_[1])-time_span_[0])/time_scale;
 
     position = velocity = acceleration = 0.0;
     for (int i=0; i<cons_size_; i++) {
       position += regression_coeffs_(i)*std::pow(query_time, double(i));
-      velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i);
-      acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0);
+      if (i>0) { velocity += regression_coeffs_(i)*std::pow(query_time, i-1.0)*double(i)/time_scale; }
+      if (i>1) { acceleration += regression_coeffs_(i)*std::pow(query_time, i-2.0)*double(i)*double(i-1.0)/(time_scale*time_scale); }
     }
   }
 
-- 
2.43.0


From c0216f8ed0ed6612bdda60eb38d57ddfcf31857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 23/49] fix: refilling a dynamics sequence leaves nothing of
 the previous plan behind

and steps at contact boundaries are not lost to rounding.
---
 .../momentumopt/cntopt/ContactPlanInterface.cpp    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 2914989..2de2c35 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -20,15 +20,25 @@ namespace momentumopt {
   {
 	// configuration of end-effectors during contact
     dynamics_sequence.activeEndeffectorSteps().setZero();
+    // step times are compared up to rounding with the times of the plan
+    const double time_tolerance = 1e-6*this->getSetting().get(PlannerDoubleParam_TimeStep);
     for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
       int counter = 0;
+      // a previous plan leaves nothing behind
+      for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivation(eff_id) = false;
+        dynamics_sequence.dynamicsState(time_id).endeffectorContactId(eff_id) = -1;
+        dynamics_sequence.dynamicsState(time_id).endeffectorActivationId(eff_id) = 0;
+        dynamics_sequence.dynamicsState(time_id).endeffectorVelocity(eff_id).setZero();
+        dynamics_sequence.dynamicsState(time_id).endeffectorAcceleration(eff_id).setZero();
+      }
       int ini_id = 0, end_id = contact_sequence_.endeffectorContacts(eff_id).size();
       for (int cnt_id=ini_id; cnt_id<end_id; cnt_id++) {
         if (contact_sequence_.endeffectorContacts(eff_id)[cnt_id].selectedAsActive()) {
           for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
             double current_time = double(time_id+1.0)*this->getSetting().get(PlannerDoubleParam_TimeStep);
-            if (current_time>=contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactActivationTime() &&
-                current_time< contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactDeactivationTime())
+            if (current_time>=contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactActivationTime()-time_tolerance &&
+                current_time< contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactDeactivationTime()-time_tolerance)
             {
               dynamics_sequence.dynamicsState(time_id).endeffectorActivation(eff_id) = true;
               dynamics_sequence.dynamicsState(time_id).endeffectorContactId(eff_id) = cnt_id;
-- 
2.43.0


From a499760f0ddcd5e6d515d8e4aec7fe32ddf82fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 24/49] fix: swing references are generated between the
 contacts that are selected

The search for the contact transitions ran out of the horizon for contacts that
are skipped, late or last until the end, and the via point was uninitialised
when none was given.
---
 .../cntopt/ContactPlanInterface.hpp           |  2 -
 .../cntopt/ContactPlanInterface.cpp           | 95 +++++++------------
 2 files changed, 33 insertions(+), 64 deletions(-)

diff --git a/momentumopt/include/momentumopt/cntopt/ContactPlanInterface.hpp b/momentumopt/include/momentumopt/cntopt/ContactPlanInterface.hpp
index a6fcba8..39cf038 100644
--- a/momentumopt/include/momentumopt/cntopt/ContactPlanInterface.hpp
+++ b/momentumopt/include/momentumopt/cntopt/ContactPlanInterface.hpp
@@ -52,8 +52,6 @@ namespace momentumopt {
 
     private:
       double mapIdToContactTime(const DynamicsSequence& dyn_sequence, int map_id);
-      int findMakeContactId(const DynamicsSequence& dyn_seq, const int search_start_id, int eff_id);
-      int findBreakContactId(const DynamicsSequence& dyn_seq, const int search_start_id, int eff_id);
       void findActiveViapoints(Eigen::Vector3d& viapoint_position, int eff_id, int cnt_id);
       void generateFlightPhase(DynamicsSequence& dyn_seq, int start_id, int end_id, int eff_id,
                                const Eigen::Quaternion<double>& qini, const Eigen::Quaternion<double>& qend);
diff --git a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
index 2de2c35..690dc03 100644
--- a/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
+++ b/momentumopt/src/momentumopt/cntopt/ContactPlanInterface.cpp
@@ -58,43 +58,44 @@ namespace momentumopt {
   {
     if (this->getSetting().get(PlannerBoolParam_LoadKinematics))
     {
-      Eigen::Vector3d viapoint_position;
+      const int num_timesteps = this->getSetting().get(PlannerIntParam_NumTimesteps);
       for (int eff_id=0; eff_id<Problem::n_endeffs_; eff_id++) {
-        if (this->contactSequence().numEndeffectorContacts(eff_id)>0) {
-          int ini_id = 0, end_id = 0;
-
-          // configuration of end-effectors first flight phase, when not in contact
-          if (!ini_state.endeffectorActivation(eff_id)) {
-            ini_id = 0;
-            end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
-            this->findActiveViapoints(viapoint_position, eff_id, -1);
-            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), ini_state.endeffectorPosition(eff_id),
-                                this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[0].contactPosition(),
-                                viapoint_position);
-            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, ini_state.endeffectorOrientation(eff_id), contact_sequence_.endeffectorContacts(eff_id)[0].contactOrientation());
-          }
+        int ini_id = 0;
+        while (ini_id<num_timesteps) {
+          if (dynamics_sequence.dynamicsState(ini_id).endeffectorActivation(eff_id)) { ini_id++; continue; }
+
+          // flight phase: maximal set of steps [ini_id, end_id] without contact
+          int end_id = ini_id;
+          while (end_id+1<num_timesteps && !dynamics_sequence.dynamicsState(end_id+1).endeffectorActivation(eff_id)) { end_id++; }
+
+          // contacts it joins, -1 before the first and after the last contact
+          const int prev_id = ini_id>0 ? dynamics_sequence.dynamicsState(ini_id-1).endeffectorContactId(eff_id) : -1;
+          const int next_id = end_id+1<num_timesteps ? dynamics_sequence.dynamicsState(end_id+1).endeffectorContactId(eff_id) : -1;
+
+          if (prev_id>=0 || next_id>=0) {
+            Eigen::Vector3d ini_position = ini_state.endeffectorPosition(eff_id);
+            Eigen::Quaternion<double> ini_orientation = ini_state.endeffectorOrientation(eff_id);
+            if (prev_id>=0) {
+              ini_position = contact_sequence_.endeffectorContacts(eff_id)[prev_id].contactPosition();
+              ini_orientation = contact_sequence_.endeffectorContacts(eff_id)[prev_id].contactOrientation();
+            }
 
-          // configuration of end-effectors during flight phases
-          for (int cnt_id=0; cnt_id<contact_sequence_.numEndeffectorContacts(eff_id)-1; cnt_id++) {
-            ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
-            end_id = findMakeContactId(dynamics_sequence, ini_id, eff_id);
-            this->findActiveViapoints(viapoint_position, eff_id, cnt_id);
-            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactPosition(),
-                                this->mapIdToContactTime(dynamics_sequence, end_id+1), contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactPosition(),
-                                viapoint_position);
-            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, contact_sequence_.endeffectorContacts(eff_id)[cnt_id].contactOrientation(), contact_sequence_.endeffectorContacts(eff_id)[cnt_id+1].contactOrientation());
-          }
+            Eigen::Vector3d end_position = ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion);
+            Eigen::Quaternion<double> end_orientation = ini_state.endeffectorOrientation(eff_id);
+            if (next_id>=0) {
+              end_position = contact_sequence_.endeffectorContacts(eff_id)[next_id].contactPosition();
+              end_orientation = contact_sequence_.endeffectorContacts(eff_id)[next_id].contactOrientation();
+            }
 
-          // configuration of end-effectors last flight phase, when not in contact
-          if (!dynamics_sequence.dynamicsState(this->getSetting().get(PlannerIntParam_NumTimesteps)-1).endeffectorActivation(eff_id)) {
-            ini_id = findBreakContactId(dynamics_sequence, end_id, eff_id);
-            end_id = this->getSetting().get(PlannerIntParam_NumTimesteps)-1;
-            this->findActiveViapoints(viapoint_position, eff_id, contact_sequence_.numEndeffectorContacts(eff_id)-1);
-            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), contact_sequence_.endeffectorContacts(eff_id).back().contactPosition(),
-                                this->mapIdToContactTime(dynamics_sequence, end_id+1), ini_state.endeffectorPosition(eff_id)+this->getSetting().get(PlannerVectorParam_CenterOfMassMotion),
+            // half way by default, when the plan specifies no viapoint
+            Eigen::Vector3d viapoint_position = 0.5*(ini_position+end_position);
+            this->findActiveViapoints(viapoint_position, eff_id, prev_id);
+            sw_traj_.initialize(this->mapIdToContactTime(dynamics_sequence, ini_id+1), ini_position,
+                                this->mapIdToContactTime(dynamics_sequence, end_id+1), end_position,
                                 viapoint_position);
-            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, contact_sequence_.endeffectorContacts(eff_id).back().contactOrientation(), ini_state.endeffectorOrientation(eff_id));
+            this->generateFlightPhase(dynamics_sequence, ini_id, end_id, eff_id, ini_orientation, end_orientation);
           }
+          ini_id = end_id+1;
         }
       }
     }
@@ -108,36 +109,6 @@ namespace momentumopt {
     return mapped_time;
   }
 
-  int ContactPlanInterface::findMakeContactId(const DynamicsSequence& dyn_sequence, const int search_start_id, int eff_id)
-  {
-	int make_cnt_id = 0, search_id = search_start_id;
-  	while (true) {
-  	  if (dyn_sequence.dynamicsState(search_id).endeffectorActivation(eff_id)==false &&
-  		  dyn_sequence.dynamicsState(search_id+1).endeffectorActivation(eff_id)==true )
-  	  {
-  		make_cnt_id = search_id;
-  		break;
-  	  }
-      search_id++;
-  	}
-  	return make_cnt_id;
-  }
-
-  int ContactPlanInterface::findBreakContactId(const DynamicsSequence& dyn_sequence, const int search_start_id, int eff_id)
-  {
-	int break_cnt_id = 0, start_id = search_start_id;
-  	while (true) {
-  	  if (dyn_sequence.dynamicsState(start_id  ).endeffectorActivation(eff_id)==true  &&
-  		  dyn_sequence.dynamicsState(start_id+1).endeffectorActivation(eff_id)==false )
-  	  {
-  		break_cnt_id = start_id+1;
-  		break;
-  	  }
-  	start_id++;
-  	}
-  	return break_cnt_id;
-  }
-
   void ContactPlanInterface::findActiveViapoints(Eigen::Vector3d& viapoint_position, int eff_id, int cnt_id)
   {
     for (int via_id=0; via_id<this->viapointSequence().numEndeffectorViapoints(eff_id); via_id++)
-- 
2.43.0


From 4503f53a0fe5ad91a7456d09b3e621be03da5b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 25/49] fix: the foot contact plan contains every stance

Contacts that last until the end of the horizon were dropped, feet that start
in the air had stance and flight inverted and feet that never move crashed.
---
 .../kinoptpy/momentum_kinematics_optimizer.py | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index a8309fe..56bfc07 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -47,27 +47,30 @@ class EndeffectorTrajectoryGenerator(object):
         contact_plan = {}
         for i, eff in enumerate(mom_kin_optimizer.eff_names):
             contact_plan[eff] = []
-            start_time = 0.
-            count = 1
-            for it in range(mom_kin_optimizer.num_time_steps-1):
-                current_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it].effActivation(i)
-                last_contact_activation = mom_kin_optimizer.dynamic_sequence.dynamics_states[it+1].effActivation(i)
-                if not current_contact_activation == last_contact_activation:
-                    if (count%2 == 0):
-                        start_time = it+1
-                    elif (count%2 == 1 or it == mom_kin_optimizer.num_time_steps-1):
-                        end_time = it
-                        plan = [start_time, end_time, mom_kin_optimizer.dynamic_sequence.dynamics_states[it].eff(i)]
-                        contact_plan[eff].append(plan)
-                    count += 1
+            # One entry [first step, last step, position] per foothold: consecutive active
+            # steps at the same position, wherever they lie within the horizon.
+            for it in range(mom_kin_optimizer.num_time_steps):
+                state = mom_kin_optimizer.dynamic_sequence.dynamics_states[it]
+                if not state.effActivation(i):
+                    continue
+                plans = contact_plan[eff]
+                if plans and plans[-1][1] == it - 1 and np.array_equal(plans[-1][2], state.eff(i)):
+                    plans[-1][1] = it
+                else:
+                    plans.append([it, it, np.array(state.eff(i))])
         return contact_plan
 
 
     def generate_eff_traj(self, mom_kin_optimizer, contact_plan):
         eff_traj_poly = {}
-        for eff in mom_kin_optimizer.eff_names:
+        for eff_id, eff in enumerate(mom_kin_optimizer.eff_names):
             num_contacts = len(contact_plan[eff])
             poly_traj = [PolynominalList(), PolynominalList(), PolynominalList()]
+            if num_contacts == 0:
+                # Never in contact: hold the first planned position.
+                position = mom_kin_optimizer.dynamic_sequence.dynamics_states[0].eff(eff_id)
+                for idx in range(3):
+                    poly_traj[idx].append([0, mom_kin_optimizer.num_time_steps], constant_poly(position[idx]))
             for i in range(num_contacts):
                 # Create a constant polynominal for endeffector on the ground.
                 t = [contact_plan[eff][i][0], contact_plan[eff][i][1]]
-- 
2.43.0


From 04968ddfcaeb4da827d87fb29ec9968361c96e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 26/49] fix: swing polynomials are fitted on normalised time

The fit lost all accuracy some hundred steps into the horizon.
---
 .../momentumopt/kinoptpy/min_jerk_traj.py     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py b/momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py
index 31b40e4..72a5b2f 100644
--- a/momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py
+++ b/momentumopt/python/momentumopt/kinoptpy/min_jerk_traj.py
@@ -16,6 +16,8 @@ class Polynomial:
     def __init__(self, coeffs=None):
         self.fitted = False
         self.coeffs = coeffs
+        # The coefficients are those of a polynomial in (x - shift) / scale.
+        self.shift, self.scale = 0., 1.
         if not coeffs is None:
             self.order = self.coeffs.shape[0] - 1
             self.fitted = True
@@ -32,6 +34,12 @@ class Polynomial:
         else:
             raise ValueError("Order of polynomial is not specified.")
 
+    def set_domain(self, x_0, x_1):
+        # Normalize the variable such that x_0 and x_1 map to 0 and 1. This keeps the
+        # fit well conditioned however far from zero the domain lies.
+        self.shift = float(x_0)
+        self.scale = float(x_1 - x_0)
+
     def get_coeffs(self):
         return self.coeffs
 
@@ -50,6 +58,7 @@ class Polynomial:
     def eval(self, x):
         if not self.fitted:
             raise ValueError("Polynomial has not been fitted yet.")
+        x = (x - self.shift) / self.scale
         return np.sum(np.power(x, self.coeffs[:, 1]) * self.coeffs[:, 0])
 
     def deval(self, x):
@@ -62,7 +71,8 @@ class Polynomial:
             return 0.
         else:
             coeffs = self.differentiate()
-            return np.sum(np.power(x, coeffs[:, 1]) * coeffs[:, 0])
+            x = (x - self.shift) / self.scale
+            return np.sum(np.power(x, coeffs[:, 1]) * coeffs[:, 0]) / self.scale
 
     def set_constraints(self, x_values, y_values, derivative_orders):
         for i in range(len(x_values)):
@@ -86,16 +96,17 @@ class Polynomial:
         coeffs_prime_prime = poly_prime.differentiate()
 
         for i, constraint in enumerate(self.constraints):
+            x = (constraint[0] - self.shift) / self.scale
             if constraint[-1] == 0:
-                A[i, :] = np.power(constraint[0], self.coeffs[:, 1]) * self.coeffs[:, 0]
+                A[i, :] = np.power(x, self.coeffs[:, 1]) * self.coeffs[:, 0]
             elif constraint[-1] == 1:
-                A[i, :] = np.power(constraint[0], coeffs_prime[:, 1]) * coeffs_prime[:, 0]
+                A[i, :] = np.power(x, coeffs_prime[:, 1]) * coeffs_prime[:, 0]
             elif constraint[-1] == 2:
-                A[i, :] = np.power(constraint[0], coeffs_prime_prime[:, 1]) * coeffs_prime_prime[:, 0]
+                A[i, :] = np.power(x, coeffs_prime_prime[:, 1]) * coeffs_prime_prime[:, 0]
             else:
                 raise ValueError("Derivative not specificed")
 
-            b[i] = constraint[1]
+            b[i] = constraint[1] * self.scale ** constraint[-1]
 
         x = np.linalg.solve(A, b)
         # self.coeffs = coeff.copy()
@@ -150,6 +161,7 @@ def constant_poly(y_const):
 def poly_points(t, y_from, y_to, via=None):
     constraints = create_constraints(t, [y_from, y_to], via=via)
     poly = Polynomial()
+    poly.set_domain(t[0], t[1])
     poly.set_constraints(constraints[:, 0], constraints[:, 1], constraints[:, 2])
     poly.fit()
     return poly
-- 
2.43.0


From ab8cb77fc51a004723ebd00f7864da0eaf023ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 27/49] fix: a via point at the end of the horizon

made the polynomial of the remaining, empty interval singular.
---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index 56bfc07..a1e24e9 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -146,7 +146,7 @@ class TrajectoryInterpolator(object):
                     self.poly_traj[j].append(t, poly)
                 elif(i==n_via):
                     t = [q_via[i-1][0]/dt, self.num_time_steps]
-                    if t[0] != t[1]: # Avoid singular results at the end.
+                    if t[1] - t[0] > 1e-6: # Avoid singular results at the end (times are rounded).
                         poly = poly_points(t, q_via[i-1][j+1], self.end[j])
                         self.poly_traj[j].append(t, poly)
                 else:
-- 
2.43.0


From 0e40adffad995f03f00a7c05a614c5cbbef4b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:44 +0000
Subject: [PATCH 28/49] fix: sign of the derivatives of the centroidal dynamics

diff_x(x1, x2) is x2 minus x1: the derivatives had the opposite sign, and so had
the feedforward terms and value gradients computed with them.
---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index afad18d..692ebf8 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -232,14 +232,14 @@ class CentroidalLqr:
         for i in range(self.nx): 
             dx[i] = self.eps 
             fp = self.integrate_step(t, self.increment_x(x,dx), u)
-            fx[:,i] = self.diff_x(fp, f0)
+            fx[:,i] = self.diff_x(f0, fp)
             dx[i] = 0. 
         fx /= self.eps 
         du = np.zeros(self.m)
         for i in range(self.m): 
             du[i] = self.eps 
             fp = self.integrate_step(t, x, u+du)
-            fu[:,i] = self.diff_x(fp, f0)
+            fu[:,i] = self.diff_x(f0, fp)
             du[i] = 0.
         fu /= self.eps 
         return fx, fu  
-- 
2.43.0


From 1385896343a0c78eafe8cf2e4153ca28671a48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:44 +0000
Subject: [PATCH 29/49] fix: second derivative of the cost of the centroidal
 LQR

The column perturbation was not undone but doubled, and accumulated over the
columns of a row.
---
 momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
index 692ebf8..13b422b 100644
--- a/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
+++ b/momentumopt/python/momentumopt/kinoptpy/lqr_gain_manifold.py
@@ -295,7 +295,7 @@ class CentroidalLqr:
                 spp = self.cost(t, self.increment_x(x,dx1), u)
                 dx1[col] -= 2*self.eps 
                 spm = self.cost(t, self.increment_x(x,dx1), u)
-                dx1[col] -= self.eps 
+                dx1[col] += self.eps 
                 # 
                 dx2[col] += self.eps
                 smp = self.cost(t, self.increment_x(x,dx2), u)
-- 
2.43.0


From ffc005c7201c7be83445543a3b3e914a4b355d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:22 +0000
Subject: [PATCH 30/49] fix: the joint velocities of a plan are written

quadruped_velocities.dat next to the joint positions held the end effector
velocities, which have their own file, and the joint velocities were lost.
---
 momentumopt/python/momentumopt/kinoptpy/create_data_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
index 49bcc7a..5537abf 100644
--- a/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
+++ b/momentumopt/python/momentumopt/kinoptpy/create_data_file.py
@@ -177,7 +177,7 @@ def create_qp_files(time_vector, optimized_motion_eff, optimized_sequence, optim
 
         print("saving trajectories....")
         np.savetxt("quadruped_positions.dat", desired_joint_positions)
-        np.savetxt("quadruped_velocities.dat", des_velocities_final)
+        np.savetxt("quadruped_velocities.dat", desired_joint_velocities)
         np.savetxt("quadruped_positions_eff.dat", des_positions_final)
         np.savetxt("quadruped_velocities_eff.dat", des_velocities_final)
         np.savetxt("quadruped_com.dat", des_com)
-- 
2.43.0


From 89b803c5a40bdf7121babd10eb65e30d4a0d932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:26 +0000
Subject: [PATCH 31/49] fix: second-order inverse kinematics fed back a stale
 centroidal momentum

data.hg is not updated by the calls in update_kinematics, so the momentum
feedback compared the reference with zero (or with the value left by an
earlier call). Use the momentum of the current state.
---
 momentumopt/python/momentumopt/kinoptpy/second_order_ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
index b3fae41..981f152 100644
--- a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
+++ b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
@@ -77,7 +77,7 @@ class SecondOrderInverseKinematics(object):
         measured_op_space_velocities = self.J @ dq
 
         # get the ref momentum acc
-        self.desired_acceleration[:6] = dmom_ref + np.diag(self.p_mom_tracking) @ (mom_ref - self.robot.data.hg)
+        self.desired_acceleration[:6] = dmom_ref + np.diag(self.p_mom_tracking) @ (mom_ref - measured_op_space_velocities[:6])
 
         # com part
         self.desired_acceleration[:3] += self.p_com_tracking * (com_ref - self.robot.com(q))
-- 
2.43.0


From 2cc0fecd90e876c49ddbd89a6264081ce494f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 32/49] fix: store every planned state at its own time step

storeSolution wrote centre of mass and momenta one step late and past the end of the sequence.
---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e150484..ab17ce1 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -625,17 +625,16 @@ namespace momentumopt {
   void DynamicsOptimizer::storeSolution()
   {
 	com_.getGuessValue(mat_guess_);
-  dynamicsSequence().dynamicsState(0).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,0));
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).centerOfMass() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	lmom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).linearMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
 	amom_.getGuessValue(mat_guess_);
     for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
-      dynamicsSequence().dynamicsState(time_id+1).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
+      dynamicsSequence().dynamicsState(time_id).angularMomentum() = Eigen::Vector3d(mat_guess_.block<3,1>(0,time_id));
 
     if (this->getSetting().heuristic() == Heuristic::TimeOptimization) {
   	  dt_.getGuessValue(mat_guess_);
-- 
2.43.0


From d3459795a7f27799920dbf42bf1e6c1e03eff09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 33/49] fix: look up the contact of a foot only while it is
 active

The friction-cone loop read the contact type of inactive feet, outside the contact plan.
---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index ab17ce1..e30cb21 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -296,8 +296,8 @@ namespace momentumopt {
       // friction cone constraints
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
         for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
-          if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
-            if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+          if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
+            if (this->contactType(time_id, eff_id) != ContactType::FullContact) {
               Eigen::Matrix3d eff_rotation = this->contactRotation(time_id, eff_id);
               if (this->getSetting().get(PlannerBoolParam_IsFrictionConeLinear)) {  // using a linear representation
                 Eigen::Matrix<double,4,3> rotated_cone_matrix_ = cone_matrix_*eff_rotation.transpose();
-- 
2.43.0


From 5bb7379a1e2fb2a8ddd4f91eebebaa1fb1292415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 34/49] fix: height reference of the centre of mass when the
 first foot starts in the air

The contact of an inactive foot was read, outside the contact plan.
---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index e30cb21..a550550 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -258,8 +258,9 @@ namespace momentumopt {
       model_.setObjective(quad_objective_, 0.0);
 
       // center of mass above endeffector positions
+      const double ref_height = dynamicsSequence().dynamicsState(0).endeffectorActivation(0) ? this->contactLocation(0, 0, 2) : ini_state_.endeffectorPosition(0).z();
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
-        model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(this->contactLocation(0, 0, 2)), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
+        model_.addLinConstr(LinExpr(vars_[com_.id(2,time_id)]) - LinExpr(ref_height), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
         //for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
         //  if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
         //      model_.addLinConstr(vars_[com_.id(2,time_id)] - this->contactLocation(time_id, eff_id, 2), ">", this->getSetting().get(PlannerDoubleParam_MinRelHeight));
-- 
2.43.0


From bf5daa6b98591ea1d26b5bbc0572eeeb16118bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 35/49] fix: leave no force of a previous plan at steps without
 contact

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index a550550..6f329a4 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -652,6 +652,14 @@ namespace momentumopt {
     }
 
     for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
+      // nothing is left from a previous plan at time steps without contact
+      for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++) {
+        dynamicsSequence().dynamicsState(time_id).endeffectorForce(eff_id).setZero();
+        dynamicsSequence().dynamicsState(time_id).endeffectorCoP(eff_id).setZero();
+        dynamicsSequence().dynamicsState(time_id).endeffectorTorque(eff_id).setZero();
+        dynamicsSequence().dynamicsState(time_id).endeffectorTorqueAtContactPoint(eff_id).setZero();
+      }
+
       frc_world_[eff_id].getGuessValue(mat_guess_);
       for (int time_id=0; time_id<this->getSetting().get(PlannerIntParam_NumTimesteps); time_id++)
         if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
-- 
2.43.0


From 0b80d9368036d68b776815a29293a4903f3e1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 36/49] fix: angular momentum of a time-optimised plan uses the
 optimised time steps

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 6f329a4..7ce8d39 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -576,7 +576,8 @@ namespace momentumopt {
       	  frc.y() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(1,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
       	  frc.z() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(2,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
       	  trq     = rz * vars_[trq_local_[eff_id].id(0,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
-      	  angmom.col(time_id).head(3) += dynamicsSequence().dynamicsState(time_id).time()*(len.cross(frc)+trq);
+      	  const double time_step = this->getSetting().heuristic() == Heuristic::TimeOptimization ? vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X) : dynamicsSequence().dynamicsState(time_id).time();
+      	  angmom.col(time_id).head(3) += time_step*(len.cross(frc)+trq);
         }
       }
     }
-- 
2.43.0


From 13f6e97e8f30896fdc29d97d75502b9e9504cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 37/49] fix: external force in time-optimised plans

---
 momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
index 7ce8d39..8d2aecd 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsOptimizer.cpp
@@ -392,6 +392,7 @@ namespace momentumopt {
             lin_cons_ = LinExpr(this->getSetting().get(PlannerDoubleParam_RobotMass)*this->getSetting().get(PlannerVectorParam_GravityVector)[axis_id]) - LinExpr(vars_[lmomd_.id(axis_id,time_id)]);
             for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
               if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) { lin_cons_ += LinExpr(vars_[frc_world_[eff_id].id(axis_id,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))])*this->getSetting().get(PlannerDoubleParam_MassTimesGravity); }
+            if (time_id==0) { lin_cons_ += LinExpr(this->getSetting().get(PlannerVectorParam_ExternalForce)[axis_id]*this->getSetting().get(PlannerDoubleParam_MassTimesGravity)); }
             model_.addLinConstr(lin_cons_, "=", 0.0);
           }
 
@@ -539,6 +540,7 @@ namespace momentumopt {
         }
 
         linmom.col(time_id) += this->getSetting().get(PlannerDoubleParam_RobotMass)*this->getSetting().get(PlannerVectorParam_GravityVector)*vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X);
+        if (time_id==0) { linmom.col(time_id) += this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*this->getSetting().get(PlannerVectorParam_ExternalForce)*vars_[dt_.id(0,time_id)].get(SolverDoubleParam_X); }
         for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++) {
           if (dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id)) {
           	frc.x() = this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*vars_[frc_world_[eff_id].id(0,dynamicsSequence().dynamicsState(time_id).endeffectorActivationId(eff_id))].get(SolverDoubleParam_X);
-- 
2.43.0


From bf140cace94272e798e35bb587415d089cb37db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 38/49] fix: states of an earlier problem left in a resized
 state sequence

---
 solver_lqr/src/solver_lqr/OcpDescription.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver_lqr/src/solver_lqr/OcpDescription.cpp b/solver_lqr/src/solver_lqr/OcpDescription.cpp
index 05e3444..489f29d 100644
--- a/solver_lqr/src/solver_lqr/OcpDescription.cpp
+++ b/solver_lqr/src/solver_lqr/OcpDescription.cpp
@@ -66,6 +66,7 @@ namespace solverlqr
   // StateSequence functions
   void StateSequence::resize(int tdim, int xdim)
   {
+	stateseq_.clear();
 	StateBase state(xdim);
 	for (int time=0; time<tdim; time++)
 	  stateseq_.push_back(state);
-- 
2.43.0


From fe225c726bfa814231447680715aa4bf37badeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 39/49] fix: LQR solver initialised again keeps differentiating
 the first problem

---
 solver_lqr/src/solver_lqr/FiniteDifferences.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
index c670e41..f1e24e0 100644
--- a/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
+++ b/solver_lqr/src/solver_lqr/FiniteDifferences.cpp
@@ -15,7 +15,12 @@ namespace solverlqr
 		  bool compute_objective_first_derivatives, bool compute_dynamics_first_derivatives,
 		  bool compute_objective_second_derivatives, bool compute_dynamics_second_derivatives)
   {
-	if (!is_initialized_) {
+	// nothing is kept of a problem this object was initialized with before
+	fx_seq_.clear();   fu_seq_.clear();
+	cx_seq_.clear();   cu_seq_.clear();
+	fxx_seq_.clear();  fxu_seq_.clear();  fuu_seq_.clear();
+	cxx_seq_.clear();  cxu_seq_.clear();  cuu_seq_.clear();
+
 	  is_initialized_ = true;
 	  ocp_ = ocp_description;
 	  compute_dynamics_first_derivatives_ = compute_dynamics_first_derivatives;
@@ -48,7 +53,6 @@ namespace solverlqr
         cxu_seq_.push_back(Eigen::MatrixXd::Zero(xdim_, udim_));
         cuu_seq_.push_back(Eigen::MatrixXd::Zero(udim_, udim_));
       }
-    }
   }
 
   void FiniteDifferences::computeDerivatives()
-- 
2.43.0


From 2b78ed6f554a51a417185112272bae9a6f72f1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 40/49] fix: LQR success by small gradient reported without a
 backward pass

---
 solver_lqr/src/solver_lqr/SolverLqr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver_lqr/src/solver_lqr/SolverLqr.cpp b/solver_lqr/src/solver_lqr/SolverLqr.cpp
index d85e516..0014027 100644
--- a/solver_lqr/src/solver_lqr/SolverLqr.cpp
+++ b/solver_lqr/src/solver_lqr/SolverLqr.cpp
@@ -91,7 +91,7 @@ namespace solverlqr {
 
       // Check for termination due to small gradient
       this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) = ControlSequence::controlSequenceGradientNorm(this->getBackPass().controlSeq(), this->getOcp().controlSeq());
-      if (this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) < this->getLqrSetting().get(SolverLqrDoubleParam_ControlGradientTolerance)) {
+      if (backpass_flag_ && this->getLqrInfo().get(SolverLqrDoubleParam_ControlGradient) < this->getLqrSetting().get(SolverLqrDoubleParam_ControlGradientTolerance)) {
         this->getPrinter().display(MsgLqr::SUCC_gradient, this->getLqrInfo());
         break;
       }
-- 
2.43.0


From 262c19d069666098fc7d6bf20f01903b96af2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 41/49] fix: control-limited LQR step halved and never negative

---
 solver_lqr/src/solver_lqr/BackwardPass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver_lqr/src/solver_lqr/BackwardPass.cpp b/solver_lqr/src/solver_lqr/BackwardPass.cpp
index 01608c6..b9dc33c 100644
--- a/solver_lqr/src/solver_lqr/BackwardPass.cpp
+++ b/solver_lqr/src/solver_lqr/BackwardPass.cpp
@@ -112,7 +112,7 @@ namespace solverlqr
     model_.clean();
     for (int var_id=0; var_id<udim_; var_id++) {
       vars_.push_back(solver::Var());
-      vars_[var_id] = model_.addVar(solver::VarType::Continuous, 0.0, 1.0, 0.5);
+      vars_[var_id] = model_.addVar(solver::VarType::Continuous, -solver::SolverSetting::inf, solver::SolverSetting::inf, 0.0);
     }
 
     quad_expr_.clear();
@@ -120,7 +120,7 @@ namespace solverlqr
       lin_expr_ = 0.0;
       for (int row_id=0; row_id<udim_; row_id++)
         lin_expr_ += chol_hessian(row_id,col_id)*vars_[row_id];
-      quad_expr_.addQuaTerm(1.0, lin_expr_);
+      quad_expr_.addQuaTerm(0.5, lin_expr_);
       quad_expr_.addLinTerm(gradient[col_id]*vars_[col_id]);
     }
     model_.setObjective(quad_expr_, 0.0);
-- 
2.43.0


From 03fb5779468a30d7065c1af1198c435f3f6e0dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 42/49] fix: feedback problem reads a contact beyond the last
 step

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index f3c7f90..e0a8afb 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -66,7 +66,7 @@ namespace momentumopt {
 
 	double objective = 0.0;
     for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
-      if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
+      if (!is_final_timestep && this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
         objective += control.feedforward().segment<3>(3*eff_id).dot( control_cost_*(control.feedforward().segment<3>(3*eff_id)) );
 
     if (time_id>0) {
-- 
2.43.0


From 997cd69682e793a9bccca2373287299bd2738628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:54 +0000
Subject: [PATCH 43/49] fix: feedback gains of an earlier plan used in the
 initial roll-out

---
 momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
index e0a8afb..6a40b5e 100644
--- a/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
+++ b/momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp
@@ -29,6 +29,7 @@ namespace momentumopt {
 
     for (int time_id=0; time_id<this->dynamicsSequence().size(); time_id++) {
       this->controlSeq().control(time_id).feedforward().setZero();
+      this->controlSeq().control(time_id).feedback().setZero();
       for (int eff_id=0; eff_id<this->getSetting().get(PlannerIntParam_NumActiveEndeffectors); eff_id++)
         if (this->dynamicsSequence().dynamicsState(time_id).endeffectorActivation(eff_id))
           this->controlSeq().control(time_id).feedforward().segment<3>(3*eff_id) =  this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*this->dynamicsSequence().dynamicsState(time_id).endeffectorForce(eff_id);
-- 
2.43.0


From 0c3d510996659106fb194c0a9c616924f0733e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:49 +0000
Subject: [PATCH 44/49] fix: endeffector velocities at the stored state

motion_eff['velocity'] multiplied the joint velocities of a step with the Jacobian
left by the previous inverse kinematics call, i.e. of another posture (with the
second order inverse kinematics even of the initial one).
---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index a1e24e9..e6ffcca 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -254,7 +254,7 @@ class MomentumKinematicsOptimizer(object):
 
         # The endeffector informations as well.
         self.motion_eff['trajectory'][it] = framesPos(self.inv_kin.endeff_ids)
-        self.motion_eff['velocity'][it] = self.inv_kin.J[6:(self.inv_kin.ne + 2) * 3].dot(dq).T
+        self.motion_eff['velocity'][it] = framesVel(self.inv_kin.endeff_ids)
 
         self.motion_eff['trajectory_wrt_base'][it] = \
             self.motion_eff['trajectory'][it] - framesPos(self.hip_ids)
-- 
2.43.0


From 8a80fa4ba75cb097cbe0914a2ba68a6c13ce93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:49 +0000
Subject: [PATCH 45/49] fix: momentum references of flight phases

A plan that starts in the air ended in an UnboundLocalError, and the references of
a flight phase were written into the momentum of the dynamic plan (lmom_dyn).
---
 .../momentumopt/kinoptpy/momentum_kinematics_optimizer.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
index e6ffcca..3dd3b7a 100644
--- a/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
+++ b/momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py
@@ -378,6 +378,10 @@ class MomentumKinematicsOptimizer(object):
                 self.inv_kin.forward_robot(q, dq)
                 self.fill_kinematic_result(it, q, dq)
         else:
+            # A plan may start in the air: then the initial state is in free fall.
+            lmom_ref = np.array(init_state.lmom)
+            mom_ref_flight = np.hstack([init_state.lmom, init_state.amom])
+
             for it in range(self.num_time_steps):
                 quad_goal = se3.Quaternion(se3.rpy.rpyToMatrix(np.matrix(self.base_des[:,it]).T))
                 quad_q = se3.Quaternion(float(q[6]), float(q[3]), float(q[4]), float(q[5]))
@@ -395,7 +399,7 @@ class MomentumKinematicsOptimizer(object):
                     amom_ref = mom_ref_flight[3:6]
                     lmom_ref[2] -= self.planner_setting.get(PlannerDoubleParam_RobotWeight) * self.dt
                 else:
-                    lmom_ref = self.lmom_dyn[it]
+                    lmom_ref = self.lmom_dyn[it].copy()
                     amom_ref = (self.reg_orientation * se3.log((quad_goal * quad_q.inverse()).matrix()).T + self.amom_dyn[it]).reshape(-1)
 
                 joint_regularization_ref = self.reg_joint_position * (self.joint_des[:,it] - q[7 : ])
-- 
2.43.0


From b5a56fc395c50964b2efc20ac94e2f6a111e0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:49 +0000
Subject: [PATCH 46/49] fix: second order inverse kinematics advances by the
 time step

The number of inner steps of one millisecond was truncated (8 for a time step of
0.009), so that the motion lagged ever further behind the references.
---
 momentumopt/python/momentumopt/kinoptpy/second_order_ik.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
index 981f152..83a45e3 100644
--- a/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
+++ b/momentumopt/python/momentumopt/kinoptpy/second_order_ik.py
@@ -195,8 +195,9 @@ class SecondOrderInverseKinematics(object):
         dq_kin = np.zeros([num_time_steps,dq_init.shape[0]])
         ddq_kin = np.zeros_like(dq_kin)
 
-        inner_steps = int(dt/0.001)
-        inner_dt = 0.001
+        # Inner steps of about a millisecond that add up to dt.
+        inner_steps = max(1, int(round(dt/0.001)))
+        inner_dt = dt / inner_steps
         time = np.linspace(0., (num_time_steps-1)*dt, num_time_steps)
         splined_com_ref = CubicSpline(time, com_ref)
         splined_lmom_ref = CubicSpline(time, lmom_ref)
-- 
2.43.0


From f6d9d90b73085e09bfe62d9d1c8987f07f2bad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:48 +0000
Subject: [PATCH 47/49] fix: endeffector ids in the Python module of contacts

The property named value collided with the enum's values: importing pymomentum failed.
---
 momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp b/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp
index 7b6960d..c275ff5 100644
--- a/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp
+++ b/momentumopt/srcpy/momentumopt/cntopt/PyContacts.cpp
@@ -30,13 +30,15 @@ void init_contacts(py::module &m)
     .value("FullContact", ContactType::FullContact)
     .export_values();
 
-  py::enum_<Problem::EffId>(m, "EffId")
+  py::enum_<Problem::EffId> eff_id(m, "EffId");
+  eff_id
     .value("right_foot", Problem::EffId::id_right_foot)
     .value("left_foot", Problem::EffId::id_left_foot)
     .value("right_hand", Problem::EffId::id_right_hand)
     .value("left_hand", Problem::EffId::id_left_hand)
-    .export_values()
-    .def("value",   [](const Problem::EffId& id) { return static_cast<int>(id); });
+    .export_values();
+  // replaces the property of that name that enum_ defines, which def() cannot overload
+  eff_id.attr("value") = py::cpp_function([](const Problem::EffId& id) { return static_cast<int>(id); }, py::is_method(eff_id));
  
   // binding of contacts state
   py::class_<ContactState>(m, "ContactState")
-- 
2.43.0


From c7b39b1b0c4aca82f3b58c3f334cf3abbc34a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:48 +0000
Subject: [PATCH 48/49] fix: setEffTorque of the Python dynamics state sets the
 torque

---
 momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
index 9cad0c6..8990be2 100644
--- a/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
+++ b/momentumopt/srcpy/momentumopt/dynopt/PyDynamics.cpp
@@ -26,7 +26,7 @@ static void setEffForce(DynamicsState& self, const int effId, const Eigen::Vecto
   self.endeffectorForce(effId) = force;
 }
 static void setEffTorque(DynamicsState& self, const int effId, const Eigen::Vector3d& torque){
-  self.endeffectorPosition(effId) = torque;
+  self.endeffectorTorque(effId) = torque;
 }
 static void setEffActivation(DynamicsState& self, const int effId, const bool activation){
   self.endeffectorActivation(effId) = activation;
-- 
2.43.0


From b357c4ec8ae86f7e3bae0cc8c0556407a2c49589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:30 +0000
Subject: [PATCH 49/49] fix: rotation of terrain regions that are not
 rectangles

---
 momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
index 7f651d2..d70c436 100644
--- a/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
+++ b/momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp
@@ -48,6 +48,7 @@ namespace momentumopt {
     aux1 = ccwvertices.row(0) - ccwvertices.row(1);
     aux2 = ccwvertices.row(1) - ccwvertices.row(2);
     normal = aux1.cross(aux2);
+    aux2 = normal.cross(aux1); // edges need not be perpendicular
     rotation_.row(0) = aux1 / aux1.norm();
     rotation_.row(1) = aux2 / aux2.norm();
     rotation_.row(2) = normal / normal.norm();
-- 
2.43.0

