From a42270b319268987e3e380133b53aad9975076df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 01/38] fix: do not discard a failed structure call in the
 sparse Jacobian and Hessian evaluations

---
 src/Optimization/hiopNlpFormulation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 5204681..9e2c42b 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1989,6 +1989,10 @@ bool hiopNlpSparse::eval_Jac_c_d_interface_impl(hiopVector& x,
                                      cons_Jac->i_row(), 
                                      cons_Jac->j_col(), 
                                      nullptr);
+      if(!bret) {
+        runStats.tmEvalJac_con.stop();
+        return false;
+      }
       num_jac_eval_++;
     }
     
@@ -2070,6 +2074,10 @@ bool hiopNlpSparse::eval_Hess_Lagr(const hiopVector& x,
                                       pHessL->i_row(),
                                       pHessL->j_col(),
                                       nullptr);
+      if(!bret) {
+        runStats.tmEvalHessL.stop();
+        return false;
+      }
       num_hess_eval_++;
     }
 
-- 
2.43.0


From 82fbc47bbd6b605a49da1634874c2c6bb42d559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 02/38] fix: report Error_In_User_Function when a user
 evaluation fails in the starting procedure, second-order correction or
 feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 57 +++++++++++++++++++++------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 973c6d4..9918f5e 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -344,7 +344,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -363,7 +362,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
   // do function evaluation again after we adjust the primals and/or add scaling
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -425,7 +423,9 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   //we have the duals
   if(!this->evalNlp_HessOnly(it_ini, *_Hess_Lagr)) {
-    assert(false);
+    nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
+    nlp->runStats.tmStartingPoint.stop();
+    nlp->runStats.tmSolverInternal.stop();
     return false;
   }
 
@@ -1000,7 +1000,11 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //
   if(nlp->options->GetString("checkpoint_load_on_start") != "yes" && !load_state_api_called_) {
     //this also evaluates the nlp
-    startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+    if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
+      return solver_status_;
+    }
     _mu=mu0;
     iter_num_total_ = 0;
   } else {
@@ -1015,7 +1019,11 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
         iter_num_total_ = 0;
         //fall back on the default starting procedure (it also evaluates the nlp)
-        startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+        if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+          solver_status_ = Error_In_User_Function;
+          nlp->runStats.tmOptimizTotal.stop();
+          return solver_status_;
+        }
         _mu=mu0;
         iter_num_total_ = 0;
       }
@@ -1028,6 +1036,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     //additionally: need to evaluate the nlp
     if(!this->evalNlp_noHess(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
       nlp->log->printf(hovError, "Failure in evaluating user NLP functions at loaded checkpoint.");
+      solver_status_ = Error_In_User_Function;
+      nlp->runStats.tmOptimizTotal.stop();
       return Error_In_User_Function;
     }
     solver_status_ = NlpSolve_SolveNotCalled;
@@ -1349,6 +1359,12 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                                                  grad_phi_dx_soc_computed,
                                                  grad_phi_dx_soc,
                                                  num_adjusted_slacks_soc);
+        if(Error_In_User_Function==lsStatus) {
+          nlp->runStats.tmSolverInternal.stop();
+          nlp->runStats.tmOptimizTotal.stop();
+          delete kkt;
+          return Error_In_User_Function;
+        }
         if(lsStatus>0) {
           num_adjusted_slacks = num_adjusted_slacks_soc;
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
@@ -2139,7 +2155,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
   nlp->runStats.tmOptimizTotal.start();
 
-  startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); //this also evaluates the nlp
+  //this also evaluates the nlp
+  if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+    solver_status_ = Error_In_User_Function;
+    nlp->runStats.tmOptimizTotal.stop();
+    return solver_status_;
+  }
   _mu=mu0;
 
   //update log bar
@@ -2568,6 +2589,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                                                    grad_phi_dx_soc_computed,
                                                    grad_phi_dx_soc,
                                                    num_adjusted_slacks_soc);
+          if(Error_In_User_Function==lsStatus) {
+            nlp->runStats.tmSolverInternal.stop();
+            nlp->runStats.tmOptimizTotal.stop();
+            delete kkt;
+            return Error_In_User_Function;
+          }
           if(lsStatus>0) {
             num_adjusted_slacks = num_adjusted_slacks_soc;
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
@@ -3049,6 +3076,10 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       // variables have already been updated inside the above function
       return true;
     }
+    if(Error_In_User_Function == solver_status_) {
+      // the soft FR stopped because of a failure in the user's functions
+      return false;
+    }
   
     // continue robust FR
     hiopNlpFormulation* nlpFR{nullptr};
@@ -3067,7 +3098,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         }
       } else {
         // this is Sparse linear system
@@ -3079,7 +3110,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         } 
       }
     } else {
@@ -3092,7 +3123,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         // FR succeeds, update it_trial->x and it_trial->d to the next search point
         it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
         it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-        reset_var_from_fr_sol(kkt, reset_dual = true);
+        fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
       }
     }
     delete nlpFR;
@@ -3116,7 +3147,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       fr_solved = false;
     } else {
       nlp->log->printf(hovSummary, "FR problem converged! Now apply LSQ to reset duals.\n");
-      reset_var_from_fr_sol(kkt, reset_dual = false);
+      fr_solved = reset_var_from_fr_sol(kkt, reset_dual = false);
     }
   }
 
@@ -3170,7 +3201,7 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
   if(!this->evalNlp_noHess(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
+    solver_status_ = Error_In_User_Function;
     return false;
   } else {
     nlp->log->printf(hovScalars, "FR: Update slacks and duals from the modified primals.\n");
@@ -3275,7 +3306,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       //evaluate the problem at the trial iterate (functions only)
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
-        return true;
+        return false;
       }
       // compute rhs for soft feasibility restoration. Use resid_trial since it hasn't been used
       resid_trial->update(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f,*_Jac_c,*_Jac_d, *logbar);      
@@ -3297,7 +3328,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
       solver_status_ = Error_In_User_Function;
-      return true;
+      return false;
     }
 
     //update and adjust the duals
-- 
2.43.0


From 7291559d6e14b2f067a557f5516520eac2dee978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 03/38] fix: feasibility restoration problem evaluates the base
 objective at x and propagates base evaluation failures

---
 src/Optimization/hiopFRProb.cpp | 61 +++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index d9039cc..fac2de3 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -250,6 +250,11 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [x pe ne pi ni]
   wrk_x_->copy_from_starting_at(x, 0, n_x_);    // [x]
   
+  // keep a copy of the original objective value; this needs to be done before wrk_x_ is reused below
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
@@ -260,9 +265,6 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -308,8 +310,9 @@ bool hiopFRProbSparse::eval_cons(const size_type& n,
 
   // evaluate c and d
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
-
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
   wrk_c_->axpy(-1.0, *wrk_eq_);
@@ -368,7 +371,9 @@ bool hiopFRProbSparse::eval_Jac_cons(const size_type& n,
     wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(Jac_c, Jac_d, iJacS, jJacS, MJacS);
@@ -403,8 +408,9 @@ bool hiopFRProbSparse::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess);
-    
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess)) {
+      return false;
+    }
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
     wrk_x_->componentMult(*DR_);
@@ -899,6 +905,11 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // [xsp]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // [xde]
   
+  // keep a copy of the original objective value; this needs to be done before wrk_x_ is reused below
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
@@ -909,8 +920,6 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -963,8 +972,9 @@ bool hiopFRProbMDS::eval_cons(const size_type& n,
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [xsp pe ne pi ni xde]
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
-
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
   wrk_c_->axpy(-1.0, *wrk_eq_);
@@ -1034,7 +1044,9 @@ bool hiopFRProbMDS::eval_Jac_cons(const size_type& n,
      wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d, iJacS, jJacS, MJacS, JacD);
@@ -1364,8 +1376,9 @@ bool hiopFRProbMDS::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess);
-    
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess)) {
+      return false;
+    }
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
     wrk_x_->componentMult(*DR_);
@@ -1603,6 +1616,11 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [x pe ne pi ni]
   wrk_x_->copy_from_starting_at(x, 0, n_x_);    // [x]
   
+  // keep a copy of the original objective value; this needs to be done before wrk_x_ is reused below
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
+
   // rho*sum(p+n)
   // FIXME; add global methed. now we only have local method, or sync mpi results here
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
@@ -1620,9 +1638,6 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
-
   return true;
 }
 
@@ -1663,8 +1678,9 @@ bool hiopFRProbDense::eval_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // evaluate base case c and d
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
-
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 #ifdef HIOP_USE_MPI
   // p and n are only located in the last rank
   // compute FR equality constratint body c-pe+ne
@@ -1739,8 +1755,9 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-  nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
-  
+  if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+    return false;
+  }
   // FIXME add set_Jac_FR in hiopMatrixDense
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d);
   
-- 
2.43.0


From 43935f37cebaf18d5ef463594f79923c5070c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 04/38] fix: evaluate the functions at the restored point into
 the trial buffers that the main loop accepts

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 9918f5e..0b1292d 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3199,7 +3199,7 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
 bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_dual)
 {
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
-  if(!this->evalNlp_noHess(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+  if(!this->evalNlp_noHess(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
     solver_status_ = Error_In_User_Function;
     return false;
-- 
2.43.0


From 7c793939184b8734906a2d1bf0e09b4235019a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 05/38] fix: evaluate the derivatives at the point accepted by
 the feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 0b1292d..2075bbb 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3073,7 +3073,11 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
     // try soft FR first
     bool is_soft_fr = solve_soft_feasibility_restoration(kkt);
     if(is_soft_fr) {
-      // variables have already been updated inside the above function
+      // variables have already been updated inside the above function; the derivatives have not
+      if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+        solver_status_ = Error_In_User_Function;
+        return false;
+      }
       return true;
     }
     if(Error_In_User_Function == solver_status_) {
@@ -3256,6 +3260,12 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
     }
   }
 
+  // the FR problem uses the Hessian as a buffer: evaluate it at the restored primals and the updated duals
+  if(!this->evalNlp_HessOnly(*it_trial, *_Hess_Lagr)) {
+    solver_status_ = Error_In_User_Function;
+    return false;
+  }
+
   // set step size to 1
   _alpha_primal = 1.0;
   _alpha_dual = 1.0;
-- 
2.43.0


From 3a23a1399ae19665ea663f38af5163731b1d0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 06/38] fix: leave the linear solve loop when the forced
 feasibility restoration fails

---
 src/Optimization/hiopAlgFilterIPM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 2075bbb..bc04603 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2635,9 +2635,10 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         if(use_fr) {
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
-          nlp->runStats.tmSolverInternal.stop();
-          break;
         }
+        // exit the linear solve (compute_search_direction) loop
+        nlp->runStats.tmSolverInternal.stop();
+        break;
       } else if(lsStatus==1) {
 
         //need to check switching cond and Armijo to decide if filter is augmented
-- 
2.43.0


From 19de56a1c783e282598dd60b78ec3f1ec2b5249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 07/38] fix: log format strings agree with the types and the
 order of their arguments

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 4 ++--
 src/Optimization/hiopHessianLowRank.cpp  | 2 +-
 src/Optimization/hiopKKTLinSys.cpp       | 4 ++--
 src/Optimization/hiopNlpFormulation.cpp  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 9b3eea8..90d3330 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -716,8 +716,8 @@ bool hiopAlgPrimalDecomposition::stopping_criteria(const int it, const double co
   }
   // stopping criteria based on acceptable tolerance and consecutive count
   if(accp_count == accp_count_) {
-    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_count_);
-    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_tol_);
+    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_tol_);
+    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_count_);
     return true;
   }
   return false;
diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index cba17d0..feb8316 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -369,7 +369,7 @@ bool hiopHessianLowRank::update(const hiopIterate& it_curr, const hiopVector& gr
     grad_f_prev_->copyFrom(grad_f_curr_);
     Jac_c_prev_->copyFrom(Jac_c_curr);
     Jac_d_prev_->copyFrom(Jac_d_curr);
-    nlp->log->printf(hovLinAlgScalarsVerb, "hiopHessianLowRank: storing the iteration info as 'previous'\n", s_infnorm);
+    nlp->log->printf(hovLinAlgScalarsVerb, "hiopHessianLowRank: storing the iteration info as 'previous'\n");
 
   } else {
     //this is the first optimization iterate, just save the iterate and exit
diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index d91a3d6..5badfd2 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -337,7 +337,7 @@ bool hiopKKTLinSysCurvCheck::factorize()
     assert(perturb_calc_->check_consistency() && "something went wrong with IC");
 #endif
     if(hovScalars <= nlp_->options->GetInteger("verbosity_level")) {
-      nlp_->log->printf(hovScalars, "linsys: norminf(delta_w)=%12.5e norminf(delta_c)=%12.5e (ic %d)\n",
+      nlp_->log->printf(hovScalars, "linsys: norminf(delta_w)=%12.5e norminf(delta_c)=%12.5e (ic %zu)\n",
                         delta_wx_->infnorm(), delta_cc_->infnorm(), num_refactorization); 
     }
 
@@ -366,7 +366,7 @@ bool hiopKKTLinSysCurvCheck::factorize()
 
   if(num_refactorization>max_refactorization) {
     nlp_->log->printf(hovError,
-        "Reached max number (%d) of refactorization within an outer iteration.\n",
+        "Reached max number (%zu) of refactorization within an outer iteration.\n",
               max_refactorization);
     return false;
   }
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 9e2c42b..22dc7ba 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -266,7 +266,7 @@ bool hiopNlpFormulation::finalizeInitialization()
 #endif
   hiopFixedVarsRemover* fixedVarsRemover = NULL;
   if(nfixed_vars>0) {
-    log->printf(hovWarning, "Detected %lld fixed variables out of a total of %lld.\n", nfixed_vars, n_vars_);
+    log->printf(hovWarning, "Detected %d fixed variables out of a total of %d.\n", nfixed_vars, n_vars_);
 
     if(options->GetString("fixed_var")=="remove") {
       //
@@ -500,7 +500,7 @@ bool hiopNlpFormulation::process_bounds(size_type& n_bnds_low,
             log->printf(hovWarning, 
                         "Lower (%g) and upper bound (%g) for variable %d are very close. "
                         "Consider fixing this variable or increase 'fixed_var_tolerance'.\n",
-                        i, xl_vec[i], xu_vec[i]);
+                        xl_vec[i], xu_vec[i], i);
             nBndsClose++;
           }
         } 
-- 
2.43.0


From 9f1565e3750647eca7018b8765c7ebce84bd9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 08/38] fix: option messages are not used as a format string

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 7ce51f9..9e35991 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -480,9 +480,9 @@ void hiopOptions::log_printf(hiopOutVerbosity v, const char* format, ...)
   va_start (args, format);
   vsnprintf(buff,1024,format, args);
   if(log_) {
-    log_->printf(v,buff);
+    log_->printf(v, "%s", buff);
   } else {
-    hiopLogger::printf_error(v,buff);
+    hiopLogger::printf_error(v, "%s", buff);
   }
   //fprintf(stderr,buff);
   va_end (args);
-- 
2.43.0


From d5e5651232e58b60fa8a319f06568624a13b359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 09/38] fix: the residual copy carries the constraint violation

---
 src/Optimization/hiopResidual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopResidual.cpp b/src/Optimization/hiopResidual.cpp
index f5a56c0..8309496 100644
--- a/src/Optimization/hiopResidual.cpp
+++ b/src/Optimization/hiopResidual.cpp
@@ -418,6 +418,7 @@ void hiopResidual::copyFrom(const hiopResidual& resid_src)
   nrmOne_bar_feasib = resid_src.get_nrmOne_bar_feasib();
   nrmOne_nlp_optim = resid_src.get_nrmOne_nlp_optim();
   nrmOne_bar_optim = resid_src.get_nrmOne_bar_optim();
+  nrmInf_cons_violation = resid_src.nrmInf_cons_violation;
   
   nlp = resid_src.nlp;
 }
-- 
2.43.0


From e5c4196ff5c6cbda276f7def8a3995cf5818def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 10/38] fix: the norm of the equality duals does not include
 the bound duals

---
 src/Optimization/hiopIterate.cpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/Optimization/hiopIterate.cpp b/src/Optimization/hiopIterate.cpp
index 2cff027..f0e5506 100644
--- a/src/Optimization/hiopIterate.cpp
+++ b/src/Optimization/hiopIterate.cpp
@@ -219,21 +219,8 @@ double hiopIterate::normOneOfBoundDuals() const
 
 double hiopIterate::normOneOfEqualityDuals() const
 {
-#ifdef HIOP_DEEPCHECKS
-  assert(zl->matchesPattern(nlp->get_ixl()));
-  assert(zu->matchesPattern(nlp->get_ixu()));
-  assert(vl->matchesPattern(nlp->get_idl()));
-  assert(vu->matchesPattern(nlp->get_idu()));
-#endif
-  //work locally with all the vectors. This will result in only one MPI_Allreduce call instead of two.
-  double nrm1=zl->onenorm_local() + zu->onenorm_local();
-#ifdef HIOP_USE_MPI
-  double nrm1_global;
-  int ierr=MPI_Allreduce(&nrm1, &nrm1_global, 1, MPI_DOUBLE, MPI_SUM, nlp->get_comm()); assert(MPI_SUCCESS==ierr);
-  nrm1=nrm1_global;
-#endif
-  nrm1 += vl->onenorm_local() + vu->onenorm_local() + yc->onenorm_local() + yd->onenorm_local();
-  return nrm1;
+  //yc and yd are not distributed
+  return yc->onenorm_local() + yd->onenorm_local();
 }
 
 void hiopIterate::normOneOfDuals(double& nrm1Eq, double& nrm1Bnd) const
-- 
2.43.0


From 4d43c0bfdfb766b1f5f45000a7a244a2792e270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 11/38] fix: the dense KKT matrices regularize the equality and
 the inequality rows with their own perturbations

---
 src/Optimization/hiopKKTLinSysDense.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSysDense.hpp b/src/Optimization/hiopKKTLinSysDense.hpp
index 9079040..06c43f1 100644
--- a/src/Optimization/hiopKKTLinSysDense.hpp
+++ b/src/Optimization/hiopKKTLinSysDense.hpp
@@ -153,7 +153,8 @@ public:
 #ifdef HIOP_DEEPCHECKS
     assert(perturb_calc_->check_consistency() && "something went wrong with IC");
 #endif
-    Msys.addSubDiagonal(alpha, nx, *delta_cd_);
+    Msys.addSubDiagonal(alpha, nx, *delta_cc_);
+    Msys.addSubDiagonal(alpha, nx+neq, *delta_cd_);
 
     nlp_->log->write("KKT Linsys:", Msys, hovMatrices);
 
@@ -310,9 +311,10 @@ public:
     }
 
 #ifdef HIOP_DEEPCHECKS
-      assert(delta_cc_->is_equal(*delta_cd_));
+    assert(perturb_calc_->check_consistency() && "something went wrong with IC");
 #endif
-    Msys.addSubDiagonal(-alpha, nx+nineq, *delta_cd_);
+    Msys.addSubDiagonal(-alpha, nx+nineq, *delta_cc_);
+    Msys.addSubDiagonal(-alpha, nx+nineq+neq, *delta_cd_);
 
     nlp_->log->write("KKT Linsys:", Msys, hovMatrices);
 
-- 
2.43.0


From 8b503941638aaad160b206d289e84f932019d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 12/38] fix: the MDS KKT update computes the diagonal used by
 the inertia-free curvature test

---
 src/Optimization/hiopKKTLinSysMDS.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSysMDS.cpp b/src/Optimization/hiopKKTLinSysMDS.cpp
index 40830c1..5ce679d 100644
--- a/src/Optimization/hiopKKTLinSysMDS.cpp
+++ b/src/Optimization/hiopKKTLinSysMDS.cpp
@@ -157,6 +157,12 @@ namespace hiop
     Dx_->axdzpy_w_pattern(1.0, *iter->zu, *iter->sxu, nlp_->get_ixu());
     nlp_->log->write("Dx in KKT", *Dx_, hovMatrices);
 
+    //Dd (needed by the curvature test of the inertia-free approach)
+    Dd_->setToZero();
+    Dd_->axdzpy_w_pattern(1.0, *iter->vl, *iter->sdl, nlp_->get_idl());
+    Dd_->axdzpy_w_pattern(1.0, *iter->vu, *iter->sdu, nlp_->get_idu());
+    nlp_->log->write("Dd in KKT", *Dd_, hovMatrices);
+
     nlp_->runStats.kkt.tmUpdateInit.stop();
 
     //
-- 
2.43.0


From 4b297d1fd1be256f01482a8d2cc1cc1ea9aa1917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 13/38] fix: a KKT factorization that could not be assembled,
 perturbed or made nonsingular is reported as failed

---
 src/Optimization/hiopKKTLinSys.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 5badfd2..c3f1a99 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -342,7 +342,10 @@ bool hiopKKTLinSysCurvCheck::factorize()
     }
 
     // the update of the linear system, including IC perturbations
-    this->build_kkt_matrix(*perturb_calc_);
+    if(!this->build_kkt_matrix(*perturb_calc_)) {
+      nlp_->log->printf(hovWarning, "linsys: assembling the KKT matrix failed.\n");
+      return false;
+    }
 
     nlp_->runStats.kkt.tmUpdateInnerFact.start();
 
@@ -386,6 +389,9 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
   delta_cd_ = perturb_calc_->get_curr_delta_cd();
 
   continue_re_fact = fact_acceptor_->requireReFactorization(*nlp_, non_singular_mat, true);
+  if(-1==continue_re_fact) {
+    return false;
+  }
 
 #ifdef HIOP_DEEPCHECKS
     assert(perturb_calc_->check_consistency() && "something went wrong with IC");
@@ -396,12 +402,17 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
   }
 
   // the update of the linear system, including IC perturbations
-  this->build_kkt_matrix(*perturb_calc_);
+  if(!this->build_kkt_matrix(*perturb_calc_)) {
+    nlp_->log->printf(hovWarning, "linsys: assembling the KKT matrix failed.\n");
+    return false;
+  }
 
   nlp_->runStats.kkt.tmUpdateInnerFact.start();
 
   // factorization
   int solver_flag = factorizeWithCurvCheck();
+
+  nlp_->runStats.kkt.tmUpdateInnerFact.stop();
   
   // if solver_flag<0, matrix becomes singular, or not pd (in condensed system) after adding regularization
   // this should not happen, but some linear solver may have numerical difficulty.
@@ -427,7 +438,10 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
     }
 
     // the update of the linear system, including IC perturbations
-    this->build_kkt_matrix(*perturb_calc_);
+    if(!this->build_kkt_matrix(*perturb_calc_)) {
+      nlp_->log->printf(hovWarning, "linsys: assembling the KKT matrix failed.\n");
+      return false;
+    }
 
     nlp_->runStats.kkt.tmUpdateInnerFact.start();
 
@@ -441,8 +455,12 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
     nlp_->runStats.kkt.nUpdateICCorr++;
   } // end of IC loop
 
-  nlp_->runStats.kkt.tmUpdateInnerFact.stop();
-
+  if(solver_flag < 0) {
+    nlp_->log->printf(hovError,
+                      "Reached max number (%zu) of refactorization within an outer iteration.\n",
+                      max_refactorization);
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From ba1c923db1ee52b9538a8b623a242657efc1376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 14/38] fix: a failed inertia-free refactorization is retried
 in safe mode or reported

---
 src/Optimization/hiopAlgFilterIPM.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index bc04603..79ab311 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3461,9 +3461,18 @@ bool hiopAlgFilterIPMBase::compute_search_direction_inertia_free(hiopKKTLinSys*
         nlp->log->printf(hovError,
                          "Reached max number (%lu) of refactorization within an outer iteration.\n",
                          max_refactorization);
+        // the linear solve is repeated in safe mode; a failure under safe mode is fatal
+        linsol_safe_mode_on = true;
+        return false;
+      }
+      if(!kkt->factorize_inertia_free()) {
+        nlp->log->printf(hovError,
+                         "The KKT linear system could not be refactorized at iteration %d.\n",
+                         iter_num);
+        // the linear solve is repeated in safe mode; a failure under safe mode is fatal
+        linsol_safe_mode_on = true;
         return false;
       }
-      kkt->factorize_inertia_free();
       num_refact++;
       nlp->runStats.kkt.nUpdateICCorr++;
     }
-- 
2.43.0


From a5b6e1736a009a956d3aee6e5872a9b971cae1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 15/38] fix: the initial primal perturbation of a degenerate
 Hessian is applied; the dual-first correction announces that it changed both
 perturbations

---
 src/Optimization/hiopPDPerturbation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index e73125a..49e4079 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -346,6 +346,8 @@ namespace hiop
       }
     }
     delta_wd_curr_db_ = delta_wx_curr_db_;
+    delta_wx = delta_wx_curr_db_;
+    delta_wd = delta_wd_curr_db_;
     set_delta_curr_vec(PrimalUpdate);
 
     if(delta_wx_curr_db_ > delta_w_max_bar_) {
@@ -536,10 +538,11 @@ namespace hiop
       }
       ret = compute_dual_perturb_impl(mu_);
 
-      set_delta_curr_vec(PrimalUpdate);
+      // both the primal and the dual perturbations changed
+      set_delta_curr_vec(PDUpdate);
+    } else {
+      set_delta_curr_vec(DualUpdate);
     }
-    
-    set_delta_curr_vec(DualUpdate);
 
     nlp_->log->printf(hovScalars, 
                       "primal regularization (mean): %12.5e, dual regularization (mean): %12.5e \n", 
-- 
2.43.0


From 98f6702b0565251ca0eed55ac4afdae827bf688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 16/38] fix: user_x returns all of the user's variables when
 fixed variables were removed

---
 src/Optimization/hiopNlpFormulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index ed522f4..944518e 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -260,7 +260,7 @@ public:
     //double *hiop_xa = hiop_x.local_data();
     hiopVector *x = nlp_transformations_.apply_inv_to_x(hiop_x,/*new_x=*/true); 
     //memcpy(user_x, user_xa, hiop_x.get_local_size()*sizeof(double));
-    memcpy(user_x, x->local_data(), nlp_transformations_.n_post_local()*sizeof(double));
+    memcpy(user_x, x->local_data(), nlp_transformations_.n_pre_local()*sizeof(double));
   }
 
   /* copies/unpacks duals of the bounds and of constraints from 'it' to the three arrays */
-- 
2.43.0


From f4c44cb0d72a215478dd5f18e879aac1485047bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 17/38] fix: the one-call dense Jacobian is scaled, not
 unscaled

---
 src/Optimization/hiopNlpFormulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 22dc7ba..f2f231f 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1533,8 +1533,8 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
   // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(Jac_c, n_cons_eq_));
+  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(Jac_d, n_cons_ineq_));
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
-- 
2.43.0


From 00e60ad316d1ccdc805b5c699129ec80a060407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 18/38] fix: hiopFixedVarsRemover::apply_to_x reduces the
 full-space vector

---
 src/Optimization/hiopNlpTransforms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 0548f5e..0216695 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -184,7 +184,7 @@ public:
   inline hiopVector* apply_to_x(hiopVector& x_fs_in) 
   { 
     assert(x_rs_ref_!=NULL); assert(x_fs_in.local_data()==x_fs->local_data());
-    apply_inv_to_vector(&x_fs_in, x_rs_ref_);
+    apply_to_vector(&x_fs_in, x_rs_ref_);
     return x_rs_ref_; 
   }
   
-- 
2.43.0


From c5985dd93ba2a59c5ff3c683219a5f701d0b889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 19/38] fix: the scaling of the Hessian multipliers agrees with
 the scaling and the order of the constraints

---
 src/Optimization/hiopNlpTransforms.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index d97696b..cb7e077 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -458,18 +458,6 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
   scale_factor_cd = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"),
                                                         n_eq + n_ineq);
 
-  Jac_c.row_max_abs_value(*scale_factor_c);
-  scale_factor_c->scale(1./max_grad);
-  scale_factor_c->component_max(1.0);
-  scale_factor_c->invert();
-
-  Jac_d.row_max_abs_value(*scale_factor_d);
-  scale_factor_d->scale(1./max_grad);
-  scale_factor_d->component_max(1.0);
-  scale_factor_d->invert();
-
-  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
-
   Jac_c.row_max_abs_value(*scale_factor_c);
   Jac_d.row_max_abs_value(*scale_factor_d);
   if(max_con_grad == 0.) {
@@ -496,6 +484,10 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
     scale_factor_c->component_max(min_grad);
     scale_factor_d->component_max(min_grad);
   }
+
+  // the multipliers are passed to the user's Hessian as [lambda_eq, lambda_ineq]
+  scale_factor_cd->copyFromStarting(0, scale_factor_c->local_data_const(), n_eq);
+  scale_factor_cd->copyFromStarting(n_eq, scale_factor_d->local_data_const(), n_ineq);
 }
 
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
-- 
2.43.0


From a8d06630a32c3ba6bf40eeff9379733b5cc912b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 20/38] fix: user_callback_full_iterate passes the bound duals
 of the inequalities

---
 src/Optimization/hiopNlpFormulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index f2f231f..ec25a20 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1311,10 +1311,10 @@ bool hiopNlpFormulation::user_callback_full_iterate(hiopVector& x,
     s.copy_to_vectorpar(s_host);
 
     hiopVectorPar vl_host(n_cons_ineq_, vec_distrib_, comm_);
-    v_L.copy_to_vectorpar(zl_host);
+    v_L.copy_to_vectorpar(vl_host);
     
     hiopVectorPar vu_host(n_cons_ineq_, vec_distrib_, comm_);
-    v_U.copy_to_vectorpar(zu_host);    
+    v_U.copy_to_vectorpar(vu_host);    
 
     bret = interface_base.iterate_full_callback(x_host.local_data_const(),
                                                 zl_host.local_data_const(),
-- 
2.43.0


From d1b401d4951011998fa51b1f6fe9f730416cbd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 21/38] fix: dual solutions are returned unscaled (divided by
 the objective scaling), once

---
 src/Optimization/hiopNlpFormulation.cpp | 30 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index ec25a20..36f6848 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1051,11 +1051,12 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
     if(temp_x_ == nullptr) {
       temp_x_ = this->alloc_primal_vec();
     }
+    // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
     temp_x_->copyFrom(*it.get_zl());
-    temp_x_->scale(obj_scale_ext_to_hiop);
+    temp_x_->scale(1./obj_scale_ext_to_hiop);
     temp_x_->copyTo(zl_a);
     temp_x_->copyFrom(*it.get_zu());
-    temp_x_->scale(obj_scale_ext_to_hiop);
+    temp_x_->scale(1./obj_scale_ext_to_hiop);
     temp_x_->copyTo(zu_a);
 
     if(temp_eq_ == nullptr) {
@@ -1067,10 +1068,12 @@ get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* la
     if(cons_lambdas_ == nullptr) {
       cons_lambdas_ = this->alloc_dual_vec();
     }
+    temp_eq_->copyFrom(*it.get_yc());
+    temp_ineq_->copyFrom(*it.get_yd());
     temp_eq_   = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
     temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
     cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
-    cons_lambdas_->scale(obj_scale_ext_to_hiop);
+    cons_lambdas_->scale(1./obj_scale_ext_to_hiop);
     cons_lambdas_->copyTo(lambda_a);
   }
 
@@ -1096,14 +1099,14 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   }
   if(nlp_scaling_) {
     // return unscaled values. 
-    // it's safe to modify these values since this function is called in the end
+    // these values are scaled back after the callback
     // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
     y_c = *(nlp_transformations_.apply_to_cons_eq(y_c, n_cons_eq_));
     y_d = *(nlp_transformations_.apply_to_cons_ineq(y_d, n_cons_ineq_));
-    y_c.scale(obj_scale_ext_to_hiop);
-    y_d.scale(obj_scale_ext_to_hiop);
-    z_L.scale(obj_scale_ext_to_hiop);
-    z_U.scale(obj_scale_ext_to_hiop);
+    y_c.scale(1./obj_scale_ext_to_hiop);
+    y_d.scale(1./obj_scale_ext_to_hiop);
+    z_L.scale(1./obj_scale_ext_to_hiop);
+    z_U.scale(1./obj_scale_ext_to_hiop);
   }
   cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
 
@@ -1160,6 +1163,17 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                     obj_value/obj_scale_ext_to_hiop);
   }                         
 
+  if(nlp_scaling_) {
+    // the iterate remains in the scaled space: get_dual_solutions unscales it again
+    y_c.scale(obj_scale_ext_to_hiop);
+    y_d.scale(obj_scale_ext_to_hiop);
+    z_L.scale(obj_scale_ext_to_hiop);
+    z_U.scale(obj_scale_ext_to_hiop);
+    y_c = *(nlp_transformations_.apply_inv_to_cons_eq(y_c, n_cons_eq_));
+    y_d = *(nlp_transformations_.apply_inv_to_cons_ineq(y_d, n_cons_ineq_));
+    c = *(nlp_transformations_.apply_to_cons_eq(c, n_cons_eq_));
+    d = *(nlp_transformations_.apply_to_cons_ineq(d, n_cons_ineq_));
+  }
 }
 
 bool hiopNlpFormulation::user_callback_iterate(int iter,
-- 
2.43.0


From eb8e9be385508139b443db0584a7af4642d73edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 22/38] fix: the multipliers of the MDS Hessian are scaled in
 their order, those of the sparse Hessian in the user's

---
 src/Optimization/hiopNlpFormulation.cpp | 19 +++++++++++++------
 src/Optimization/hiopNlpTransforms.cpp  |  4 +---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 36f6848..825b9c4 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1845,12 +1845,19 @@ bool hiopNlpMDS::eval_Hess_Lagr(const hiopVector& x,
       buf_lambda_ = this->alloc_dual_vec();
     }
     assert(buf_lambda_);
-    buf_lambda_->copyFromStarting(0,         lambda_eq.local_data_const(),   n_cons_eq_);
-    buf_lambda_->copyFromStarting(n_cons_eq_, lambda_ineq.local_data_const(), n_cons_ineq_);
-
-    // scale lambda before passing it to user interface to compute Hess
-    int n_cons_eq_ineq = n_cons_eq_ + n_cons_ineq_;
-    buf_lambda_ = nlp_transformations_.apply_to_cons(*buf_lambda_, n_cons_eq_ineq);
+    // scale lambda before passing it to user interface to compute Hess; the order is [lambda_eq, lambda_ineq]
+    if(temp_eq_ == nullptr) {
+      temp_eq_ = this->alloc_dual_eq_vec();
+    }
+    if(temp_ineq_ == nullptr) {
+      temp_ineq_ = this->alloc_dual_ineq_vec();
+    }
+    temp_eq_->copyFrom(lambda_eq);
+    temp_ineq_->copyFrom(lambda_ineq);
+    temp_eq_   = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
+    temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+    buf_lambda_->copyFromStarting(0,          temp_eq_->local_data_const(),   n_cons_eq_);
+    buf_lambda_->copyFromStarting(n_cons_eq_, temp_ineq_->local_data_const(), n_cons_ineq_);
 
     double obj_factor_with_scale = obj_factor*get_obj_scale();
 
diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index cb7e077..c8d5cc7 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -485,9 +485,7 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
     scale_factor_d->component_max(min_grad);
   }
 
-  // the multipliers are passed to the user's Hessian as [lambda_eq, lambda_ineq]
-  scale_factor_cd->copyFromStarting(0, scale_factor_c->local_data_const(), n_eq);
-  scale_factor_cd->copyFromStarting(n_eq, scale_factor_d->local_data_const(), n_ineq);
+  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
 }
 
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
-- 
2.43.0


From 952f4348d89dcf159b9fcccc3803c26096d2d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 23/38] fix: a successful feasibility restoration does not end
 the quasi-Newton optimization loop

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 79ab311..972ef94 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1444,10 +1444,6 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
         }
-
-        // exit the linear solve (compute_search_direction) loop
-        nlp->runStats.tmSolverInternal.stop();
-        break;
       } 
       nlp->runStats.tmSolverInternal.stop();
     } else {
-- 
2.43.0


From 18b082414f65475f662912740cb8a506a77c3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 24/38] fix: accept_every_trial_step does not take the
 small-step path

---
 src/Optimization/hiopAlgFilterIPM.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 972ef94..995c396 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1434,6 +1434,9 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     } else if(lsStatus==3) {
       //Armijo (and switching condition) hold, nothing to do.
       nlp->runStats.tmSolverInternal.stop();
+    } else if(disableLS) {
+      //the trial point was taken without testing it
+      nlp->runStats.tmSolverInternal.stop();
     } else if(lsStatus==0) {
       //small step
       if(linsol_safe_mode_on) {
@@ -2671,6 +2674,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         nlp->runStats.tmSolverInternal.stop();
         break; //from the linear solve (compute_search_direction) loop
 
+      } else if(disableLS) {
+        //the trial point was taken without testing it
+
+        nlp->runStats.tmSolverInternal.stop();
+        break; //from the linear solve (compute_search_direction) loop
+
       } else if(lsStatus==0) {
 
         //
-- 
2.43.0


From 884433df00cc2563ccba8f0454aa731cf0a9d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 25/38] fix: soft feasibility restoration fails when its last
 trial point is in the filter

---
 src/Optimization/hiopAlgFilterIPM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 995c396..9afbc31 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3369,6 +3369,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     double theta_trial = resid_trial->get_nrmOne_bar_feasib();
     if(filter.contains(theta_trial,logbar->f_logbar_trial)) {
       //it is in the filter, reject this trial point and continue the iterates
+      bret = false;
       num_soft_fr++;
     } else {
       // continue the regular iterate from the trial point  
-- 
2.43.0


From bb63506c7cc14128c131af4d8c923eeb3d5fd32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 26/38] fix: a failure of the user's functions during
 feasibility restoration aborted in the termination message

---
 src/Optimization/hiopAlgFilterIPM.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 9afbc31..717b487 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -905,6 +905,13 @@ void hiopAlgFilterIPMBase::displayTerminationMsg()
                        strStatsReport.c_str());
       break;
     }
+  case Error_In_User_Function:
+    {
+      nlp->log->printf(hovSummary,
+                       "Error in the evaluation of the user provided functions.\n%s\n",
+                       strStatsReport.c_str());
+      break;
+    }
   case Err_Step_Computation:
   {
       nlp->log->printf(hovSummary,
-- 
2.43.0


From 57072e450c15a7c397a9d6a123597853eef1b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:43 +0000
Subject: [PATCH 27/38] fix: the default of option 'accum_local' is not one of
 its legal values

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 9e35991..1677ac8 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -1641,9 +1641,9 @@ void hiopOptionsPriDec::register_options()
   // option for local accumulation of function value and subgradient on evaluator ranks, then reduce
   {
     register_str_option("accum_local",
-                        "false", // default value for the option
+                        "no", // default value for the option
                         vector<string>({"yes", "no"}), // range
-                        "Accumulates recourse problem solutions locally on evaluator ranks (default 'false')");
+                        "Accumulates recourse problem solutions locally on evaluator ranks (default 'no')");
   }
 
   //
-- 
2.43.0


From 9ed7f425413ded69375c404348af2958b04a482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:43 +0000
Subject: [PATCH 28/38] fix: integer and string options set at run time do not
 count as user defined

---
 src/Utils/hiopOptions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 1677ac8..a12de38 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -363,6 +363,8 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
       
       if(setFromFile) {
         option->specifiedInFile=true;
+      } else {
+        option->specifiedAtRuntime=true;
       }
       if(value<option->lb || value>option->ub) {
         log_printf(hovWarning,
@@ -437,6 +439,8 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
       
       if(setFromFile) {
         option->specifiedInFile = true;
+      } else {
+        option->specifiedAtRuntime = true;
       }
       string strValue(value);
       transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
-- 
2.43.0


From 08e7a9d4b55e8e07b4a6316b82f9c062edec2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:43 +0000
Subject: [PATCH 29/38] fix: values of free-form string options (file names)
 are lower-cased

---
 src/Utils/hiopOptions.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index a12de38..de521bf 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -406,7 +406,8 @@ bool hiopOptions::set_val(const char* name, const char* value_in)
       if(!inrange && !option->range.empty()) {
         assert(false && "incorrect use of internal 'set_val': value out of range\n");
       } else {
-        option->val = value;
+        //values of options that can take any value (e.g., file names) are kept as given
+        option->val = option->range.empty() ? string(value_in) : value;
       }
     }
   } else {
@@ -464,7 +465,8 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
                    ssRange.str().c_str(),
                    option->val.c_str());
       } else {
-        option->val = strValue;
+        //values of options that can take any value (e.g., file names) are kept as given
+        option->val = option->range.empty() ? string(value) : strValue;
       }
     }
   } else {
-- 
2.43.0


From 268f3304c6227576a71f5aa76ac08e6dfafa5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:53 +0000
Subject: [PATCH 30/38] fix: hiopVectorPar::is_equal leaves the other ranks
 waiting when local sizes differ on some ranks only

---
 src/LinAlg/hiopVectorPar.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/LinAlg/hiopVectorPar.cpp b/src/LinAlg/hiopVectorPar.cpp
index d3587e2..5a4d1f7 100644
--- a/src/LinAlg/hiopVectorPar.cpp
+++ b/src/LinAlg/hiopVectorPar.cpp
@@ -1286,12 +1286,10 @@ void hiopVectorPar::set_array_from_to(hiopInterfaceBase::NonlinearityType* arr,
 
 bool hiopVectorPar::is_equal(const hiopVector& vec) const
 {
-  if(n_local_ != vec.get_local_size()) {
-    return false;
-  }
-  int all_equal = true;
+  //a mismatch of the sizes on some of the ranks needs to reach all the ranks, which wait in the reduction below
+  int all_equal = (n_local_ == vec.get_local_size());
   const double* data_v = vec.local_data_const();
-  for(auto i=0; i<n_local_; ++i) {
+  for(auto i=0; all_equal && i<n_local_; ++i) {
     if(data_[i]!=data_v[i]) {
       all_equal = false;
       break;
-- 
2.43.0


From 0d3fe8d40d2947bf06c7f5d264aaa5de6366a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:32 +0000
Subject: [PATCH 31/38] fix: nonblocking end signals of the primal
 decomposition use buffers on the stack of a function that returns

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 90d3330..882ff76 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -104,16 +104,16 @@ namespace hiop
     void post_recv_end_signal(int tag, int rank_from, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int recv_sign = 0;
-      int ierr = MPI_Irecv(&recv_sign, 1, MPI_INT, rank_from, tag, comm, &request_);
+      signal_ = 0;
+      int ierr = MPI_Irecv(&signal_, 1, MPI_INT, rank_from, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
     // only sende signal (that computation is finished), no actual functional information
     void post_send_end_signal(int tag, int rank_to, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int send_sign = 0;
-      int ierr = MPI_Isend(&send_sign, 1, MPI_INT, rank_to, tag, comm, &request_);
+      signal_ = 0;
+      int ierr = MPI_Isend(&signal_, 1, MPI_INT, rank_to, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
 
@@ -143,6 +143,8 @@ namespace hiop
   private:
     int n_;
     hiopVector* buffer;
+    /// buffer of the end signals; needs to outlive the nonblocking operations
+    int signal_;
   };
 
   /** This struct is used to post receive and request for contingency
-- 
2.43.0


From 43b5b2a1316d180a3537f8000be612f5b36590ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:53 +0000
Subject: [PATCH 32/38] fix: addition of a subdiagonal writes from vec_start
 on, not shifted by the source offset

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 6b81c4f..ac79fb7 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1032,8 +1032,8 @@ void hiopMatrixSymSparseTriplet::startingAtAddSubDiagonalToStartingAt(int diag_s
     const int row = iRow_[itnz];
     if(row==jCol_[itnz]) {
       if(row>=diag_src_start && row<diag_src_start+num_elems) {
-        assert(row+vec_start<vd.get_size());
-        v[vec_start+row] += alpha * this->values_[itnz];
+        assert(row-diag_src_start+vec_start<vd.get_size());
+        v[vec_start+row-diag_src_start] += alpha * this->values_[itnz];
       }
     }
   }
-- 
2.43.0


From 376ba1231038b94af2b8ce6bce7e624fe931acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:53 +0000
Subject: [PATCH 33/38] fix: hiopMatrixMDS::timesMatTrans honours alpha

---
 src/LinAlg/hiopMatrixMDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixMDS.hpp b/src/LinAlg/hiopMatrixMDS.hpp
index 9998bc8..f8c42b4 100644
--- a/src/LinAlg/hiopMatrixMDS.hpp
+++ b/src/LinAlg/hiopMatrixMDS.hpp
@@ -95,8 +95,8 @@ public:
   {
     const hiopMatrixMDS &X_mds = dynamic_cast<const hiopMatrixMDS&>(X);
     
-    mDe->timesMatTrans(beta, W, 1.0, *X_mds.de_mat());
-    mSp->timesMatTrans(1.0, W, 1.0, *X_mds.sp_mat());
+    mDe->timesMatTrans(beta, W, alpha, *X_mds.de_mat());
+    mSp->timesMatTrans(1.0, W, alpha, *X_mds.sp_mat());
   }
 
 
-- 
2.43.0


From 5301f54ef1f4ca4a482da9833da4dcf2a0add13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:53 +0000
Subject: [PATCH 34/38] fix: C interface forwards new_x to the objective and
 gradient callbacks

---
 src/Interface/chiopInterface.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Interface/chiopInterface.hpp b/src/Interface/chiopInterface.hpp
index d75dd56..5637dd3 100644
--- a/src/Interface/chiopInterface.hpp
+++ b/src/Interface/chiopInterface.hpp
@@ -144,13 +144,13 @@ public:
     };
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
@@ -331,13 +331,13 @@ class cppUserProblemSparse : public hiopInterfaceSparse
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob_->eval_f_(n, (double *) x, 0, &obj_value, cprob_->user_data_);
+      cprob_->eval_f_(n, (double *) x, new_x, &obj_value, cprob_->user_data_);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob_->eval_grad_f_(n, (double *) x, 0, gradf, cprob_->user_data_);
+      cprob_->eval_grad_f_(n, (double *) x, new_x, gradf, cprob_->user_data_);
 
       return true;
     };
@@ -516,13 +516,13 @@ public:
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
-- 
2.43.0


From 90a57021193fb18975f91e81b8bd77593b76aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 35/38] fix: iterative refinement of the low-rank KKT solve
 keeps its corrections

---
 src/Optimization/hiopKKTLinSys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index c3f1a99..bdf3aa4 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1263,8 +1263,8 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
   int nIterRefin=0;double nrmResid;
   int info;
   const int MAX_ITER_REFIN=3;
+  x->copyFrom(X);
   while(true) {
-    x->copyFrom(X);
     resid->copyFrom(*rhsref);
     Aref->timesVec(1.0, *resid, -1.0, *x);
 
-- 
2.43.0


From fb41bcf7cd784f7879b9988eb896f5086f2432f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:34 +0000
Subject: [PATCH 36/38] fix: low-rank KKT solve reports a failed factorization

---
 src/Optimization/hiopKKTLinSys.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index bdf3aa4..3e30026 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1254,6 +1254,18 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 	 WORK, IWORK,
 	 &INFO);
   //printf("INFO ===== %d  RCOND=%g  FERR=%g   BERR=%g  EQUED=%c\n", INFO, RCOND, FERR, BERR, EQUED);
+  if(INFO<0 || (INFO>0 && INFO<=N)) {
+    //illegal argument or matrix not positive definite: there is no solution in X
+    nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::solveWithRefin: dposvx returned error %d\n", INFO);
+    delete[] AF;
+    delete[] S;
+    delete[] X;
+    delete[] WORK;
+    delete[] IWORK;
+    delete Aref;
+    delete rhsref;
+    return INFO;
+  }
   //
   // 2. check residual
   //
-- 
2.43.0


From 8b844a9b2b3391e42d36e7b45ec039f5ec8141ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:59 +0000
Subject: [PATCH 37/38] fix: BiCGStab computed the final residual against an
 overwritten right-hand side after too many extra steps

---
 src/LinAlg/hiopKrylovSolver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 25f8fe2..8f0d565 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -561,7 +561,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1 - 0.5;
           break;
@@ -640,7 +639,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1;
           break;
-- 
2.43.0


From 4b4e221e8803ac7bb8c32cf7f26b4d619dd52f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:37 +0000
Subject: [PATCH 38/38] fix: Krylov solvers delivered the solution into the
 iterate of an earlier call

---
 src/LinAlg/hiopKrylovSolver.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 8f0d565..178bd99 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -139,9 +139,9 @@ namespace hiop {
 
 bool hiopPCGSolver::solve(hiopIterate* xsol, const hiopResidual* bresid)
 {
-  if(nullptr == b_) {
-    b_ = new hiopVectorCompoundPD(xsol);
-  }
+  // the compound vector refers to the vectors of xsol, which is not necessarily the one of the previous call
+  delete b_;
+  b_ = new hiopVectorCompoundPD(xsol);
   b_->copy_from_resid(bresid);
 
   return solve(b_);
@@ -388,9 +388,9 @@ bool hiopPCGSolver::solve(hiopVector* b)
 
 bool hiopBiCGStabSolver::solve(hiopIterate* xsol, const hiopResidual* bresid)
 {
-  if(nullptr == b_) {
-    b_ = new hiopVectorCompoundPD(xsol);
-  }
+  // the compound vector refers to the vectors of xsol, which is not necessarily the one of the previous call
+  delete b_;
+  b_ = new hiopVectorCompoundPD(xsol);
   b_->copy_from_resid(bresid);
 
   return solve(b_);
-- 
2.43.0

