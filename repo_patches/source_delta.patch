From 3131de3b2072c5714a9dd5a5da115afe1295d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:00 +0000
Subject: [PATCH 001/113] fix: index lookup on an empty time array must not
 poison later trajectory lookups

---
 ct_core/include/ct/core/common/Interpolation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_core/include/ct/core/common/Interpolation.h b/ct_core/include/ct/core/common/Interpolation.h
index 98dd000..5ac0efe 100644
--- a/ct_core/include/ct/core/common/Interpolation.h
+++ b/ct_core/include/ct/core/common/Interpolation.h
@@ -120,6 +120,9 @@ public:
     {
         int index = -1;
 
+        if (timeArray.size() == 0)
+            throw std::runtime_error("Interpolation.h : TimeArray is size 0.");
+
         index_ = std::min(index_, (int)timeArray.size() - 1);
 
         if (timeArray.at(index_) > enquiryTime)
-- 
2.43.0


From 88e2ae27c17fffc43296ec7262980bb122a70c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:16 +0000
Subject: [PATCH 002/113] fix: default sparse constraint Jacobians must follow
 the row-wise default sparsity pattern

---
 .../include/ct/optcon/constraint/term/ConstraintBase-impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
index 9d85769..9e02938 100644
--- a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
@@ -101,7 +101,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacState = jacobianState(x, u, t);
+    // transpose, since the default sparsity pattern enumerates the dense Jacobian row by row
+    MatrixXs jacState = jacobianState(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacState.data(), jacState.rows() * jacState.cols()));
 
@@ -114,7 +115,8 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianInputSparse(const state_
     const control_vector_t& u,
     const SCALAR t)
 {
-    MatrixXs jacInput = jacobianInput(x, u, t);
+    // transpose, since the default sparsity pattern enumerates the dense Jacobian row by row
+    MatrixXs jacInput = jacobianInput(x, u, t).transpose();
 
     VectorXs jac(Eigen::Map<VectorXs>(jacInput.data(), jacInput.rows() * jacInput.cols()));
     return jac;
-- 
2.43.0


From d7ff4828700a8ea42a161d1aaa707218dbd04c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:16 +0000
Subject: [PATCH 003/113] fix: terminal state Jacobians require initialised
 terminal, not intermediate, constraints

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 237c492..11cbe99 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -190,7 +190,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::VectorXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparseTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
@@ -211,7 +211,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::MatrixXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
-- 
2.43.0


From a31880ac0ddf2f9a241c125f1678954611270c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:16 +0000
Subject: [PATCH 004/113] fix: switched constraint container must evaluate the
 phase at the current time and update its terminal container

---
 .../constraint/SwitchedLinearConstraintContainer-impl.h  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index 992e6c3..61e9fe2 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -14,7 +14,8 @@ SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::SwitchedLinea
     const ModeSequence_t& continuousModeSequence)
     : switchedLinearConstraintContainers_(switchedLinearConstraintContainers),
       continuousModeSequence_(continuousModeSequence),
-      activeLinearConstraintContainer_(switchedLinearConstraintContainers.front()),
+      activeLinearConstraintContainer_(
+          switchedLinearConstraintContainers.at(continuousModeSequence.getPhaseFromTime(this->t_))),
       terminalLinearConstraintContainer_(switchedLinearConstraintContainers.at(continuousModeSequence.getFinalPhase()))
 {
 }
@@ -32,7 +33,8 @@ SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::SwitchedLinea
         switchedLinearConstraintContainers_.emplace_back(linearConstraintContainer->clone());
     }
 
-    activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.front();
+    activeLinearConstraintContainer_ =
+        switchedLinearConstraintContainers_.at(continuousModeSequence_.getPhaseFromTime(this->t_));
     terminalLinearConstraintContainer_ =
         switchedLinearConstraintContainers_.at(continuousModeSequence_.getFinalPhase());
 }
@@ -200,6 +202,8 @@ bool SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::initiali
             return false;
         }
     }
+    this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
+    this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
     return true;
 }
 
@@ -218,6 +222,7 @@ void SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::update()
     auto mode = continuousModeSequence_.getPhaseFromTime(this->t_);
     activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.at(mode);
     activeLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
+    terminalLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
 
     this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
     this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
-- 
2.43.0


From 9721039a8aed4dd3fd656c4dc6fee20a5197788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:25 +0000
Subject: [PATCH 005/113] fix: copying an LTI system must keep its controller
 and system type

---
 .../include/ct/core/systems/continuous_time/linear/LTISystem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index d69c064..e6b54f2 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -57,7 +57,8 @@ public:
     }
 
     //! copy constructor
-    LTISystem(const LTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    LTISystem(const LTISystem& arg)
+        : LinearSystem<STATE_DIM, CONTROL_DIM>(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
     //! deep clone
     LTISystem<STATE_DIM, CONTROL_DIM>* clone() const override { return new LTISystem<STATE_DIM, CONTROL_DIM>(*this); }
     virtual ~LTISystem() {}
-- 
2.43.0


From c0253abb8336b16fed40db8c6bd15fcb47af3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:25 +0000
Subject: [PATCH 006/113] fix: copy constructor of DiscreteControlledSystem
 must deep-copy the controller

---
 .../ct/core/systems/discrete_time/DiscreteControlledSystem.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
index 81c216c..cb90870 100644
--- a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
@@ -68,7 +68,7 @@ public:
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(type), controller_(controller){};
 
     //! copy constructor
-    DiscreteControlledSystem(const ControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
+    DiscreteControlledSystem(const DiscreteControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(arg)
     {
         if (arg.controller_)
-- 
2.43.0


From e86554e4bd5a44109b54cc09dc38d3f44402f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:45 +0000
Subject: [PATCH 007/113] fix: symplectic integration must evaluate the
 controller at the current time

---
 .../ct/core/integration/IntegratorSymplectic-impl.h    |  6 ++++--
 .../include/ct/core/integration/IntegratorSymplectic.h |  1 +
 .../ct/core/systems/continuous_time/SymplecticSystem.h | 10 ++++++----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 7137914..d81dffa 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -47,6 +47,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     for (size_t i = 0; i < numSteps; ++i)
     {
         xCached_ = state;
+        tCached_ = time;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
@@ -71,6 +72,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     for (size_t i = 0; i < numSteps; ++i)
     {
         xCached_ = state;
+        tCached_ = time;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
@@ -93,7 +95,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::setup
         const StateVector<POS_DIM, SCALAR>& vState(static_cast<const StateVector<POS_DIM, SCALAR>&>(v));
         StateVector<POS_DIM, SCALAR>& dxdtState(static_cast<StateVector<POS_DIM, SCALAR>&>(dxdt));
         xCached_.template bottomRows<VEL_DIM>() = v;
-        systemSymplectic_->computePdot(xCached_, vState, dxdtState);
+        systemSymplectic_->computePdot(xCached_, vState, dxdtState, tCached_);
     };
 
     systemFunctionVelocity_ = [this](
@@ -101,7 +103,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::setup
         const StateVector<VEL_DIM, SCALAR>& xState(static_cast<const StateVector<VEL_DIM, SCALAR>&>(x));
         StateVector<VEL_DIM, SCALAR>& dvdtState(static_cast<StateVector<VEL_DIM, SCALAR>&>(dvdt));
         xCached_.template topRows<POS_DIM>() = x;
-        systemSymplectic_->computeVdot(xCached_, xState, dvdtState);
+        systemSymplectic_->computeVdot(xCached_, xState, dvdtState, tCached_);
     };
 }
 }
diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic.h b/ct_core/include/ct/core/integration/IntegratorSymplectic.h
index c63a03f..1dae013 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic.h
@@ -103,6 +103,7 @@ private:
 	 */
     void setupSystem();
     StateVector<POS_DIM + VEL_DIM, SCALAR> xCached_;  //! The cached state. This will be used for the system function
+    SCALAR tCached_;  //!< start time of the current step
 
     std::function<void(const Eigen::Matrix<SCALAR, POS_DIM, 1>&, Eigen::Matrix<SCALAR, POS_DIM, 1>&)>
         systemFunctionPosition_;  //! the position system function
diff --git a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
index 5233ea0..07babc8 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
@@ -89,11 +89,12 @@ public:
 	 */
     void computePdot(const StateVector<POS_DIM + VEL_DIM, SCALAR>& x,
         const StateVector<VEL_DIM, SCALAR>& v,
-        StateVector<POS_DIM, SCALAR>& pDot)
+        StateVector<POS_DIM, SCALAR>& pDot,
+        const time_t& t = time_t(0.0))
     {
         ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, t, controlAction);
         else
             controlAction.setZero();
 
@@ -109,11 +110,12 @@ public:
 	 */
     void computeVdot(const StateVector<POS_DIM + VEL_DIM, SCALAR>& x,
         const StateVector<POS_DIM, SCALAR>& p,
-        StateVector<VEL_DIM, SCALAR>& vDot)
+        StateVector<VEL_DIM, SCALAR>& vDot,
+        const time_t& t = time_t(0.0))
     {
         ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, t, controlAction);
         else
             controlAction.setZero();
 
-- 
2.43.0


From 5dc5fcbdfa014469b03a1b881b2a021e2c11c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:45 +0000
Subject: [PATCH 008/113] fix: symplectic integration must not append to the
 trajectories of an earlier run

---
 ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index d81dffa..782c210 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -41,6 +41,8 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     xPair.first = state.head(POS_DIM);
     xPair.second = state.tail(VEL_DIM);
     SCALAR time = startTime;
+    stateTrajectory.clear();
+    timeTrajectory.clear();
     stateTrajectory.push_back(state);
     timeTrajectory.push_back(time);
 
-- 
2.43.0


From e01633ecc6355cda4f8d01e9710567517b48b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:45 +0000
Subject: [PATCH 009/113] fix: error tolerances set on an integrator must reach
 its adaptive stepper

---
 .../ct/core/integration/internal/StepperBase.h       |  2 +-
 .../ct/core/integration/internal/SteppersODEInt.h    | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/internal/StepperBase.h b/ct_core/include/ct/core/integration/internal/StepperBase.h
index ba57e3c..ccd9400 100644
--- a/ct_core/include/ct/core/integration/internal/StepperBase.h
+++ b/ct_core/include/ct/core/integration/internal/StepperBase.h
@@ -171,7 +171,7 @@ public:
      * @param[in]  absErrTol  The absolute error tolerance
      * @param[in]  relErrTol  The relative error tolerance
      */
-    void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
     {
         absErrTol_ = absErrTol;
         relErrTol_ = relErrTol;
diff --git a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
index 731baa6..10e14b8 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
@@ -118,6 +118,12 @@ public:
         stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
@@ -175,6 +181,12 @@ public:
         stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
-- 
2.43.0


From d1fdf210be08aac37dfbebbe814aa5e12133eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:28 +0000
Subject: [PATCH 010/113] fix: KillIntegrationEventHandler must implement the
 event handler interface (could not be instantiated)

---
 .../integration/EventHandlers/KillIntegrationEventHandler.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
index da97fa9..ec9c5c1 100644
--- a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
+++ b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
@@ -22,7 +22,7 @@ template <size_t STATE_DIM>
 class KillIntegrationEventHandler : public EventHandler<STATE_DIM>
 {
 public:
-    typedef Eigen::Matrix<double, STATE_DIM, 1> State_T;
+    typedef ct::core::StateVector<STATE_DIM> State_T;
 
     //! default constructor
     /*!
-- 
2.43.0


From 6838719fb5c6df8601f4e4d919a6ea502eb3f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:33 +0000
Subject: [PATCH 011/113] fix: scalar + vector for adaptive step size control
 must add, not multiply, the absolute tolerance

---
 ct_core/include/ct/core/integration/eigenIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/eigenIntegration.h b/ct_core/include/ct/core/integration/eigenIntegration.h
index 6bd13d5..2325892 100644
--- a/ct_core/include/ct/core/integration/eigenIntegration.h
+++ b/ct_core/include/ct/core/integration/eigenIntegration.h
@@ -40,7 +40,7 @@ inline Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtC
     const MatrixBase<D>& m)
 {
     Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtCompileTime, 1> result = m;
-    result *= s;
+    result.array() += s;
     return result;
 }
 
-- 
2.43.0


From 37369390613ad2c7cf301330d31726298ba7b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:53 +0000
Subject: [PATCH 012/113] fix: Tustin sensitivities must use half the time step
 on either side of the bilinear transform

---
 .../core/integration/sensitivity/SensitivityApproximation.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index 30ae591..ca4336f 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -150,10 +150,10 @@ public:
 
                 // front derivatives
                 linearSystem_->getDerivatives(Ac_front, Bc_front, x, u, n * settings_.dt_);
-                Ac_front *= settings_.dt_;
+                Ac_front *= 0.5 * settings_.dt_;
 
                 state_matrix_t Ac_back =
-                    settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
+                    0.5 * settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
 
 
                 //! tustin approximation
-- 
2.43.0


From a954126b0f846aa9ce0fa499be5e3223ed5b0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:16 +0000
Subject: [PATCH 013/113] fix: symplectic integration must record the substep
 state belonging to the recorded substep time

---
 .../include/ct/core/integration/IntegratorSymplectic-impl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 782c210..79fce31 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -51,9 +51,9 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
         xCached_ = state;
         tCached_ = time;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
+        observer_.observeInternal(state, time);  // substep state and time are those at the start of the step
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
         time += dt;
         stateTrajectory.push_back(state);
         timeTrajectory.push_back(time);
@@ -76,9 +76,9 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
         xCached_ = state;
         tCached_ = time;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
+        observer_.observeInternal(state, time);  // substep state and time are those at the start of the step
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
         time += dt;
     }
 }
-- 
2.43.0


From 4a9c52916975bf3622aa88e236d0748e848bcb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:16 +0000
Subject: [PATCH 014/113] fix: matrix exponential discretisation must not
 require an invertible system matrix

---
 .../sensitivity/SensitivityApproximation.h         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index ca4336f..cf5c37e 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -227,11 +227,15 @@ private:
         state_control_matrix_t Bc;
         linearSystem_->getDerivatives(Ac, Bc, x_n, u_n, n * settings_.dt_);
 
-        state_matrix_t Adt = settings_.dt_ * Ac;
-
-        A_discr.template topLeftCorner<STATE_DIM, STATE_DIM>() = Adt.exp();
-        B_discr.template topLeftCorner<STATE_DIM, CONTROL_DIM>() =
-            Ac.inverse() * (A_discr - state_matrix_t::Identity()) * Bc;
+        // exponential of the augmented matrix [Ac Bc; 0 0], which does not require Ac to be invertible
+        typedef Eigen::Matrix<SCALAR, STATE_DIM + CONTROL_DIM, STATE_DIM + CONTROL_DIM> augmented_matrix_t;
+        augmented_matrix_t augmented = augmented_matrix_t::Zero();
+        augmented.template topLeftCorner<STATE_DIM, STATE_DIM>() = settings_.dt_ * Ac;
+        augmented.template topRightCorner<STATE_DIM, CONTROL_DIM>() = settings_.dt_ * Bc;
+        const augmented_matrix_t augmentedExp = augmented.exp();
+
+        A_discr = augmentedExp.template topLeftCorner<STATE_DIM, STATE_DIM>();
+        B_discr = augmentedExp.template topRightCorner<STATE_DIM, CONTROL_DIM>();
     }
 
 
-- 
2.43.0


From 53debc7b6a9001448aad9fafef28b4caa453515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:16 +0000
Subject: [PATCH 015/113] fix: sensitivity integration must advance time over
 the substeps of an interval

---
 .../ct/core/integration/sensitivity/SensitivityIntegrator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
index d73e7fc..8a39e6c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
@@ -144,7 +144,7 @@ public:
 
         for (size_t i = 0; i < numSteps; ++i)
         {
-            stepper_->do_step(dFdxDot_, AB, k * dt_, dt_);
+            stepper_->do_step(dFdxDot_, AB, (k * numSteps + i) * dt_, dt_);
         }
 
         A = AB.template leftCols<STATE_DIM>();
@@ -196,8 +196,8 @@ public:
 
         if (!timeVarying_)
         {
-            Aconst_ = linearSystem_->getDerivativeState(x, u, n * dt_);
-            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * dt_);
+            Aconst_ = linearSystem_->getDerivativeState(x, u, n * numSteps * dt_);
+            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * numSteps * dt_);
         }
 
         integrateSensitivity(n, numSteps, A, B);
-- 
2.43.0


From 8fa9a7ea7c3249f7d276b0f76d5232a294050698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:16 +0000
Subject: [PATCH 016/113] fix: copying a SystemDiscretizer must copy the
 argument's system and controllers

---
 .../systems/discrete_time/SystemDiscretizer-impl.h   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index 2aae2ae..9064a56 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -56,9 +56,15 @@ SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::~SystemDiscreti
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SystemDiscretizer(const SystemDiscretizer& arg)
-    : dt_(arg.dt_), K_sim_(arg.K_sim_), dt_sim_(arg.dt_sim_), integratorType_(arg.integratorType_)
-{
-    changeContinuousTimeSystem(ContinuousSystemPtr(cont_time_system_->clone()));
+    : Base(arg),
+      dt_(arg.dt_),
+      K_sim_(arg.K_sim_),
+      dt_sim_(arg.dt_sim_),
+      integratorType_(arg.integratorType_),
+      cont_constant_controller_(new ConstantController<STATE_DIM, CONTROL_DIM, SCALAR>(*arg.cont_constant_controller_))
+{
+    if (arg.cont_time_system_)
+        changeContinuousTimeSystem(arg.cont_time_system_);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From b8d18257a18f1904df7c098b42ffd34d647a4051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:06 +0000
Subject: [PATCH 017/113] fix: symplectic systems must remember the last
 control action

---
 .../systems/continuous_time/SymplecticSystem.h     | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
index 07babc8..8a5231f 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
@@ -92,13 +92,12 @@ public:
         StateVector<POS_DIM, SCALAR>& pDot,
         const time_t& t = time_t(0.0))
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, t, controlAction);
+            this->controller_->computeControl(x, t, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computePdot(x, v, controlAction, pDot);
+        computePdot(x, v, this->controlAction_, pDot);
     }
 
     /**
@@ -113,13 +112,12 @@ public:
         StateVector<VEL_DIM, SCALAR>& vDot,
         const time_t& t = time_t(0.0))
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, t, controlAction);
+            this->controller_->computeControl(x, t, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computeVdot(x, p, controlAction, vDot);
+        computeVdot(x, p, this->controlAction_, vDot);
     }
 
 
-- 
2.43.0


From 6720fd1f2136cad97b97c08ee5703f58b67f6794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 018/113] fix: RBFGaussActivation constructor must use a
 decaying exponent, as loadConfigFile does

---
 ct_core/include/ct/core/common/activations/RBFGaussActivation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
index b5a6e35..6c0e238 100644
--- a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
+++ b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
@@ -18,7 +18,7 @@ public:
     RBFGaussActivation() {}
     RBFGaussActivation(const SCALAR mu, const SCALAR sigma) : mu_(mu), sigma_(sigma)
     {
-        sigma2inv_ = SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
+        sigma2inv_ = -SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
         factor_ = SCALAR(1.0) / sqrt(SCALAR(2.0) * M_PI * sigma_ * sigma_);
     }
     virtual ~RBFGaussActivation() {}
-- 
2.43.0


From 0e8583a67345846c1a7fe90cb93a943b2eee7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 019/113] fix: PeriodicActivation constructor must initialise
 its end time

---
 .../include/ct/core/common/activations/PeriodicActivation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
index 1157cce..9149369 100644
--- a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <cmath>
+#include <limits>
 
 #include "../activations/ActivationBase.hpp"
 #include <ct/core/internal/traits/TraitSelectorSpecs.h>
@@ -22,7 +23,8 @@ public:
         : active_percentage_(active_percentage),
           period_(period),
           activation_offset_(activation_offset),
-          period_offset_(period_offset)
+          period_offset_(period_offset),
+          t_end_(std::numeric_limits<SCALAR>::max())
     {
     }
     virtual ~PeriodicActivation() {}
-- 
2.43.0


From 545b83db420791e38fac45db6b5044c8e585aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 020/113] fix: BarrierActivation must activate the bounds found
 in the config file

---
 .../include/ct/core/common/activations/BarrierActivation.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
index ddd2e60..8c05150 100644
--- a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
@@ -58,6 +58,7 @@ public:
         {
             // if there is no or a wrongly specified upper bound
             ub_ = pt.get<SCALAR>(termName + ".upper_bound");
+            ub_active_ = true;
         } catch (std::exception& e)
         {
             // we set the upper bound inactive
@@ -69,6 +70,7 @@ public:
         {
             // if there is no or a wrongly specified lower bound
             lb_ = pt.get<SCALAR>(termName + ".lower_bound");
+            lb_active_ = true;
         } catch (std::exception& e)
         {
             // we set the lower bound inactive
-- 
2.43.0


From b4374fe988d4d0ab82824c881d5f5b949ccccd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 021/113] fix: an unknown time activation kind must not
 dereference a null pointer

---
 ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
index aa9f83b..da98679 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
@@ -160,13 +160,13 @@ void TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadTimeActivation(c
         boost::algorithm::to_lower(activationKind);
         std::shared_ptr<ct::core::tpl::ActivationBase<SCALAR_EVAL>> c_i;
         CT_LOADABLE_ACTIVATIONS(SCALAR_EVAL);
-        c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
         if (!c_i)
         {
             throw std::runtime_error("Activation type \"" + activationKind + "\" not supported");
         }
         else
         {
+            c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
             c_i_ = c_i;
             if (verbose)
                 c_i_->printInfo();
-- 
2.43.0


From 530442aaa1b2bc7e5fd8e8e8f63384137c105ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 022/113] fix: the time activation must scale an intermediate
 cost term once, not twice

---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 3b79d02..baf244c 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -317,7 +317,7 @@ SCALAR CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::evaluateIntermedia
         {
             continue;
         }
-        y += it->computeActivation(this->t_) * it->eval(this->x_, this->u_, this->t_);
+        y += it->computeActivation(this->t_) * it->evaluate(this->x_, this->u_, this->t_);
     }
 
     return y;
-- 
2.43.0


From 0d46c7a5bd76728b46059aa8dec824a3c4316ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 023/113] fix: numerical cost derivatives must evaluate at and
 restore the current point

---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index baf244c..4a93f7f 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -179,6 +179,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    t_local -= this->t_shift_;  // setCurrentStateAndControl() adds the time shift again
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < STATE_DIM; ++i)
@@ -214,6 +215,9 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
         }
     }
 
+    // restore the current state and control
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
+
     return dFdx;
 }
 
@@ -226,6 +230,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    t_local -= this->t_shift_;  // setCurrentStateAndControl() adds the time shift again
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < CONTROL_DIM; ++i)
@@ -262,6 +267,9 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
         }
     }
 
+    // restore the current state and control
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
+
     return dFdu;
 }
 
-- 
2.43.0


From 2851af632b3c86f1f0a47650c5593ae19839ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 024/113] fix: CostFunctionQuadraticSimple must copy its base
 and honour the time shift

---
 .../costfunction/CostFunctionQuadraticSimple-impl.hpp      | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index d85f5d0..16ac7af 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -42,7 +42,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::~CostFunctionQuadra
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadraticSimple(
     const CostFunctionQuadraticSimple& arg)
-    : x_deviation_(arg.x_deviation_),
+    : CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>(arg),
+      x_deviation_(arg.x_deviation_),
       x_nominal_(arg.x_nominal_),
       Q_(arg.Q_),
       u_deviation_(arg.u_deviation_),
@@ -66,9 +67,7 @@ void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStat
     const control_vector_t& u,
     const SCALAR& t)
 {
-    this->x_ = x;
-    this->u_ = u;
-    this->t_ = t;
+    CostFunction<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStateAndControl(x, u, t);
 
     this->x_deviation_ = x - x_nominal_;
     this->u_deviation_ = u - u_nominal_;
-- 
2.43.0


From 3a657dda963b81a316a3a43e07a3a055209a9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 025/113] fix: CostFunctionQuadraticSimple must follow
 reference state and control updates

---
 .../costfunction/CostFunctionQuadraticSimple-impl.hpp     | 8 ++++++++
 .../optcon/costfunction/CostFunctionQuadraticSimple.hpp   | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index 16ac7af..6e034f3 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -142,6 +142,14 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceState(const state_vector_t& x_ref)
 {
     x_nominal_ = x_ref;
+    x_deviation_ = this->x_ - x_nominal_;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
+void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceControl(const control_vector_t& u_ref)
+{
+    u_nominal_ = u_ref;
+    u_deviation_ = this->u_ - u_nominal_;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
index 2b472d2..6c2f629 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
@@ -86,6 +86,8 @@ public:
 
     virtual void updateReferenceState(const state_vector_t& x_ref) override;
 
+    virtual void updateReferenceControl(const control_vector_t& u_ref) override;
+
     virtual void updateFinalState(const state_vector_t& x_final) override;
 
 protected:
-- 
2.43.0


From 68fc9111cd5366ea6a771c512a0c5dbd1df52456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 026/113] fix: TermStateBarrier must set up its barriers and
 copy its name and activation

---
 .../ct/optcon/costfunction/term/TermStateBarrier-impl.hpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
index 8728a9c..55eedd2 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
@@ -14,17 +14,19 @@ TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier(
     const state_vector_t& alpha)
     : ub_(ub), lb_(lb), alpha_(alpha)
 {
+    initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier()
     : ub_(state_vector_t::Zero()), lb_(state_vector_t::Zero()), alpha_(state_vector_t::Zero())
 {
+    initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier(const TermStateBarrier& arg)
-    : ub_(arg.ub_), lb_(arg.lb_), alpha_(arg.alpha_)
+    : TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>(arg), ub_(arg.ub_), lb_(arg.lb_), alpha_(arg.alpha_)
 {
     initialize();
 }
@@ -93,6 +95,7 @@ void TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFi
     alpha_ = Alpha.diagonal();
     ub_ = Ub.diagonal();
     lb_ = Lb.diagonal();
+    initialize();
 
     if (verbose)
     {
-- 
2.43.0


From 7248d0dafa6361e66476712806581f03c2833041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 027/113] fix: reference updates must reach mixed,
 multiplicative and smooth-absolute terms

---
 .../optcon/costfunction/term/TermMixed-impl.hpp   |  8 ++++++++
 .../ct/optcon/costfunction/term/TermMixed.hpp     |  2 ++
 .../costfunction/term/TermQuadMult-impl.hpp       | 14 ++++++++++++++
 .../ct/optcon/costfunction/term/TermQuadMult.hpp  |  4 ++++
 .../costfunction/term/TermSmoothAbs-impl.hpp      | 15 +++++++++++++++
 .../ct/optcon/costfunction/term/TermSmoothAbs.hpp |  4 ++++
 6 files changed, 47 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index 8d1df09..67102a7 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -167,5 +167,13 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceStat
 {
     x_ref_ = newRefState;
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
index d9b3bd5..aeb7203 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
@@ -85,6 +85,8 @@ public:
 
     void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
 
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
index 21f347f..607a5f8 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
@@ -185,5 +185,19 @@ void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(c
     }
 }
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
index b884402..7f2951e 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
@@ -86,6 +86,10 @@ public:
     void loadConfigFile(const std::string& filename, const std::string& termName, bool verbose = false) override;
 
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
index a78b9e6..4aaf5ac 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
@@ -158,5 +158,20 @@ void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
         std::cout << "\nRead alpha^2 as " << alphaSquared_ << std::endl;
     }
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
index c938096..be6bb5e 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
@@ -80,6 +80,10 @@ public:
         const std::string& termName,
         bool verbose = false) override;  // virtual function for data loading
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
-- 
2.43.0


From 8cab474c7a169fd235c4761b88c34eec321d262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 028/113] fix: cost terms must read their name from the key
 'name'

---
 .../include/ct/optcon/costfunction/term/TermMixed-impl.hpp      | 2 +-
 .../include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index 67102a7..6a26ff7 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -148,7 +148,7 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(cons
     } catch (...)
     {
     }
-    this->name_ = pt.get<std::string>(termName + ".name.", termName);
+    this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "P", P_, termName);
     loadMatrixCF(filename, "x_des", x_ref_, termName);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
index 827d088..582db55 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
@@ -203,7 +203,7 @@ void TermQuadratic<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
     } catch (...)
     {
     }
-    this->name_ = pt.get<std::string>(termName + ".name.", termName);
+    this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "Q", Q_, termName);
     loadMatrixCF(filename, "R", R_, termName);
-- 
2.43.0


From 3ba815dfae01796c1f2a165176c16b0af51b2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:54 +0000
Subject: [PATCH 029/113] fix: TermLinear must initialise its coefficients and
 load the constant from file

---
 .../include/ct/optcon/costfunction/term/TermLinear-impl.hpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
index dfd971d..fabe00a 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
@@ -32,6 +32,9 @@ TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::clone() const
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermLinear()
 {
+    a_.setZero();
+    b_.setZero();
+    c_ = SCALAR_EVAL(0.);
 }
 
 
@@ -116,6 +119,7 @@ void TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(con
     // read in the file and put the valus in a_ and b_
     loadMatrixCF(filename, "a", a_, termName);
     loadMatrixCF(filename, "b", b_, termName);
+    loadScalarOptionalCF(filename, "c", c_, termName, SCALAR_EVAL(0.));
     if (verbose)
     {
         std::cout << "Read a as a= \n" << a_ << std::endl;
-- 
2.43.0


From 139f31be95a11abb03f67c7773688f1354e400cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:15 +0000
Subject: [PATCH 030/113] fix: TermStateBarrier must hold barrier activations
 of the type it creates

---
 .../include/ct/optcon/costfunction/term/TermStateBarrier.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
index fac128b..158d399 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
@@ -68,7 +68,7 @@ protected:
     state_vector_t ub_;
     state_vector_t lb_;
 
-    std::vector<ct::core::tpl::BarrierActivation<SCALAR, ct::core::tpl::TraitSelector<SCALAR>>> barriers_;
+    std::vector<ct::core::tpl::BarrierActivation<SCALAR>> barriers_;
 };
 
 
-- 
2.43.0


From ad143a977b635905bd665c8b0418579171591957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:20 +0000
Subject: [PATCH 031/113] fix: copies of automatic-differentiation linearizers
 must keep their controller

---
 .../ct/core/systems/continuous_time/linear/AutoDiffLinearizer.h | 2 +-
 .../systems/discrete_time/linear/DiscreteSystemLinearizerAD.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/AutoDiffLinearizer.h b/ct_core/include/ct/core/systems/continuous_time/linear/AutoDiffLinearizer.h
index 729358b..ffbc573 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/AutoDiffLinearizer.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/AutoDiffLinearizer.h
@@ -83,7 +83,7 @@ public:
 
     //! copy constructor
     AutoDiffLinearizer(const AutoDiffLinearizer& arg)
-        : Base(arg.nonlinearSystem_->getType()),
+        : Base(arg),
           dFdx_(arg.dFdx_),
           dFdu_(arg.dFdu_),
           nonlinearSystem_(arg.nonlinearSystem_->clone()),
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteSystemLinearizerAD.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteSystemLinearizerAD.h
index 5d75d47..eeabc29 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteSystemLinearizerAD.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteSystemLinearizerAD.h
@@ -82,7 +82,7 @@ public:
 
     //! copy constructor
     DiscreteSystemLinearizerAD(const DiscreteSystemLinearizerAD& arg)
-        : Base(arg.nonlinearSystem_->getType()),
+        : Base(arg),
           dFdx_(arg.dFdx_),
           dFdu_(arg.dFdu_),
           nonlinearSystem_(arg.nonlinearSystem_->clone()),
-- 
2.43.0


From 5b22906671afe43fbbd8444efaa2b77dd19b2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:20 +0000
Subject: [PATCH 032/113] fix: copying a disturbed system must copy the
 argument and its (possibly absent) controller

---
 .../include/ct/optcon/filter/DisturbedSystemController-impl.h  | 3 ++-
 ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
index c4b6c1d..377f37c 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
@@ -18,7 +18,8 @@ DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSy
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
 DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSystemController(
     const DisturbedSystemController& other)
-    : controller_(other.controller_->clone())
+    : ct::core::Controller<STATE_DIM + DIST_DIM, CONTROL_DIM, SCALAR>(other),
+      controller_(other.controller_ ? other.controller_->clone() : nullptr)
 {
 }
 
diff --git a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
index c73e369..605225d 100644
--- a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
@@ -18,7 +18,7 @@ InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(const InputDisturbedSystem& other)
-    : Base(*this), system_(other.system_->clone())
+    : Base(other), system_(other.system_->clone())
 {
 }
 
-- 
2.43.0


From 707ecbd83b273cea2ac7aaa5ea3ef62d036a0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:20 +0000
Subject: [PATCH 033/113] fix: ControlledSystem must initialise its last
 control action

---
 .../include/ct/core/systems/continuous_time/ControlledSystem.h   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h b/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h
index 86eaec3..6a420fa 100644
--- a/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h
@@ -59,6 +59,7 @@ public:
     ControlledSystem(const SYSTEM_TYPE& type = SYSTEM_TYPE::GENERAL)
         : System<STATE_DIM, SCALAR>(type), controller_(nullptr)
     {
+        controlAction_.setZero();
     }
 
     //! constructor
-- 
2.43.0


From 3fd63948d13a72e87eaa301f9fa7a2c8c1a2a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:20 +0000
Subject: [PATCH 034/113] fix: SecondOrderSystem built from k, m, d must have
 the damping ratio d / (2 sqrt(mk))

---
 .../ct/core/systems/continuous_time/SecondOrderSystem.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
index 64e0ec2..368d74a 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
@@ -110,10 +110,10 @@ public:
 	 * @param controller controller (optional)
 	 */
     SecondOrderSystem(SCALAR k, SCALAR m, SCALAR d, SCALAR g_dc, std::shared_ptr<Controller<2, 1>> controller = nullptr)
-        : ControlledSystem<2, 1>(controller),
+        : ControlledSystem<2, 1, SCALAR>(controller, SYSTEM_TYPE::SECOND_ORDER),
           w_n_(std::sqrt(k / m)),
           w_n_square_(w_n_ * w_n_),
-          zeta_(d / (2.0 * m * k)),
+          zeta_(d / (2.0 * std::sqrt(m * k))),
           g_dc_(g_dc)
     {
     }
-- 
2.43.0


From 9230454ff44763c9aae2a13817a299175068b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:46 +0000
Subject: [PATCH 035/113] fix: DerivativesCppad sparse Jacobian and Hessian
 must report the positions of their values

---
 ct_core/include/ct/core/math/DerivativesCppad.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ct_core/include/ct/core/math/DerivativesCppad.h b/ct_core/include/ct/core/math/DerivativesCppad.h
index cbdffd0..e7573c1 100644
--- a/ct_core/include/ct/core/math/DerivativesCppad.h
+++ b/ct_core/include/ct/core/math/DerivativesCppad.h
@@ -122,6 +122,7 @@ public:
             throw std::runtime_error("Outdim dim smaller 0; Define output dim in DerivativesCppad constructor");
 
         jac = adCppadFun_.SparseJacobian(x);
+        rowMajorIndices(outputDim_, x.rows(), iRow, jCol);
     }
 
     virtual Eigen::VectorXd sparseJacobianValues(const Eigen::VectorXd& x)
@@ -154,6 +155,7 @@ public:
             throw std::runtime_error("Outdim dim smaller 0; Define output dim in DerivativesCppad constructor");
 
         hes = adCppadFun_.SparseHessian(x, lambda);
+        rowMajorIndices(x.rows(), x.rows(), iRow, jCol);
     }
 
 
@@ -166,6 +168,18 @@ public:
     }
 
 private:
+    //! row and column indices of the entries of a matrix stored in row-major order
+    static void rowMajorIndices(const int rows, const int cols, Eigen::VectorXi& iRow, Eigen::VectorXi& jCol)
+    {
+        iRow.resize(rows * cols);
+        jCol.resize(rows * cols);
+        for (int i = 0; i < rows * cols; i++)
+        {
+            iRow(i) = i / cols;
+            jCol(i) = i % cols;
+        }
+    }
+
     /**
      * @brief      Records the auto-diff terms
      */
-- 
2.43.0


From 6ff248eb4dedb05e0708b43085e2cf7db3e9ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:46 +0000
Subject: [PATCH 036/113] fix: DerivativesNumDiff must size the Jacobian of
 functions with dynamic dimensions

---
 ct_core/include/ct/core/math/DerivativesNumDiff.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_core/include/ct/core/math/DerivativesNumDiff.h b/ct_core/include/ct/core/math/DerivativesNumDiff.h
index a20eee3..0491616 100644
--- a/ct_core/include/ct/core/math/DerivativesNumDiff.h
+++ b/ct_core/include/ct/core/math/DerivativesNumDiff.h
@@ -90,6 +90,9 @@ public:
             // get evaluation of f(x,u)
             OUT_TYPE y_perturbed = f_(x_perturbed);
 
+            if (i == 0)
+                jac.resize(y_perturbed.rows(), x.rows());  // no-op for fixed-size types
+
             if (doubleSidedDerivative_)
             {
                 volatile double x_mh = x(i) - h;
-- 
2.43.0


From a84dfe195f2a8bf028341f484284ef6011b3bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:33 +0000
Subject: [PATCH 037/113] fix: LQOCProblem box constraint setters validate
 every sparsity index, the count and negative stage indices

---
 .../include/ct/optcon/problem/LQOCProblem-impl.hpp     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp b/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp
index 9fd0431..6483b33 100644
--- a/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp
+++ b/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp
@@ -134,7 +134,7 @@ void LQOCProblem<STATE_DIM, CONTROL_DIM, SCALAR>::setInputBoxConstraint(const in
     const ct::core::ControlVector<CONTROL_DIM, SCALAR>& u_nom_abs)
 {
     if ((u_lb.rows() != u_ub.rows()) || (u_lb.size() != nConstr) || (sp.rows() != nConstr) ||
-        (sp(sp.rows() - 1) > (CONTROL_DIM - 1)))
+        (nConstr > CONTROL_DIM) || (nConstr > 0 && (sp.minCoeff() < 0 || sp.maxCoeff() > (CONTROL_DIM - 1))))
     {
         std::cout << "n.o. constraints : " << nConstr << std::endl;
         std::cout << "u_lb : " << u_lb.transpose() << std::endl;
@@ -143,7 +143,7 @@ void LQOCProblem<STATE_DIM, CONTROL_DIM, SCALAR>::setInputBoxConstraint(const in
         throw(std::runtime_error("LQOCProblem setInputBoxConstraint: error in constraint config"));
     }
 
-    if (index >= K_)
+    if (index < 0 || index >= K_)
         throw(std::runtime_error("LQOCProblem cannot set an intermediate input Box constraint at time >= K_"));
 
     nbu_[index] = nConstr;
@@ -178,7 +178,7 @@ void LQOCProblem<STATE_DIM, CONTROL_DIM, SCALAR>::setIntermediateStateBoxConstra
     const ct::core::StateVector<STATE_DIM, SCALAR>& x_nom_abs)
 {
     if ((x_lb.rows() != x_ub.rows()) || (x_lb.size() != nConstr) || (sp.rows() != nConstr) ||
-        (sp(sp.rows() - 1) > (STATE_DIM - 1)))
+        (nConstr > STATE_DIM) || (nConstr > 0 && (sp.minCoeff() < 0 || sp.maxCoeff() > (STATE_DIM - 1))))
     {
         std::cout << "n.o. constraints : " << nConstr << std::endl;
         std::cout << "x_lb : " << x_lb.transpose() << std::endl;
@@ -187,7 +187,7 @@ void LQOCProblem<STATE_DIM, CONTROL_DIM, SCALAR>::setIntermediateStateBoxConstra
         throw(std::runtime_error("LQOCProblem setIntermediateStateBoxConstraint: error in constraint config"));
     }
 
-    if (index >= K_)
+    if (index < 0 || index >= K_)
         throw(std::runtime_error("LQOCProblem cannot set an intermediate state Box constraint at time >= K_"));
 
     nbx_[index] = nConstr;
@@ -223,7 +223,7 @@ void LQOCProblem<STATE_DIM, CONTROL_DIM, SCALAR>::setTerminalBoxConstraints(cons
     if (nConstr > 0)
     {
         if ((x_lb.rows() != x_ub.rows()) || (x_lb.size() != nConstr) || (sp.rows() != nConstr) ||
-            (sp(sp.rows() - 1) > (STATE_DIM - 1)))
+            (nConstr > STATE_DIM) || (nConstr > 0 && (sp.minCoeff() < 0 || sp.maxCoeff() > (STATE_DIM - 1))))
         {
             std::cout << "n.o. constraints : " << nConstr << std::endl;
             std::cout << "ux_lb : " << x_lb.transpose() << std::endl;
-- 
2.43.0


From 148fddcd7f37113171953617a746891df401ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:59 +0000
Subject: [PATCH 038/113] fix: LQOCProblem::setTerminalBoxConstraints with zero
 constraints clears the previous terminal constraint

---
 ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp b/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp
index 6483b33..533de0b 100644
--- a/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp
+++ b/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp
@@ -242,6 +242,8 @@ void LQOCProblem<STATE_DIM, CONTROL_DIM, SCALAR>::setTerminalBoxConstraints(cons
             x_ub_[K_](i) = x_ub(i) - x_nom_abs(sp(i));  // substract the corresponding entry in nom-state
         }
     }
+    else
+        nbx_[K_] = 0;  // an empty constraint replaces a previously set one
 }
 
 template <int STATE_DIM, int CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From 8cff4bd1520147ef0d095883cd972df4ab4b25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:59 +0000
Subject: [PATCH 039/113] fix: LQOCProblem::setGeneralConstraints rejects
 Jacobians with the wrong number of columns

---
 ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp b/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp
index 533de0b..8bae699 100644
--- a/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp
+++ b/ct_optcon/include/ct/optcon/problem/LQOCProblem-impl.hpp
@@ -252,7 +252,8 @@ void LQOCProblem<STATE_DIM, CONTROL_DIM, SCALAR>::setGeneralConstraints(const co
     const constr_state_jac_t& C,
     const constr_control_jac_t& D)
 {
-    if (d_lb.size() != d_ub.size() || C.rows() != D.rows() || d_lb.size() != C.rows())
+    if (d_lb.size() != d_ub.size() || C.rows() != D.rows() || d_lb.size() != C.rows() || C.cols() != STATE_DIM ||
+        D.cols() != CONTROL_DIM)
     {
         std::cout << "d_lb : " << std::endl << d_lb << std::endl;
         std::cout << "d_ub : " << std::endl << d_ub << std::endl;
-- 
2.43.0


From b4613b46986bddaf1393728457ee727bf88bae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:08 +0000
Subject: [PATCH 040/113] fix: GNRiccatiSolver constructed with a problem
 allocates its workspace (and refuses constrained problems)

---
 .../include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 8f90f0c..4ad8491 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -15,6 +15,9 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 {
     Eigen::initParallel();
     Eigen::setNbThreads(settings_.nThreadsEigen);
+
+    if (lqocProblem)
+        setProblemImpl(lqocProblem);
 }
 
 
-- 
2.43.0


From f7170695f539a754fa4b87bebcc1d7e444de44d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:08 +0000
Subject: [PATCH 041/113] fix: GNRiccatiSolver(int) initializes the number of
 stages before comparing against it

---
 ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 4ad8491..9738f63 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -22,7 +22,7 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N)
+GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N) : N_(-1)
 {
     changeNumberOfStages(N);
 }
-- 
2.43.0


From 6932aed673e07c4de14ba6c4c405bbbfce7244a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:31 +0000
Subject: [PATCH 042/113] fix: GNRiccatiSolver gains for one-dimensional state
 or control (self-adjoint views of 1x1 blocks multiply incorrectly)

---
 .../ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 9738f63..720e29b 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -171,15 +171,15 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
 
     gv_[k] = p.rv_[k];
     gv_[k].noalias() += p.B_[k].transpose() * sv_[k + 1];
-    gv_[k].noalias() += p.B_[k].transpose() * S_[k + 1].template selfadjointView<Eigen::Lower>() * p.b_[k];
+    gv_[k].noalias() += p.B_[k].transpose() * S_[k + 1] * p.b_[k];
 
     G_[k] = p.P_[k];
     //G_[k].noalias() += B_[k].transpose() * S_[k+1] * A_[k];
-    G_[k].noalias() += p.B_[k].transpose() * S_[k + 1].template selfadjointView<Eigen::Lower>() * p.A_[k];
+    G_[k].noalias() += p.B_[k].transpose() * S_[k + 1] * p.A_[k];
 
     H_[k] = p.R_[k];
     //H_[k].noalias() += B_[k].transpose() * S_[k+1] * B_[k];
-    H_[k].noalias() += p.B_[k].transpose() * S_[k + 1].template selfadjointView<Eigen::Lower>() * p.B_[k];
+    H_[k].noalias() += p.B_[k].transpose() * S_[k + 1] * p.B_[k];
 
     if (settings_.fixedHessianCorrection)
     {
@@ -223,10 +223,10 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
         Hi_inverse_[k] = -Hi_[k].template selfadjointView<Eigen::Lower>().llt().solve(ControlMatrix::Identity());
 
         // calculate FB gain update
-        this->L_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * G_[k];
+        this->L_[k].noalias() = Hi_inverse_[k] * G_[k];
 
         // calculate FF update
-        this->lv_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * gv_[k];
+        this->lv_[k].noalias() = Hi_inverse_[k] * gv_[k];
     }
     else
     {
-- 
2.43.0


From d93e3b91186d85c501fecc621729282f876572b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:11 +0000
Subject: [PATCH 043/113] fix: DynamicRiccatiEquation uses the self-adjoint
 eigensolver, eigenvectors are orthogonal for repeated eigenvalues

---
 .../optcon/lqr/riccati/DynamicRiccatiEquation.hpp   | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp b/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp
index d5f2de3..5fe47c0 100644
--- a/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp
@@ -78,18 +78,15 @@ public:
         H_n = (H_n + H_n.transpose()).eval() / 2.0;
 
         // compute eigenvalues with eigenvectors enabled
-        eigenvalueSolver_.compute(H_n, true);
-        const control_matrix_t& V = eigenvalueSolver_.eigenvectors().real();
-        const control_vector_t& lambda = eigenvalueSolver_.eigenvalues().real();
-        assert(eigenvalueSolver_.eigenvectors().imag().norm() < 1e-7 && "Eigenvectors not real");
-        assert(eigenvalueSolver_.eigenvalues().imag().norm() < 1e-7 && "Eigenvalues is not real");
+        // (H_n is symmetric: only the self-adjoint solver guarantees orthogonal eigenvectors for repeated eigenvalues)
+        eigenvalueSolver_.compute(H_n, Eigen::ComputeEigenvectors);
+        const control_matrix_t& V = eigenvalueSolver_.eigenvectors();
+        const control_vector_t& lambda = eigenvalueSolver_.eigenvalues();
         // Corrected Eigenvalue Matrix
         control_matrix_t D = control_matrix_t::Zero();
         // make D positive semi-definite (as described in IV. B.)
         D.diagonal() = lambda.cwiseMax(control_vector_t::Zero()) + epsilon_ * control_vector_t::Ones();
 
-        assert((V.transpose() - V.inverse()).norm() < 1e-5 && "WARNING: V transpose and V inverse are not similar!");
-
         // reconstruct H
         H_n.noalias() = V * D * V.transpose();
 
@@ -111,7 +108,7 @@ public:
 
 private:
     SCALAR epsilon_;
-    Eigen::EigenSolver<control_matrix_t> eigenvalueSolver_;
+    Eigen::SelfAdjointEigenSolver<control_matrix_t> eigenvalueSolver_;
 };
 
 
-- 
2.43.0


From ad38b7275be4d38a0013c8a06357483ce6298701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:11 +0000
Subject: [PATCH 044/113] fix: FHDTLQR linearizes time-varying systems at the
 stage times

---
 ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
index 73f626d..a901f5a 100644
--- a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
@@ -65,8 +65,8 @@ void FHDTLQR<STATE_DIM, CONTROL_DIM, SCALAR>::linearizeModel(const state_vector_
 
     for (int i = 0; i < N; i++)
     {
-        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i]);
-        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i]);
+        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i], i * dt);
+        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i], i * dt);
     }
 }
 
-- 
2.43.0


From 6a974fb7645853f80310de838d338e2c093f9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:04 +0000
Subject: [PATCH 045/113] fix: MpcTimeKeeper starts the delay timer it later
 stops, also when the delay is not used (first policy time stamp was shifted
 by the absolute time)

---
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 0f93e6b..521f046 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -199,13 +199,11 @@ public:
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-        if (mpc_settings_.measureDelay_)
-        {
-            if (mpc_settings_.useExternalTiming_)
-                ext_timer_.start(externalTime);
-            else
-                timer_.start();
-        }
+        // the measurement is always taken, mpc_settings.measureDelay_ only decides whether it is used as delay to apply
+        if (mpc_settings_.useExternalTiming_)
+            ext_timer_.start(externalTime);
+        else
+            timer_.start();
     }
 
 
-- 
2.43.0


From 10a31ea70d3bcf1c3d7506ae336ce94ae148f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:04 +0000
Subject: [PATCH 046/113] fix: MPC::setTimeHorizonStrategy hands the strategy
 to the time keeper, which uses it

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h      | 1 +
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index fabc657..711d050 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -85,6 +85,7 @@ template <typename OPTCON_SOLVER>
 void MPC<OPTCON_SOLVER>::setTimeHorizonStrategy(std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy)
 {
     timeHorizonStrategy_ = timeHorizonStrategy;
+    timeKeeper_.setTimeHorizonStrategy(timeHorizonStrategy);
 }
 
 
diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 521f046..01b521b 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -196,6 +196,11 @@ public:
 	 * 	the new settings to be handed over
 	 */
     void updateSettings(const mpc_settings& settings) { mpc_settings_ = settings; }
+    //! replace the time horizon strategy
+    void setTimeHorizonStrategy(std::shared_ptr<MpcTimeHorizon<SCALAR>> timeHorizonStrategy)
+    {
+        timeHorizonStrategy_ = timeHorizonStrategy;
+    }
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-- 
2.43.0


From 686176c5459b05d70d579266acf7a0a4f175dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:20 +0000
Subject: [PATCH 047/113] fix: MPC forward integration uses the policy of the
 previous iteration instead of the one already shifted for warm starting

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 6 +++++-
 ct_optcon/include/ct/optcon/mpc/MPC.h      | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 711d050..67ad4d4 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -95,6 +95,7 @@ void MPC<OPTCON_SOLVER>::setInitialGuess(const Policy_t& initGuess)
     solver_.setInitialGuess(initGuess);
     policyHandler_->setPolicy(initGuess);
     currentPolicy_ = initGuess;
+    previousPolicy_ = initGuess;
 }
 
 
@@ -128,7 +129,7 @@ void MPC<OPTCON_SOLVER>::doForwardIntegration(const Scalar_t& t_forward_start,
         else
         {
             // ... or with the controller obtained from the solver (solution of last mpc-run).
-            std::shared_ptr<Policy_t> prevController(new Policy_t(currentPolicy_));
+            std::shared_ptr<Policy_t> prevController(new Policy_t(previousPolicy_));
             integrateForward(t_forward_start, t_forward_stop, x_start, prevController);
         }
     }
@@ -156,6 +157,8 @@ void MPC<OPTCON_SOLVER>::prepareIteration(const Scalar_t& extTime)
     // update the Optimal Control Solver with new time horizon and state information
     solver_.changeTimeHorizon(newTimeHorizon);
 
+    // keep the policy which is being applied, the above timings refer to it
+    previousPolicy_ = currentPolicy_;
 
     // Calculate new initial guess / warm-starting policy
     policyHandler_->designWarmStartingPolicy(t_forward_stop_, newTimeHorizon, currentPolicy_);
@@ -252,6 +255,7 @@ bool MPC<OPTCON_SOLVER>::finishIteration(const core::StateVector<STATE_DIM, Scal
 
     // update policy result
     newPolicy = currentPolicy_;
+    previousPolicy_ = currentPolicy_;
 
     // stop the delay measurement. This needs to be the last method called in finishIteration().
     timeKeeper_.stopDelayMeasurement(x_ts);
diff --git a/ct_optcon/include/ct/optcon/mpc/MPC.h b/ct_optcon/include/ct/optcon/mpc/MPC.h
index 6399a2f..a4370a2 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC.h
@@ -242,6 +242,9 @@ private:
     //! currently optimal policy, initial guess respectively
     Policy_t currentPolicy_;
 
+    //! the policy of the previous iteration (before it is shifted for warm starting), used for forward integration
+    Policy_t previousPolicy_;
+
     //! time horizon strategy, e.g. receding horizon optimal control
     std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy_;
 
-- 
2.43.0


From 8f4b6b2571071d3cc4b6c5bdfbf202408e481e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:21 +0000
Subject: [PATCH 048/113] fix: StateFeedbackPolicyHandler extends a policy with
 increasing time stamps (push_back takes a timeIsAbsolute flag)

---
 .../default/StateFeedbackPolicyHandler-impl.h             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
index 352d866..ecbb8c0 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
@@ -62,12 +62,12 @@ void StateFeedbackPolicyHandler<STATE_DIM, CONTROL_DIM, SCALAR>::designWarmStart
     if (Kn_new > currentSize)
     {
         //extend at back with constant value taken from last element
-        bool timeIsRelative = true;
+        const bool timeIsAbsolute = false;
         for (int i = 0; i < Kn_new - currentSize; i++)
         {
-            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsRelative);
-            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsRelative);
-            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsRelative);
+            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsAbsolute);
+            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsAbsolute);
+            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsAbsolute);
         }
     }
     else if (Kn_new < currentSize)
-- 
2.43.0


From 427a55569497d54d2a49d48385fde3f39c7f34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:31 +0000
Subject: [PATCH 049/113] fix: DiscreteConstraintContainerBase reports the
 Hessian sparsity of the lower triangle, matching the values (full patterns
 read out of bounds)

---
 .../include/ct/optcon/nlp/DiscreteConstraintContainerBase.h    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nlp/DiscreteConstraintContainerBase.h b/ct_optcon/include/ct/optcon/nlp/DiscreteConstraintContainerBase.h
index fede7dc..16dc000 100644
--- a/ct_optcon/include/ct/optcon/nlp/DiscreteConstraintContainerBase.h
+++ b/ct_optcon/include/ct/optcon/nlp/DiscreteConstraintContainerBase.h
@@ -199,6 +199,9 @@ public:
         // fill in values in total constraint Hessian
         constraintHessianSparsity_.setFromTriplets(triplets.begin(), triplets.end());
 
+        // the values are those of the lower triangle only, see sparseHessianValues()
+        constraintHessianSparsity_ = constraintHessianSparsity_.template triangularView<Eigen::Lower>();
+
 
         iRowHessianStdVec_.clear();
         jColHessianStdVec_.clear();
-- 
2.43.0


From 7ec1fb15e7761c46766b1ed38f9d92984a41b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:31 +0000
Subject: [PATCH 050/113] fix: OptVector sizes constraint multipliers by the
 number of constraints and variable multipliers by the number of variables

---
 ct_optcon/include/ct/optcon/nlp/OptVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nlp/OptVector.h b/ct_optcon/include/ct/optcon/nlp/OptVector.h
index c0c26df..ee3045a 100644
--- a/ct_optcon/include/ct/optcon/nlp/OptVector.h
+++ b/ct_optcon/include/ct/optcon/nlp/OptVector.h
@@ -67,6 +67,8 @@ public:
         zMul_.setZero();
         zState_.resize(m + 1);
         zState_.setZero();
+        lambda_.resize(m);
+        lambda_.setZero();
     }
 
     void reset() { updateCount_ = 0; }
@@ -85,7 +87,8 @@ public:
         xInit_.resize(size);
         xLb_.resize(size);
         xUb_.resize(size);
-        lambda_.resize(size);
+        xMul_.resize(size);
+        xState_.resize(size);
         zUpper_.resize(size);
         zLow_.resize(size);
     }
-- 
2.43.0


From 7354418dbffc0467118769da48e8ab0fab2924dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:31 +0000
Subject: [PATCH 051/113] fix: IpoptSolver::configure applies changed string
 options (e.g. the Hessian mode) and sets the number of Hessian entries in
 every mode

---
 .../nlp/solver/implementation/IpoptSolver-impl.h  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h b/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h
index 5161da2..2bac931 100644
--- a/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h
+++ b/ct_optcon/include/ct/optcon/nlp/solver/implementation/IpoptSolver-impl.h
@@ -46,19 +46,19 @@ void IpoptSolver<SCALAR>::setSolverOptions()
     // ipoptApp_->Options()->SetNumericValue("resto.tol", settings_.restoTol_);
     // ipoptApp_->Options()->SetNumericValue("acceptable_tol", settings_.acceptableTol_);
     // ipoptApp_->Options()->SetNumericValue("resto.acceptable_tol", settings_.restoAcceptableTol_);
-    ipoptApp_->Options()->SetStringValueIfUnset("linear_scaling_on_demand", settings_.linear_scaling_on_demand_);
-    ipoptApp_->Options()->SetStringValueIfUnset("hessian_approximation", settings_.hessian_approximation_);
-    // ipoptApp_->Options()->SetStringValueIfUnset("nlp_scaling_method", settings_.nlp_scaling_method_);
+    ipoptApp_->Options()->SetStringValue("linear_scaling_on_demand", settings_.linear_scaling_on_demand_);
+    ipoptApp_->Options()->SetStringValue("hessian_approximation", settings_.hessian_approximation_);
+    // ipoptApp_->Options()->SetStringValue("nlp_scaling_method", settings_.nlp_scaling_method_);
     ipoptApp_->Options()->SetIntegerValue("print_level", settings_.printLevel_);  //working now
-    ipoptApp_->Options()->SetStringValueIfUnset("print_user_options", settings_.print_user_options_);
+    ipoptApp_->Options()->SetStringValue("print_user_options", settings_.print_user_options_);
     // ipoptApp_->Options()->SetIntegerValue("print_frequency_iter", settings_.print_frequency_iter_);
-    ipoptApp_->Options()->SetStringValueIfUnset("derivative_test", settings_.derivativeTest_);
+    ipoptApp_->Options()->SetStringValue("derivative_test", settings_.derivativeTest_);
     ipoptApp_->Options()->SetIntegerValue("print_level", settings_.printLevel_);
     ipoptApp_->Options()->SetNumericValue("derivative_test_tol", settings_.derivativeTestTol_);
     ipoptApp_->Options()->SetNumericValue("derivative_test_perturbation", settings_.derivativeTestPerturbation_);
     ipoptApp_->Options()->SetNumericValue("point_perturbation_radius", settings_.point_perturbation_radius_);
-    ipoptApp_->Options()->SetStringValueIfUnset("linear_system_scaling", settings_.linearSystemScaling_);
-    ipoptApp_->Options()->SetStringValueIfUnset("linear_solver", settings_.linear_solver_);
+    ipoptApp_->Options()->SetStringValue("linear_system_scaling", settings_.linearSystemScaling_);
+    ipoptApp_->Options()->SetStringValue("linear_solver", settings_.linear_solver_);
 }
 
 template <typename SCALAR>
@@ -128,6 +128,7 @@ bool IpoptSolver<SCALAR>::get_nlp_info(Ipopt::Index& n,
     nnz_jac_g = static_cast<Ipopt::Index>(this->nlp_->getNonZeroJacobianCount());
     assert(nnz_jac_g == nnz_jac_g);
 
+    nnz_h_lag = 0;
     if (settings_.hessian_approximation_ == "exact")
         nnz_h_lag = static_cast<Ipopt::Index>(this->nlp_->getNonZeroHessianCount());
 
-- 
2.43.0


From 2c682f7a945016a1fc8014aa84a5bce2a28d8cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:54 +0000
Subject: [PATCH 052/113] fix: filter settings load scalars as numbers and from
 the same namespace as the matrices

---
 ct_optcon/include/ct/optcon/filter/FilterSettings.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 596b149..7128c98 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -112,7 +112,7 @@ struct SteadyStateKalmanFilterSettings
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
 
-        maxDAREIterations = pt.get<size_t>(ns + ".maxDAREIterations", 1000);
+        maxDAREIterations = pt.get<size_t>(ns + "maxDAREIterations", 1000);
         ct::core::loadMatrix(filename, "x0", x0, ns);
 
         if (verbose)
@@ -213,9 +213,9 @@ struct UnscentedKalmanFilterSettings
         boost::property_tree::read_info(filename, pt);
 
         ct::core::loadMatrix(filename, "x0", x0, ns);
-        alpha = pt.get<bool>(ns + ".alpha");
-        beta = pt.get<bool>(ns + ".beta");
-        kappa = pt.get<bool>(ns + ".kappa");
+        alpha = pt.get<SCALAR>(ns + "alpha");
+        beta = pt.get<SCALAR>(ns + "beta");
+        kappa = pt.get<SCALAR>(ns + "kappa");
         ct::core::loadMatrix(filename, "P0", P0, ns);
 
         if (verbose)
-- 
2.43.0


From d90b66c501e7ab3bd77f3fcd8004d708cfcb70dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:54 +0000
Subject: [PATCH 053/113] fix: NLOptConSettings::load reads every enumerated
 key independently of the others, fromConfigFile honours verbose

---
 .../ct/optcon/solver/NLOptConSettings.hpp      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
index fd6918b..07b3f1a 100644
--- a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
+++ b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
@@ -548,7 +548,12 @@ public:
 
                 exit(-1);
             }
+        } catch (...)
+        {
+        }
 
+        try
+        {
             std::string discretizationStr = pt.get<std::string>(ns + ".discretization");
             if (stringToDiscretization.find(discretizationStr) != stringToDiscretization.end())
             {
@@ -565,7 +570,12 @@ public:
 
                 exit(-1);
             }
+        } catch (...)
+        {
+        }
 
+        try
+        {
             std::string nlocp_algorithmStr = pt.get<std::string>(ns + ".nlocp_algorithm");
             if (stringToNlocAlgorithm.find(nlocp_algorithmStr) != stringToNlocAlgorithm.end())
             {
@@ -583,8 +593,12 @@ public:
 
                 exit(-1);
             }
+        } catch (...)
+        {
+        }
 
-
+        try
+        {
             std::string locp_solverStr = pt.get<std::string>(ns + ".locp_solver");
             if (stringToLqocSolver.find(locp_solverStr) != stringToLqocSolver.end())
             {
@@ -626,7 +640,7 @@ public:
         const std::string& ns = "alg")
     {
         NLOptConSettings settings;
-        settings.load(filename, true, ns);
+        settings.load(filename, verbose, ns);
         return settings;
     }
 
-- 
2.43.0


From d074ad651c9b3393cce5f387e575c72a4b2987c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:31 +0000
Subject: [PATCH 054/113] fix: LineSearchSettings::load reads every key
 independently of the presence of the others

---
 .../ct/optcon/solver/NLOptConSettings.hpp       | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
index 07b3f1a..59b767f 100644
--- a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
+++ b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
@@ -92,12 +92,12 @@ struct LineSearchSettings
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
 
-        std::string ls_type = pt.get<std::string>(ns + ".type");
-        if (stringToLineSearchType.find(ls_type) != stringToLineSearchType.end())
+        const boost::optional<std::string> ls_type = pt.get_optional<std::string>(ns + ".type");
+        if (ls_type && stringToLineSearchType.find(*ls_type) != stringToLineSearchType.end())
         {
-            type = stringToLineSearchType[ls_type];
+            type = stringToLineSearchType[*ls_type];
         }
-        else
+        else if (ls_type)
         {
             std::cout << "Invalid line search type specified in config, should be one of the following:" << std::endl;
 
@@ -110,10 +110,11 @@ struct LineSearchSettings
         }
 
 
-        maxIterations = pt.get<size_t>(ns + ".maxIterations");
-        alpha_0 = pt.get<double>(ns + ".alpha_0");
-        n_alpha = pt.get<double>(ns + ".n_alpha");
-        debugPrint = pt.get<bool>(ns + ".debugPrint");
+        // keys which are not specified keep their (default) value, independent of the other keys
+        maxIterations = pt.get<size_t>(ns + ".maxIterations", maxIterations);
+        alpha_0 = pt.get<double>(ns + ".alpha_0", alpha_0);
+        n_alpha = pt.get<double>(ns + ".n_alpha", n_alpha);
+        debugPrint = pt.get<bool>(ns + ".debugPrint", debugPrint);
         alpha_max = alpha_0;
         adaptive = false;
 
-- 
2.43.0


From aa7a27605d7cf1bfca9bd37c3520bb2642c26a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:08 +0000
Subject: [PATCH 055/113] fix: controllability and observability matrices of
 LTI systems (did not compile, observability blocks out of place)

---
 .../systems/continuous_time/linear/LTISystem.h | 18 +++++++++---------
 .../discrete_time/linear/DiscreteLTISystem.h   | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index e6b54f2..c15ad02 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -128,12 +128,12 @@ public:
 	 */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -159,14 +159,14 @@ public:
 	 * Computes the observability matrix to assess observability. See isObservable() for the full test.
 	 * @param O observability matrix
 	 */
-    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
+    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
+                O.template block<STATE_DIM, STATE_DIM>((i - 1) * STATE_DIM, 0) * A_;
         }
     }
 
@@ -178,10 +178,10 @@ public:
 	 */
     bool isObservable()
     {
-        Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM> O;
+        Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM> O;
         computeObservabilityMatrix(O);
 
-        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>> LUdecomposition(O);
+        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>> LUdecomposition(O);
         return LUdecomposition.rank() == STATE_DIM;
     }
 
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index 36ffa3e..faf5dbd 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -109,12 +109,12 @@ public:
      */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -170,14 +170,14 @@ public:
      * isObservable() for the full test.
      * @param O observability matrix
      */
-    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
+    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
+                O.template block<STATE_DIM, STATE_DIM>((i - 1) * STATE_DIM, 0) * A_;
         }
     }
 
@@ -220,10 +220,10 @@ public:
      */
     bool isObservable()
     {
-        Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM> O;
+        Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM> O;
         computeObservabilityMatrix(O);
 
-        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>> LUdecomposition(O);
+        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>> LUdecomposition(O);
         return LUdecomposition.rank() == STATE_DIM;
     }
 
-- 
2.43.0


From 406311dd71238b1c349c14d469867ca5ef19d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:08 +0000
Subject: [PATCH 056/113] fix: DiscreteLTISystem was abstract and did not
 override the discrete dynamics

---
 .../discrete_time/linear/DiscreteLTISystem.h  | 43 +++++++++++++++----
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index faf5dbd..60121a2 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -34,6 +34,15 @@ class DiscreteLTISystem : public DiscreteLinearSystem<STATE_DIM, CONTROL_DIM>
 public:
     EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 
+    typedef DiscreteLinearSystem<STATE_DIM, CONTROL_DIM> Base;
+    typedef typename Base::time_t time_t;
+    typedef typename Base::state_vector_t state_vector_t;
+    typedef typename Base::control_vector_t control_vector_t;
+    typedef typename Base::state_matrix_t state_matrix_t;
+    typedef typename Base::state_control_matrix_t state_control_matrix_t;
+
+    using Base::getAandB;
+
     //! Constructs a discrete linear time invariant system
     /*!
      * @param A A matrix
@@ -51,7 +60,10 @@ public:
     }
 
     //! copy constructor
-    DiscreteLTISystem(const DiscreteLTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    DiscreteLTISystem(const DiscreteLTISystem& arg)
+        : DiscreteLinearSystem<STATE_DIM, CONTROL_DIM>(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_)
+    {
+    }
     //! deep clone
     DiscreteLTISystem<STATE_DIM, CONTROL_DIM>* clone() const override
     {
@@ -74,14 +86,27 @@ public:
      * @param control control input
      * @param derivative state derivative
      */
-    void propagateControlledDynamics(const Eigen::Matrix<double, STATE_DIM, 1>& state,
-        const time_t& n,
-        const Eigen::Matrix<double, CONTROL_DIM, 1>& control,
-        Eigen::Matrix<double, STATE_DIM, 1>& stateNext)
+    void propagateControlledDynamics(const state_vector_t& state,
+        const time_t n,
+        const control_vector_t& control,
+        state_vector_t& stateNext) override
     {
         stateNext = A_ * state + B_ * control;
     }
 
+    //! retrieve the (constant) discrete-time linear system matrices
+    void getAandB(const state_vector_t& x,
+        const control_vector_t& u,
+        const state_vector_t& x_next,
+        const int n,
+        size_t subSteps,
+        state_matrix_t& A,
+        state_control_matrix_t& B) override
+    {
+        A = A_;
+        B = B_;
+    }
+
     //! computes the system output (measurement)
     /*!
      * Computes \f$ y_{n+1} = Cx_n + Du_n \f$
@@ -90,10 +115,10 @@ public:
      * @param control control input
      * @param output system output (measurement)
      */
-    void computeOutput(const Eigen::Matrix<double, STATE_DIM, 1>& state,
-        const time_t& n,
-        const Eigen::Matrix<double, CONTROL_DIM, 1>& control,
-        Eigen::Matrix<double, STATE_DIM, 1>& output)
+    void computeOutput(const state_vector_t& state,
+        const time_t n,
+        const control_vector_t& control,
+        state_vector_t& output)
     {
         output = C_ * state + D_ * control;
     }
-- 
2.43.0


From 18f0f26b755ce03014f1997ae6996917873dd8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:08 +0000
Subject: [PATCH 057/113] fix: linearizers dereference a null system before
 rejecting it

---
 .../ct/core/systems/continuous_time/linear/SystemLinearizer.h   | 2 +-
 .../systems/discrete_time/linear/DiscreteSystemLinearizer.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/SystemLinearizer.h b/ct_core/include/ct/core/systems/continuous_time/linear/SystemLinearizer.h
index 9554dae..074faf8 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/SystemLinearizer.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/SystemLinearizer.h
@@ -73,7 +73,7 @@ public:
 	 * @param doubleSidedDerivative if true, double sided numerical differentiation is used
 	 */
     SystemLinearizer(std::shared_ptr<system_t> nonlinearSystem, bool doubleSidedDerivative = true)
-        : Base(nonlinearSystem->getType()),
+        : Base(nonlinearSystem ? nonlinearSystem->getType() : SYSTEM_TYPE::GENERAL),
           nonlinearSystem_(nonlinearSystem),
           linearizer_(std::bind(&system_t::computeControlledDynamics,
                           nonlinearSystem_.get(),
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteSystemLinearizer.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteSystemLinearizer.h
index d33f4da..a2c20ae 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteSystemLinearizer.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteSystemLinearizer.h
@@ -58,7 +58,7 @@ public:
      * @param doubleSidedDerivative if true, double sided numerical differentiation is used
      */
     DiscreteSystemLinearizer(std::shared_ptr<system_t> nonlinearSystem, bool doubleSidedDerivative = true)
-        : Base(nonlinearSystem->getType()),
+        : Base(nonlinearSystem ? nonlinearSystem->getType() : SYSTEM_TYPE::GENERAL),
           nonlinearSystem_(nonlinearSystem),
           linearizer_(std::bind(&system_t::propagateControlledDynamics,
                           nonlinearSystem_.get(),
-- 
2.43.0


From 84699bae165067f31bef5d7a30207b6aa8ae6c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:08 +0000
Subject: [PATCH 058/113] fix: DisturbedSystem::setController on a system
 constructed without controller

---
 .../include/ct/optcon/filter/DisturbedSystem-impl.h    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
index 720a3da..70c782d 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
@@ -29,8 +29,14 @@ template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR
 void DisturbedSystem<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::setController(
     const std::shared_ptr<ct::core::Controller<STATE_DIM, CONTROL_DIM, SCALAR>> controller)
 {
-    std::dynamic_pointer_cast<DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>>(this->controller_)
-        ->setController(controller);
+    auto disturbedController =
+        std::dynamic_pointer_cast<DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>>(
+            this->controller_);
+    if (disturbedController)
+        disturbedController->setController(controller);
+    else
+        this->controller_ = std::shared_ptr<DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>>(
+            new DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>(controller));
 }
 
 }  // namespace optcon
-- 
2.43.0


From b27b53968438d3aa7a1e717b2c2ec0a1a29ee684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:48 +0000
Subject: [PATCH 059/113] fix: CTSystemModel linearises one step too early when
 t/dt is rounded down

---
 ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
index d566c98..acda665 100644
--- a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
@@ -51,7 +51,7 @@ auto CTSystemModel<STATE_DIM, CONTROL_DIM, SCALAR>::computeDerivativeState(const
 
     sensApprox_->setTimeDiscretization(dt);
 
-    sensApprox_->getAandB(state, u, state, int(t / dt), 1, A, Btemp);
+    sensApprox_->getAandB(state, u, state, std::lround(t / dt), 1, A, Btemp);
     return A;
 }
 
-- 
2.43.0


From 631b2524045d8cdb0299675cd11782e6bcdff165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:42 +0000
Subject: [PATCH 060/113] fix: QuantizationNoise writes past its rest buffer
 for a new index and after reset, and overflows for many quants

---
 ct_core/include/ct/core/common/QuantizationNoise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/common/QuantizationNoise.h b/ct_core/include/ct/core/common/QuantizationNoise.h
index 5af2170..a0867e0 100644
--- a/ct_core/include/ct/core/common/QuantizationNoise.h
+++ b/ct_core/include/ct/core/common/QuantizationNoise.h
@@ -49,11 +49,11 @@ public:
     void noisify(double& value, size_t index = 0)
     {
         if (index >= quantizationRest_.size())
-            quantizationRest_.resize(index, 0);
+            quantizationRest_.resize(index + 1, 0);
 
         double currentValue = value + quantizationRest_[index];
         double nQuantsDouble = currentValue / quantizationInterval_;
-        int nQuants;
+        double nQuants;
 
         switch (quantizationMethod_)
         {
-- 
2.43.0


From ec3ee6c214745ecca19928105ae37b3add4047e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:42 +0000
Subject: [PATCH 061/113] fix: JointState ordering operators did not compile

---
 ct_rbd/include/ct/rbd/state/JointState.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/state/JointState.h b/ct_rbd/include/ct/rbd/state/JointState.h
index 2beb6e4..991c8f4 100644
--- a/ct_rbd/include/ct/rbd/state/JointState.h
+++ b/ct_rbd/include/ct/rbd/state/JointState.h
@@ -59,12 +59,12 @@ public:
 
     inline bool operator<(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() < rhs.array()).isConstant(1);
+        return (this->state_.array() < rhs.state_.array()).all();
     }
 
     inline bool operator>(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() > rhs.array()).isConstant(1);
+        return (this->state_.array() > rhs.state_.array()).all();
     }
 
     bool isApprox(const JointState<NJOINTS, SCALAR>& rhs, const SCALAR& tol = 1e-10)
-- 
2.43.0


From 8cf4e64609cdd99b61ab471159a976bc635e6486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:42 +0000
Subject: [PATCH 062/113] fix: SecondOrderActuatorDynamics with per-joint
 parameters did not compile

---
 .../robot/actuator/SecondOrderActuatorDynamics-impl.h    | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
index 3a02d0b..afeb66a 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
@@ -27,10 +27,9 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n or zeta is not correct size");
 
-    oscillators_.resize(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] =
-            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i]));
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i])));
 }
 
 template <size_t NJOINTS, typename SCALAR>
@@ -41,9 +40,9 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS) || (g_dc.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n, zeta or g_dc is not correct size");
 
-    oscillators_.resize(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] = ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]);
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]));
 }
 
 template <size_t NJOINTS, typename SCALAR>
-- 
2.43.0


From 9a91c835033630487eb384210bece20c979f5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:50 +0000
Subject: [PATCH 063/113] fix: setAllPIDGains discarded sampling time and
 limits of the joint controllers

---
 .../rbd/robot/control/JointPositionPIDController-impl.h  | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h b/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
index 7dbd3dc..c45a927 100644
--- a/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
@@ -80,13 +80,12 @@ void JointPositionPIDController<NJOINTS>::setDesiredPosition(double desiredPosit
 template <size_t NJOINTS>
 void JointPositionPIDController<NJOINTS>::setAllPIDGains(double kp, double ki, double kd)
 {
-    PIDController::parameters_t parameters;
-    parameters.k_p = kp;
-    parameters.k_i = ki;
-    parameters.k_d = kd;
-
     for (size_t i = 0; i < NJOINTS; i++)
     {
+        PIDController::parameters_t parameters = jointControllers_[i].Parameters();
+        parameters.k_p = kp;
+        parameters.k_i = ki;
+        parameters.k_d = kd;
         jointControllers_[i].changeParameters(parameters);
     }
 }
-- 
2.43.0


From 8280e16392d0f92ef869d0620810f53bb78af821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:50 +0000
Subject: [PATCH 064/113] fix: sampled arm trajectory could end before the last
 joint arrived

---
 ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h b/ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h
index 8a6ac9d..8f2257b 100644
--- a/ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h
+++ b/ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h
@@ -60,7 +60,7 @@ public:
         }
 
         SCALAR time_horizon = *std::max_element(planned_joint_times.begin(), planned_joint_times.end());
-        size_t num_traj_points = round(time_horizon / sampling_time) + 1;
+        size_t num_traj_points = std::ceil(time_horizon / sampling_time) + 1;
 
         if (verbose)
         {
-- 
2.43.0


From 9ab51c2fb05f2ea1d8d6b0f6978307359509b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:54 +0000
Subject: [PATCH 065/113] fix: EKF update evaluates a time-varying measurement
 model at time zero

---
 ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
index 743c12b..d99261c 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
@@ -64,7 +64,7 @@ auto ExtendedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update(co
         P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + dHdw * (R_)*dHdw.transpose()).inverse();
 
     // STEP 3 - state estimate correction
-    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_));
+    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_, t));
 
     // STEP 4 - covariance matrix correction
     P_ -= (K * dHdx * P_).eval();
-- 
2.43.0


From e8ed36c918490d533d27c73dfbe09026576b2667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:54 +0000
Subject: [PATCH 066/113] fix: SteadyStateKalmanFilter::predict did not compile
 (missing dt)

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index a0d1c6c..3a82558 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -38,8 +38,8 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predic
     const ct::core::Time& dt,
     const ct::core::Time& t) -> const state_vector_t&
 {
-    A_ = this->f_->computeDerivativeState(this->x_est_, u, t);
-    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, t);
+    A_ = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
+    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, dt, t);
     return this->x_est_;
 }
 
-- 
2.43.0


From 22f6b37d73b0c1126595e9ede4f74b06165b5194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:54 +0000
Subject: [PATCH 067/113] fix: SteadyStateKalmanFilter::update applied the
 predictor gain instead of the filter gain

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index 3a82558..55eb312 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -61,7 +61,11 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update
         throw;
     }
 
-    this->x_est_ -= K.transpose() * (y - this->h_->computeMeasurement(this->x_est_, t));
+    // the gain returned by the DARE belongs to the one-step predictor (it contains A), the measurement update needs the filter gain
+    const Eigen::Matrix<SCALAR, STATE_DIM, OUTPUT_DIM> L =
+        P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + R_).inverse();
+
+    this->x_est_ += L * (y - this->h_->computeMeasurement(this->x_est_, t));
     return this->x_est_;
 }
 
-- 
2.43.0


From 99353edde05f500c8ee3f8bf1998bca53356dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:54 +0000
Subject: [PATCH 068/113] fix: UnscentedKalmanFilter did not compile for
 outputs of other dimension than the state

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 +-
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 2e5dfb5..9ef2f0a 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -264,7 +264,7 @@ void UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computeS
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
 template <size_t DIM>
 auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computePredictionFromSigmaPoints(
-    const SigmaPoints<DIM>& sigmaPoints) -> state_vector_t
+    const SigmaPoints<DIM>& sigmaPoints) -> Eigen::Matrix<SCALAR, DIM, 1>
 {
     // Use efficient matrix x vector computation
     return sigmaPoints * sigmaWeights_m_;
diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
index bffac4c..05f525d 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
@@ -149,7 +149,7 @@ public:
 
     //! Make a prediction based on sigma points.
     template <size_t DIM>
-    state_vector_t computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
+    Eigen::Matrix<SCALAR, DIM, 1> computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
 
 private:
     state_matrix_t P_;                                          //! Covariance matrix.
-- 
2.43.0


From 52117ff91b22a4d351c571daf026e4c76f2c94f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:54 +0000
Subject: [PATCH 069/113] fix: UnscentedKalmanFilter never computed its sigma
 point weights

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 9ef2f0a..c7d8903 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -62,6 +62,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
     const ct::core::StateMatrix<STATE_DIM, SCALAR>& P0)
     : Base(f, h, x0), alpha_(alpha), beta_(beta), kappa_(kappa), P_(P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
@@ -75,6 +76,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
       kappa_(ukf_settings.kappa),
       P_(ukf_settings.P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
-- 
2.43.0


From 07584b3a5fd9a131a85f67976dd1f0ce571ea4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:15 +0000
Subject: [PATCH 070/113] fix: UnscentedKalmanFilter::update used sigma points
 that ignore the process noise and earlier updates

---
 .../include/ct/optcon/filter/UnscentedKalmanFilter-impl.h     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index c7d8903..a563540 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -100,6 +100,10 @@ auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update(c
     const ct::core::Time& dt,
     const ct::core::Time& t) -> const state_vector_t&
 {
+    // draw the sigma points from the current estimate and covariance (which include the process noise and earlier updates)
+    if (!computeSigmaPoints())
+        throw std::runtime_error("UnscentedKalmanFilter : Numerical error.");
+
     SigmaPoints<OUTPUT_DIM> sigmaMeasurementPoints;
 
     // Predict measurement (and corresponding sigma points)
-- 
2.43.0


From 4f05ffa159f5f3a1af4b9e840ec7dadcd1976b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:15 +0000
Subject: [PATCH 071/113] fix: settings constructors of the Kalman filters did
 not compile (no noise covariances)

---
 .../include/ct/optcon/filter/ExtendedKalmanFilter-impl.h   | 4 +++-
 ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter.h  | 2 ++
 .../ct/optcon/filter/SteadyStateKalmanFilter-impl.h        | 7 +++++--
 .../include/ct/optcon/filter/SteadyStateKalmanFilter.h     | 2 ++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
index d99261c..1ed73d4 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
@@ -24,8 +24,10 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCAL
 ExtendedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::ExtendedKalmanFilter(
     std::shared_ptr<SystemModelBase<STATE_DIM, CONTROL_DIM, SCALAR>> f,
     std::shared_ptr<LinearMeasurementModel<OUTPUT_DIM, STATE_DIM, SCALAR>> h,
+    const state_matrix_t& Q,
+    const output_matrix_t& R,
     const ExtendedKalmanFilterSettings<STATE_DIM, SCALAR>& ekf_settings)
-    : Base(f, h, ekf_settings.x0), Q_(ekf_settings.Q), R_(ekf_settings.R), P_(ekf_settings.P0)
+    : Base(f, h, ekf_settings.x0), Q_(Q), R_(R), P_(ekf_settings.P0)
 {
 }
 
diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter.h
index 304d7ed..a2980b2 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter.h
@@ -43,6 +43,8 @@ public:
     //! Constructor from settings.
     ExtendedKalmanFilter(std::shared_ptr<SystemModelBase<STATE_DIM, CONTROL_DIM, SCALAR>> f,
         std::shared_ptr<LinearMeasurementModel<OUTPUT_DIM, STATE_DIM, SCALAR>> h,
+        const state_matrix_t& Q,
+        const output_matrix_t& R,
         const ExtendedKalmanFilterSettings<STATE_DIM, SCALAR>& ekf_settings);
 
     //! Estimator predict method.
diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index 55eb312..9e30a36 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -25,12 +25,15 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCAL
 SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::SteadyStateKalmanFilter(
     std::shared_ptr<SystemModelBase<STATE_DIM, CONTROL_DIM, SCALAR>> f,
     std::shared_ptr<LinearMeasurementModel<OUTPUT_DIM, STATE_DIM, SCALAR>> h,
+    const state_matrix_t& Q,
+    const output_matrix_t& R,
     const SteadyStateKalmanFilterSettings<STATE_DIM, SCALAR>& sskf_settings)
     : Base(f, h, sskf_settings.x0),
-      Q_(sskf_settings.Q),
-      R_(sskf_settings.R),
+      Q_(Q),
+      R_(R),
       maxDAREIterations_(sskf_settings.maxDAREIterations)
 {
+    P_.setZero();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter.h
index 8d377a9..0960cd4 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter.h
@@ -47,6 +47,8 @@ public:
     //! Constructor from settings.
     SteadyStateKalmanFilter(std::shared_ptr<SystemModelBase<STATE_DIM, CONTROL_DIM, SCALAR>> f,
         std::shared_ptr<LinearMeasurementModel<OUTPUT_DIM, STATE_DIM, SCALAR>> h,
+        const state_matrix_t& Q,
+        const output_matrix_t& R,
         const SteadyStateKalmanFilterSettings<STATE_DIM, SCALAR>& sskf_settings);
 
     //! Estimator predict method.
-- 
2.43.0


From b6be148ce6302d4421d4847a3c3ca171420437f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:41 +0000
Subject: [PATCH 072/113] fix: interpolated DMS initial guess jumped at the
 last node (integer division)

---
 .../ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
index 39ce2d7..69181be 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
@@ -110,7 +110,7 @@ void OptVectorDms<STATE_DIM, CONTROL_DIM, SCALAR>::setInitGuess(const state_vect
                 break;
             }
             case 1:
-                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (i / (numPairs_ - 1));
+                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (SCALAR(i) / SCALAR(numPairs_ - 1));
                 break;
         }
         this->xInit_.segment(q_index, CONTROL_DIM) = u0;
-- 
2.43.0


From 42e3656b34d53e382b0e7fc39279464cb36ffa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:41 +0000
Subject: [PATCH 073/113] fix: trapezoidal weight of the last DMS node read
 past the time grid

---
 .../ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 7bd7a0a..2bb149b 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -141,7 +141,7 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updatePhi()
             for (size_t i = 1; i < settings_.N_; i++)
                 phi_(i) = SCALAR(0.5) * (timeGrid_->getShotEndTime(i) - timeGrid_->getShotStartTime(i - 1));
 
-            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_));
+            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_ - 1));
             break;
         }
         default:
-- 
2.43.0


From c729ae4b89d051487c5128496959f2ef63124e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:41 +0000
Subject: [PATCH 074/113] fix: discretised constraints evaluated the control
 spline past its last shot

---
 .../include/ct/optcon/dms/constraints/ConstraintDiscretizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index 04940e9..ed59f74 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -130,7 +130,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 constraintSize = constraint->getIntermediateConstraintsCount();
                 if (constraintSize > 0)
                 {
@@ -165,7 +165,7 @@ public:
             for (auto constraint : constraints_)
             {
                 constraint->setCurrentStateAndControl(
-                    w_->getOptimizedState(n), controlSpliner_->evalSpline(tShot, n), tShot);
+                    w_->getOptimizedState(n), w_->getOptimizedControl(n), tShot);
                 jacSize = constraint->getJacobianStateNonZeroCountIntermediate();
                 if (jacSize > 0)
                 {
-- 
2.43.0


From 79d7938b40f47e24d23e4570cc37df2502741177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:41 +0000
Subject: [PATCH 075/113] fix: discretised general constraints did not reserve
 their input Jacobian entries

---
 .../ct/optcon/dms/constraints/ConstraintDiscretizer.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index ed59f74..f859bd9 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -110,8 +110,10 @@ public:
         discreteLowerBound_.resize(constraintsCount_);
         discreteUpperBound_.resize(constraintsCount_);
 
-        nonZeroJacCountIntermediate_ += (N_ + 1) * generalConstraints->getJacobianStateNonZeroCountIntermediate();
-        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal();
+        nonZeroJacCountIntermediate_ += (N_ + 1) * (generalConstraints->getJacobianStateNonZeroCountIntermediate() +
+                                                       generalConstraints->getJacobianInputNonZeroCountIntermediate());
+        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal() +
+                                    generalConstraints->getJacobianInputNonZeroCountTerminal();
         nonZeroJacCount_ = nonZeroJacCountIntermediate_ + nonZeroJacCountTerminal_;
 
         discreteJac_.resize(nonZeroJacCount_);
-- 
2.43.0


From 782b8d36b55e3bb58b6ea8f7a59726a5ace89ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:59 +0000
Subject: [PATCH 076/113] fix: SensitivityIntegratorCT kept the sensitivities
 of an earlier trajectory for the cost gradient

---
 .../include/ct/optcon/dms/dms_core/SensitivityIntegratorCT.h    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/SensitivityIntegratorCT.h b/ct_optcon/include/ct/optcon/dms/dms_core/SensitivityIntegratorCT.h
index c24c2b2..2d04e7a 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/SensitivityIntegratorCT.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/SensitivityIntegratorCT.h
@@ -230,6 +230,7 @@ public:
         ct::core::tpl::TimeArray<SCALAR>& timeTrajectory)
     {
         clearStates();
+        clearSensitivities();
         clearLinearization();
         cacheData_ = true;
         stateTrajectory.clear();
@@ -260,6 +261,7 @@ public:
     void integrate(state_vector& state, const SCALAR startTime, const size_t numSteps, const SCALAR dt)
     {
         clearStates();
+        clearSensitivities();
         clearLinearization();
         SCALAR time = startTime;
         for (size_t i = 0; i < numSteps; ++i)
-- 
2.43.0


From 5d2297a86010a4b30acc4bf51f22752ac50b595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:17 +0000
Subject: [PATCH 077/113] fix: changing the DMS time horizon changed neither
 the shot integration nor the cost weights

---
 .../ct/optcon/dms/dms_core/ShotContainer.h    | 30 ++++++++++++++-----
 .../cost_evaluator/CostEvaluatorSimple.h      |  4 +--
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
index b9fceb6..e88e08d 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
@@ -126,6 +126,7 @@ public:
 
         // +0.5 needed to avoid rounding errors from double to size_t
         nSteps_ = nIntegrationSteps;
+        dt_ = SCALAR(settings_.dt_sim_);
         // std::cout << "shotNr_: " << shotNr_ << "\t nSteps: " << nSteps_ << std::endl;
 
         integratorCT_->setLinearSystem(linearSystem_);
@@ -142,9 +143,10 @@ public:
         if ((w_->getUpdateCount() != integrationCount_))
         {
             integrationCount_ = w_->getUpdateCount();
+            updateIntegrationGrid();
             state_vector_t initState = w_->getOptimizedState(shotNr_);
             integratorCT_->integrate(
-                initState, tStart_, nSteps_, SCALAR(settings_.dt_sim_), stateSubsteps_, timeSubsteps_);
+                initState, tStart_, nSteps_, dt_, stateSubsteps_, timeSubsteps_);
         }
     }
 
@@ -155,7 +157,7 @@ public:
             costIntegrationCount_ = w_->getUpdateCount();
             integrateShot();
             cost_ = SCALAR(0.0);
-            integratorCT_->integrateCost(cost_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
+            integratorCT_->integrateCost(cost_, tStart_, nSteps_, dt_);
         }
     }
 
@@ -171,13 +173,13 @@ public:
             discreteA_.setIdentity();
             discreteB_.setZero();
             integratorCT_->linearize();
-            integratorCT_->integrateSensitivityDX0(discreteA_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
-            integratorCT_->integrateSensitivityDU0(discreteB_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
+            integratorCT_->integrateSensitivityDX0(discreteA_, tStart_, nSteps_, dt_);
+            integratorCT_->integrateSensitivityDU0(discreteB_, tStart_, nSteps_, dt_);
 
             if (settings_.splineType_ == DmsSettings::PIECEWISE_LINEAR)
             {
                 discreteBNext_.setZero();
-                integratorCT_->integrateSensitivityDUf(discreteBNext_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
+                integratorCT_->integrateSensitivityDUf(discreteBNext_, tStart_, nSteps_, dt_);
             }
         }
     }
@@ -190,13 +192,13 @@ public:
             integrateSensitivities();
             discreteQ_.setZero();
             discreteR_.setZero();
-            integratorCT_->integrateCostSensitivityDX0(discreteQ_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
-            integratorCT_->integrateCostSensitivityDU0(discreteR_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
+            integratorCT_->integrateCostSensitivityDX0(discreteQ_, tStart_, nSteps_, dt_);
+            integratorCT_->integrateCostSensitivityDU0(discreteR_, tStart_, nSteps_, dt_);
 
             if (settings_.splineType_ == DmsSettings::PIECEWISE_LINEAR)
             {
                 discreteRNext_.setZero();
-                integratorCT_->integrateCostSensitivityDUf(discreteRNext_, tStart_, nSteps_, SCALAR(settings_.dt_sim_));
+                integratorCT_->integrateCostSensitivityDUf(discreteRNext_, tStart_, nSteps_, dt_);
             }
         }
     }
@@ -319,6 +321,17 @@ public:
 
 
 private:
+    //! adapt start time, number and length of the integration steps to the current time grid, such that they cover the shot
+    void updateIntegrationGrid()
+    {
+        const SCALAR duration = timeGrid_->getShotDuration(shotNr_);
+        tStart_ = timeGrid_->getShotStartTime(shotNr_);
+        nSteps_ = duration / SCALAR(settings_.dt_sim_) + 0.5;
+        if (nSteps_ < 1)
+            nSteps_ = 1;
+        dt_ = duration / SCALAR(nSteps_);
+    }
+
     std::shared_ptr<ct::core::ControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>> controlledSystem_;
     std::shared_ptr<ct::core::LinearSystem<STATE_DIM, CONTROL_DIM, SCALAR>> linearSystem_;
     std::shared_ptr<ct::optcon::CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>> costFct_;
@@ -353,6 +366,7 @@ private:
     std::shared_ptr<SensitivityIntegratorCT<STATE_DIM, CONTROL_DIM, SCALAR>> integratorCT_;
     size_t nSteps_;
     SCALAR tStart_;
+    SCALAR dt_;
 };
 
 }  // namespace optcon
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 2bb149b..80dcf95 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -84,7 +84,7 @@ private:
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
 {
-    // updatePhi();
+    updatePhi();
     SCALAR cost = SCALAR(0.0);
 
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
@@ -105,7 +105,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t grad_length,
     Eigen::Map<Eigen::Matrix<SCALAR, Eigen::Dynamic, 1>>& grad)
 {
-    // updatePhi();
+    updatePhi();
     grad.setZero();
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
     {
-- 
2.43.0


From 6e0037400efcbae28c096b4bd4e8d71928fb5d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:17 +0000
Subject: [PATCH 078/113] fix: changing the initial state of a DMS problem did
 not change its initial state constraint

---
 ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 2fbf7d1..95a9610 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -256,7 +256,8 @@ public:
 	 */
     void changeInitialState(const state_vector_t& x0)
     {
-        // constraints_->changeInitialConstraint(x0);
+        std::static_pointer_cast<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>>(this->constraints_)
+            ->changeInitialConstraint(x0);
         optVariablesDms_->changeInitialState(x0);
     }
 
-- 
2.43.0


From 80dc4c5ad5561737389d0aa13f2318d11b68d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:17 +0000
Subject: [PATCH 079/113] fix: DMS evaluated the terminal cost at time zero

---
 .../optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h  | 6 ++++--
 .../dms/dms_core/cost_evaluator/CostEvaluatorSimple.h       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
index 782ff57..4bfe2cb 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
@@ -80,7 +80,8 @@ public:
         for (auto shotContainer : shotContainers_)
             cost += shotContainer->getCostIntegrated();
 
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+            shotContainers_.back()->getIntegrationTimeFinal());
         cost += costFct_->evaluateTerminal();
         return cost;
     }
@@ -134,7 +135,8 @@ public:
         }
 
         /* gradient of terminal cost */
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+            shotContainers_.back()->getIntegrationTimeFinal());
         grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) +=
             costFct_->stateDerivativeTerminal();  // * dXdSi.back();
     }
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 80dcf95..82286a3 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -94,7 +94,8 @@ SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
         cost += phi_(i) * costFct_->evaluateIntermediate();
     }
 
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+        timeGrid_->getShotStartTime(settings_.N_));
     cost += costFct_->evaluateTerminal();
     assert(cost == cost);
     return cost;
@@ -116,7 +117,8 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t gr
     }
 
     /* gradient of terminal cost */
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+        timeGrid_->getShotStartTime(settings_.N_));
     grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) += costFct_->stateDerivativeTerminal();
 }
 
-- 
2.43.0


From 56ecfc3a4fe609a42d93aab199836d3faa874f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:22 +0000
Subject: [PATCH 080/113] fix: multiple shooting accessed stages beyond the
 horizon when K_shot exceeds the number of stages

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 9ec54b6..5e46020 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1661,7 +1661,7 @@ int NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::g
     if (settings_.isSingleShooting())
         return K_;
     else
-        return settings_.K_shot;
+        return std::min(K_, settings_.K_shot);  // a shot cannot exceed the time horizon
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-- 
2.43.0


From 939344701b7e2217aa4a08bfb993699f2f5f54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:22 +0000
Subject: [PATCH 081/113] fix: a line search without accepted step forgot the
 defects of the current trajectory

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 5e46020..2d5c0ee 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1049,9 +1049,6 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
                       (e_box_norm_ + e_gen_norm_) * settings_.meritFunctionRhoConstraints;
         lowestCostPrevious = lowestCost_;
 
-        resetDefects();
-
-
         if (settings_.lineSearchSettings.debugPrint)
         {
             std::cout << "[LineSearch]: Starting line search." << std::endl;
-- 
2.43.0


From 6c03bba3a3077dfffe7640bb3dffa6ef3e1a80e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:31 +0000
Subject: [PATCH 082/113] fix: NLOC solver kept the cost of the previous cost
 function after changeCostFunction without line search

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 2d5c0ee..b542e3e 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -260,9 +260,9 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
         costFunctions_[i] = typename OptConProblem_t::CostFunctionPtr_t(cf->clone());
     }
 
-    // recompute cost if line search is active
+    // recompute cost of the current trajectory
     // TODO: this should be multi-threaded to save time
-    if (iteration_ > 0 && (settings_.lineSearchSettings.type != LineSearchSettings::TYPE::NONE))
+    if (iteration_ > 0)
         computeCostsOfTrajectory(settings_.nThreads, x_, u_ff_, intermediateCostBest_, finalCostBest_);
 }
 
-- 
2.43.0


From 2ec1cdcfbf4a1d587f24061441d3d41ba2670d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:47 +0000
Subject: [PATCH 083/113] fix: NLOC solver kept trajectory, defects and cost of
 the previous dynamics after changeNonlinearSystem

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index b542e3e..3b3d8fb 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -271,6 +271,7 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     const typename OptConProblem_t::DynamicsPtr_t& dyn)
 {
     systemInterface_->changeNonlinearSystem(dyn);
+    reset();  // since the dynamics changed, we have to start fresh, i.e. with a rollout
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-- 
2.43.0


From 190368faea422d5df14d8167ca65c2a2d3473e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:06 +0000
Subject: [PATCH 084/113] fix: NLOC solver reported times of the previous
 control interval after configure with a new dt

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 3b3d8fb..151ff5c 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -428,6 +428,9 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 
     settings_ = settings;
 
+    if (K_ > 0)
+        t_ = TimeArray(settings_.dt, K_ + 1, 0.0);  // the control interval may have changed
+
     reset();
 
     configured_ = true;
-- 
2.43.0


From 4ce7457d9f70065e8e37a69541d1a6238d2e8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:06 +0000
Subject: [PATCH 085/113] fix: NLOC reference trajectories had the wrong length
 after a too long initial guess

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 151ff5c..b7de677 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -150,8 +150,6 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     u_ff_ = initialGuess.uff();
     L_ = initialGuess.K();
     x_ = initialGuess.x_ref();
-    x_prev_ = x_;
-    x_ref_lqr_ = x_;
 
     if (x_.size() > (size_t)K_ + 1)
     {
@@ -174,6 +172,9 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
         L_.resize(K_);
     }
 
+    x_prev_ = x_;
+    x_ref_lqr_ = x_;
+
     initialized_ = true;
 
     t_ = TimeArray(settings_.dt, x_.size(), 0.0);
-- 
2.43.0


From f07c886562bd06616225bda2a91424a4a57c2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:59 +0000
Subject: [PATCH 086/113] fix: closed-loop multiple shooting applied the
 feedback twice when restarted from its own solution

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index b7de677..fd89e5f 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1044,6 +1044,7 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
         lx_norm_ = computeDiscreteArrayNorm<StateVectorArray, 2>(x_prev_, x_);
 
         x_prev_ = x_;
+        x_ref_lqr_ = x_;  // the feedback is already part of the new controls
         alphaBest_ = 1;
     }
     else  // do line search over a merit function trading off costs and constraint violations
@@ -1083,6 +1084,8 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
             }
             return false;
         }
+
+        x_ref_lqr_ = x_;  // the feedback is already part of the new controls
     }
 
     if ((fabs((lowestCostPrevious - lowestCost_) / lowestCostPrevious)) > settings_.min_cost_improvement)
-- 
2.43.0


From dad158877a02a80792b1775e5b207e06779b75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:17 +0000
Subject: [PATCH 087/113] fix: feedforward of multiple-shooting iLQR in MPC
 mode lacked the feedback part of the update

---
 .../include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index fd89e5f..e771ac8 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1394,7 +1394,8 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     *  case: GNMS(M):                               compute and retrieve dx, du
     *  case: Classical (open-loop) Single Shooting: compute and retrieve dx, du;  
     *  case: iLQR:                                  compute and retrieve lv, L
-    *  case: Multiple-Shooting-iLQR:                compute and retrieve dx, lv, L
+    *  case: Multiple-Shooting-iLQR:                compute and retrieve dx, du, L (du = lv + L * dx is also valid
+    *                                               without subsequent rollout, i.e. in MPC mode)
     *  case: Closed-loop Single Shooting:           compute and retrieve dx, du, L
     *  case: Closed-loop GNMS(M):                   compute and retrieve dx, du, L
     */
@@ -1421,16 +1422,6 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
             break;
         }
         case NLOptConSettings::NLOCP_ALGORITHM::MS_ILQR:
-        {
-            lqocSolver_->computeStatesAndControls();
-            delta_x_ = lqocSolver_->getSolutionState();
-            delta_x_ref_lqr_.setConstant(ct::core::StateVector<STATE_DIM, SCALAR>::Zero());
-            lqocSolver_->compute_lv();
-            delta_u_ff_ = lqocSolver_->get_lv();
-            lqocSolver_->computeFeedbackMatrices();
-            L_ = lqocSolver_->getSolutionFeedback();
-            break;
-        }
         case NLOptConSettings::NLOCP_ALGORITHM::SS_CL:
         case NLOptConSettings::NLOCP_ALGORITHM::GNMS_M_CL:
         {
-- 
2.43.0


From 76020ec9fd1d21ca805cfce9431e511073172dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:30 +0000
Subject: [PATCH 088/113] fix: initial rollout of closed-loop single shooting
 used an outdated reference after a multiple-shooting MPC iteration

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index e771ac8..7f14f9d 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1489,7 +1489,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, type
 bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::nominalRollout()
 {
     bool success =
-        rolloutSingleShot(settings_.nThreads, 0, u_ff_, x_, x_prev_, xShot_, *this->substepsX_, *this->substepsU_);
+        rolloutSingleShot(settings_.nThreads, 0, u_ff_, x_, x_ref_lqr_, xShot_, *this->substepsX_, *this->substepsU_);
     x_prev_ = x_;
     u_ff_prev_ = u_ff_;
     firstRollout_ = false;
-- 
2.43.0


From acef3ff29d4e62fe34c53613f3a456099c166496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:48 +0000
Subject: [PATCH 089/113] fix: multi-threaded nonlinear optimal control solver:
 lost wake-ups, outdated tasks and races between main thread and workers

---
 .../ct/optcon/nloc/NLOCBackendMP-impl.hpp     | 165 +++++-------------
 .../include/ct/optcon/nloc/NLOCBackendMP.hpp  |  24 +--
 2 files changed, 47 insertions(+), 142 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 45f183f..a94c1ac 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -46,8 +46,11 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::st
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::shutdownRoutine()
 {
-    workersActive_ = false;
-    workerTask_ = SHUTDOWN;
+    {
+        std::lock_guard<std::mutex> lock(workerWakeUpMutex_);
+        workerTask_ = SHUTDOWN;
+        taskCounter_++;
+    }
     workerWakeUpCondition_.notify_all();
 
 #ifdef DEBUG_PRINT_MP
@@ -65,6 +68,21 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::sh
 }
 
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
+void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::runTask(const int task)
+{
+    std::unique_lock<std::mutex> lock(workerWakeUpMutex_);
+    workerTask_ = task;
+    taskCounter_++;
+    workersBusy_ = workerThreads_.size();
+    workerWakeUpCondition_.notify_all();
+
+    // every worker has to report back, such that none of them is still occupied with this task when the next one starts
+    taskCompletedCondition_.wait(lock, [this] { return workersBusy_ == 0; });
+    workerTask_ = IDLE;
+}
+
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::threadWork(size_t threadId)
 {
@@ -72,65 +90,22 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
     printString("[Thread " + std::to_string(threadId) + "]: launched");
 #endif  // DEBUG_PRINT_MP
 
+    size_t lastTask = 0;  // counter of the last task this worker has executed
 
-    // local variables
-    int workerTask_local = IDLE;
-    size_t uniqueProcessID = 0;
-    size_t iteration_local = this->iteration_;
-    size_t lqpCounter_local = this->lqpCounter_;
-
-
-    while (workersActive_)
+    while (true)
     {
-        workerTask_local = workerTask_.load();
-        iteration_local = this->iteration_;
-        lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-        printString("[Thread " + std::to_string(threadId) + "]: previous procId: " + std::to_string(uniqueProcessID) +
-                    ", current procId: " +
-                    std::to_string(generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local)));
-#endif
-
-
-        /*!
-         * We want to put the worker to sleep if
-         * - the workerTask_ is IDLE
-         * - or we are finished but workerTask_ is not yet reset, thus the process ID is still the same
-         * */
-        if (workerTask_local == IDLE ||
-            uniqueProcessID == generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local))
+        int workerTask_local = IDLE;
         {
-#ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: going to sleep !");
-#endif
-
-            // sleep until the state is not IDLE any more and we have a different process ID than before
+            // sleep until there is a new task
             std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
-            while (workerTask_ == IDLE || (uniqueProcessID == generateUniqueProcessID(this->iteration_,
-                                                                  (int)workerTask_.load(), this->lqpCounter_)))
-            {
-                workerWakeUpCondition_.wait(waitLock);
-            }
-            waitLock.unlock();
-
-            workerTask_local = workerTask_.load();
-            iteration_local = this->iteration_;
-            lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-            printString("[Thread " + std::to_string(threadId) + "]: woke up !");
-#endif  // DEBUG_PRINT_MP
+            workerWakeUpCondition_.wait(waitLock, [this, lastTask] { return taskCounter_ != lastTask; });
+            lastTask = taskCounter_;
+            workerTask_local = workerTask_;
         }
 
-        if (!workersActive_)
-        {
 #ifdef DEBUG_PRINT_MP
-            printString("Breaking - workers are not active !");
+        printString("[Thread " + std::to_string(threadId) + "]: woke up !");
 #endif  // DEBUG_PRINT_MP
-            break;
-        }
-
 
         switch (workerTask_local)
         {
@@ -140,7 +115,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now busy with LINE_SEARCH !");
 #endif  // DEBUG_PRINT_MP
                 lineSearchWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, LINE_SEARCH, lqpCounter_local);
                 break;
             }
             case ROLLOUT_SHOTS:
@@ -149,7 +123,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing shot rollouts !");
 #endif  // DEBUG_PRINT_MP
                 rolloutShotWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, ROLLOUT_SHOTS, lqpCounter_local);
                 break;
             }
             case COMPUTE_LQ_PROBLEM:
@@ -158,7 +131,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing LQ approximation !");
 #endif  // DEBUG_PRINT_MP
                 computeLQProblemWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, COMPUTE_LQ_PROBLEM, lqpCounter_local);
                 break;
             }
             case SHUTDOWN:
@@ -167,14 +139,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now shutting down !");
 #endif  // DEBUG_PRINT_MP
                 return;
-                break;
-            }
-            case IDLE:
-            {
-#ifdef DEBUG_PRINT_MP
-                printString("[Thread " + std::to_string(threadId) + "]: is idle. Now going to sleep.");
-#endif  // DEBUG_PRINT_MP
-                break;
             }
             default:
             {
@@ -182,11 +146,13 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 break;
             }
         }
-    }
 
-#ifdef DEBUG_PRINT_MP
-    printString("[Thread " + std::to_string(threadId) + "]: shut down.");
-#endif  // DEBUG_PRINT_MP
+        // report back
+        std::lock_guard<std::mutex> lock(workerWakeUpMutex_);
+        workersBusy_--;
+        if (workersBusy_ == 0)
+            taskCompletedCondition_.notify_all();
+    }
 }
 
 
@@ -195,11 +161,11 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::la
 {
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Going to launch worker threads!");
-    std::cout << workersActive_.load() << std::endl;
 #endif  //DEBUG_PRINT_MP
 
-    workersActive_ = true;
     workerTask_ = IDLE;
+    taskCounter_ = 0;
+    workersBusy_ = 0;
 
     for (int i = 0; i < (int)this->settings_.nThreads; i++)
     {
@@ -241,24 +207,13 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 #endif  //DEBUG_PRINT_MP
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Waking up workers to do LQ approximation.");
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = COMPUTE_LQ_PROBLEM;
-    workerWakeUpCondition_.notify_all();
-
-#ifdef DEBUG_PRINT_MP
-    printString("[MP]: Will sleep now until done with LQ approximation.");
-#endif  //DEBUG_PRINT_MP
-
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runTask(COMPUTE_LQ_PROBLEM);
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Woke up again, should have computed LQ approximation now.");
 #endif  //DEBUG_PRINT_MP
@@ -286,9 +241,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
                             std::to_string(KMax_) + " and KMin_ is " + std::to_string(KMin_));
 #endif
 
-            //kCompleted_++;
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -302,8 +254,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 
         if (this->generalConstraints_[threadId] != nullptr)
             this->computeLinearizedConstraints(threadId, KMax_ - k);  // linearize constraints backwards
-
-        kCompleted_++;
     }
 }
 
@@ -340,25 +290,13 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
-
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers to do shot rollouts." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = ROLLOUT_SHOTS;
-    workerWakeUpCondition_.notify_all();
-
-#ifdef DEBUG_PRINT_MP
-    std::cout << "[MP]: Will sleep now until we have rolled out all shots." << std::endl;
-#endif  //DEBUG_PRINT_MP
-
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runTask(ROLLOUT_SHOTS);
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have rolled out all shots now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -378,11 +316,7 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
         size_t k = kTaken_++;
 
         if (k > KMax_ - KMin_)
-        {
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
-        }
 
         size_t kShot = (KMax_ - k);
         if (kShot % ((size_t)this->getNumStepsPerShot()) ==
@@ -399,8 +333,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
             this->computeSingleDefect(kShot, this->x_, this->xShot_, this->d_);
         }
-
-        kCompleted_++;
     }
 }
 
@@ -421,16 +353,7 @@ SCALAR NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = LINE_SEARCH;
-    workerWakeUpCondition_.notify_all();
-
-#ifdef DEBUG_PRINT_MP
-    std::cout << "[MP]: Will sleep now until done line search." << std::endl;
-#endif  //DEBUG_PRINT_MP
-    std::unique_lock<std::mutex> waitLock(alphaBestFoundMutex_);
-    alphaBestFoundCondition_.wait(waitLock, [this] { return alphaBestFound_.load(); });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runTask(LINE_SEARCH);
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have results now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -577,22 +500,12 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         if (allPreviousAlphasProcessed)
         {
             alphaBestFound_ = true;
-            alphaBestFoundCondition_.notify_all();
         }
 
         lineSearchResultMutex_.unlock();
     }
 }
 
-template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-size_t NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::generateUniqueProcessID(
-    const size_t& iterateNo,
-    const int workerState,
-    const size_t resetCount)
-{
-    return (10e12 * (resetCount + 1) + 10e6 * (workerState + 1) + iterateNo + 1);
-}
-
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::printString(const std::string& text)
 {
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
index 8d2d405..3701bce 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
@@ -97,31 +97,24 @@ private:
     //! rolls out a shot and computes the defect
     void rolloutShotWorker(size_t threadId);
 
-    /*! heuristic that generates a unique id for a process, such that we can manage the tasks.
-	 * Generates a unique identifiers for task, iteration:
-	 * @todo replace by proper hash
-	 * */
-    size_t generateUniqueProcessID(const size_t& iterateNo, const int workerState, const size_t resetCount);
+    //! hands a task to all workers and returns once every worker has finished it
+    void runTask(const int task);
 
     //! wrapper method for nice debug printing
     void printString(const std::string& text);
 
     std::vector<std::thread> workerThreads_;
-    std::atomic_bool workersActive_;
-    std::atomic_int workerTask_;
+
+    //! the task hand-over, protected by workerWakeUpMutex_
+    int workerTask_;
+    size_t taskCounter_;  //!< number of tasks handed out so far, tells a worker that there is a new one
+    size_t workersBusy_;  //!< number of workers which have not finished the current task yet
 
     std::mutex workerWakeUpMutex_;
     std::condition_variable workerWakeUpCondition_;
-
-    std::mutex kCompletedMutex_;
-    std::condition_variable kCompletedCondition_;
-
-    std::mutex kCompletedMutexCost_;
-    std::condition_variable kCompletedConditionCost_;
+    std::condition_variable taskCompletedCondition_;
 
     std::mutex lineSearchResultMutex_;
-    std::mutex alphaBestFoundMutex_;
-    std::condition_variable alphaBestFoundCondition_;
 
     std::atomic_size_t alphaTaken_;
     size_t alphaMax_;
@@ -131,7 +124,6 @@ private:
     std::vector<size_t> alphaProcessed_;
 
     std::atomic_size_t kTaken_;
-    std::atomic_size_t kCompleted_;
 
     size_t KMax_;
     size_t KMin_;
-- 
2.43.0


From ebb6719e0e595716e032956238d0408972da63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:48 +0000
Subject: [PATCH 090/113] fix: multi-threaded line search let a smaller step
 replace an accepted larger one

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index a94c1ac..b9ba6de 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -433,7 +433,7 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         if (stepAccepted)
         {
             // make sure we do not alter an existing result
-            if (alphaBestFound_)
+            if (alphaBestFound_ || alphaExp > alphaExpBest_)
             {
                 lineSearchResultMutex_.unlock();
                 break;
-- 
2.43.0


From 7ac7b3aca246528541cace2ab30ddf7844a97182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:48 +0000
Subject: [PATCH 091/113] fix: multi-threaded solver treated an empty range of
 indices as a huge one and never returned

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index b9ba6de..1642447 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -182,6 +182,10 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
     if (lastIndex == (static_cast<size_t>(this->K_) - 1))
         this->initializeCostToGo();
 
+    // nothing to do for an empty range of indices
+    if (lastIndex < firstIndex)
+        return;
+
     /*
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
@@ -262,6 +266,10 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, type
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::rolloutShots(size_t firstIndex,
     size_t lastIndex)
 {
+    // nothing to do for an empty range of indices
+    if (lastIndex < firstIndex)
+        return;
+
     /*!
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
-- 
2.43.0


From 7fef05ca55c7d120d962e6b194c4cc179b231e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:15 +0000
Subject: [PATCH 092/113] fix: ControlSimulator handed a dangling reference to
 its simulation thread

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 156f305..f2f398d 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -81,7 +81,8 @@ public:
         stop_ = false;
         sim_start_time_ = std::chrono::high_resolution_clock::now();
         x_ = x0_;
-        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, std::ref(intType));
+        // hand over a copy, the argument may not live as long as the thread
+        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, intType);
         control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
     }
 
-- 
2.43.0


From d0b602ff3329296cd12e5520057a778aad44dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:15 +0000
Subject: [PATCH 093/113] fix: ControlSimulator integrated over a wrong time
 when the control step is not a multiple of the simulation step

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index f2f398d..2b939f0 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -106,7 +106,8 @@ protected:
             Integrator<STATE_DIM> integrator(system_, intType);
             StateVector<STATE_DIM> temp_x = x_;
             // In case an integer number of steps cannot be performed
-            const double residue = control_dt_ / sim_dt_ - int(control_dt_ / sim_dt_);
+            const int nSteps = int(control_dt_ / sim_dt_ + 1e-6);
+            const double residue = control_dt_ - nSteps * sim_dt_;
             auto wall_time = sim_start_time_;
             Time sim_time = std::chrono::duration<double>(wall_time - sim_start_time_).count();
 
@@ -114,9 +115,9 @@ protected:
                        duration &&
                    !stop_)
             {
-                integrator.integrate_n_steps(temp_x, sim_time, int(control_dt_ / sim_dt_), sim_dt_);
-                if (residue > 1e-6)
-                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue);
+                integrator.integrate_n_steps(temp_x, sim_time, nSteps, sim_dt_);
+                if (residue > 1e-6 * sim_dt_)
+                    integrator.integrate_n_steps(temp_x, sim_time + nSteps * sim_dt_, 1, residue);
 
                 if (std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - wall_time).count() >=
                     control_dt_)
-- 
2.43.0


From 83e987ed64b11c32bf4ea0a6779cea8f876a7e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:15 +0000
Subject: [PATCH 094/113] fix: copy constructor of ControlSimulator did not
 compile

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 2b939f0..6f0206f 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -55,11 +55,11 @@ public:
 
     //! copy constructor
     ControlSimulator(const ControlSimulator& arg)
-        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(arg.stop_)
+        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(arg.stop_.load()), verbose_(arg.verbose_)
     {
         if (!arg.system_)
             return;
-        system_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.system_->clone());
+        system_ = std::shared_ptr<CONTROLLED_SYSTEM>(arg.system_->clone());
         if (arg.controller_)
         {
             controller_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.controller_->clone());
-- 
2.43.0


From f127b6fc1204002f0ad24a3757f48b44c1758dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 095/113] fix: setProblem took the number of stages of a
 discrete-time problem for a time in seconds

---
 ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp | 6 ++++++
 ct_optcon/include/ct/optcon/solver/OptConSolver.h     | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp b/ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp
index aa5578e..531c0f9 100644
--- a/ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp
+++ b/ct_optcon/include/ct/optcon/solver/NLOptConSolver.hpp
@@ -243,6 +243,12 @@ public:
     void logSummaryToMatlab(const std::string& fileName);
 
 protected:
+    //! the horizon of a discrete-time problem is a number of stages, the one of a continuous-time problem a time
+    virtual void setTimeHorizonFromProblem(const OptConProblem_t& optConProblem) override
+    {
+        nlocBackend_->changeTimeHorizon(optConProblem.getTimeHorizon());
+    }
+
     //! the backend holding all the math operations
     std::shared_ptr<Backend_t> nlocBackend_;
 
diff --git a/ct_optcon/include/ct/optcon/solver/OptConSolver.h b/ct_optcon/include/ct/optcon/solver/OptConSolver.h
index ac11af5..1a17e57 100644
--- a/ct_optcon/include/ct/optcon/solver/OptConSolver.h
+++ b/ct_optcon/include/ct/optcon/solver/OptConSolver.h
@@ -74,7 +74,7 @@ public:
     {
         optConProblem.verify();
 
-        changeTimeHorizon(optConProblem.getTimeHorizon());
+        setTimeHorizonFromProblem(optConProblem);
         changeInitialState(optConProblem.getInitialState());
         changeCostFunction(optConProblem.getCostFunction());
         changeNonlinearSystem(optConProblem.getNonlinearSystem());
@@ -347,6 +347,13 @@ public:
     {
         throw std::runtime_error("Generate Code not implemented for this solver");
     }
+
+protected:
+    //! take over the time horizon of a problem, solvers for discrete problems (horizon in stages) have to override it
+    virtual void setTimeHorizonFromProblem(const OptConProblem_t& optConProblem)
+    {
+        changeTimeHorizon(optConProblem.getTimeHorizon());
+    }
 };
 }  // namespace optcon
 }  // namespace ct
-- 
2.43.0


From b9c29162c97f2c63405f01df029031d0cb904c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:05 +0000
Subject: [PATCH 096/113] fix: default constructed optimal control problem had
 an uninitialised horizon and initial state

---
 ct_optcon/include/ct/optcon/problem/OptConProblemBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/problem/OptConProblemBase.h b/ct_optcon/include/ct/optcon/problem/OptConProblemBase.h
index 0935ec5..8f7814e 100644
--- a/ct_optcon/include/ct/optcon/problem/OptConProblemBase.h
+++ b/ct_optcon/include/ct/optcon/problem/OptConProblemBase.h
@@ -53,7 +53,7 @@ public:
     typedef std::shared_ptr<optcon::LinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>> ConstraintPtr_t;
     typedef typename SYSTEM_T::time_t time_t;
 
-    OptConProblemBase() = default;
+    OptConProblemBase() : tf_(0.0), x0_(state_vector_t::Zero()) {}
 
     /*!
      * @brief Construct a simple unconstrained Optimal Control Problem
-- 
2.43.0


From 88a1724e32a141c7a568448dd08d94bb158459c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:00 +0000
Subject: [PATCH 097/113] fix: changing the forward integrator type of MPC left
 a dangling integrator

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 67ad4d4..cf4ea85 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -293,7 +293,7 @@ void MPC<OPTCON_SOLVER>::updateSettings(const mpc_settings& settings)
     checkSettings(settings);
 
     if (settings.stateForwardIntegratorType_ != mpc_settings_.stateForwardIntegratorType_)
-        forwardIntegrator_ = ct::core::Integrator<STATE_DIM, Scalar_t>(dynamics_, settings.stateForwardIntegratorType_);
+        forwardIntegrator_.changeIntegrationType(settings.stateForwardIntegratorType_);
 
     mpc_settings_ = settings;
     timeKeeper_.updateSettings(settings);
-- 
2.43.0


From c5723dda8f22eed8ff1ee3e76d76994d835bba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:00 +0000
Subject: [PATCH 098/113] fix: copies of an Integrator called back into the
 original, also after its destruction

---
 .../ct/core/integration/Integrator-impl.h        | 16 ++++++++++++++++
 ct_core/include/ct/core/integration/Integrator.h |  6 ++++++
 .../include/ct/core/integration/Observer-impl.h  | 16 ++++++++++++++++
 ct_core/include/ct/core/integration/Observer.h   |  6 ++++++
 4 files changed, 44 insertions(+)

diff --git a/ct_core/include/ct/core/integration/Integrator-impl.h b/ct_core/include/ct/core/integration/Integrator-impl.h
index 1307886..0960a65 100644
--- a/ct_core/include/ct/core/integration/Integrator-impl.h
+++ b/ct_core/include/ct/core/integration/Integrator-impl.h
@@ -29,6 +29,22 @@ Integrator<STATE_DIM, SCALAR>::Integrator(const std::shared_ptr<System<STATE_DIM
     setupSystem();
 }
 
+template <size_t STATE_DIM, typename SCALAR>
+Integrator<STATE_DIM, SCALAR>::Integrator(const Integrator& arg)
+    : system_(arg.system_), integratorStepper_(arg.integratorStepper_), observer_(arg.observer_)
+{
+    setupSystem();
+}
+
+template <size_t STATE_DIM, typename SCALAR>
+Integrator<STATE_DIM, SCALAR>& Integrator<STATE_DIM, SCALAR>::operator=(const Integrator& arg)
+{
+    system_ = arg.system_;
+    integratorStepper_ = arg.integratorStepper_;
+    observer_ = arg.observer_;
+    return *this;
+}
+
 template <size_t STATE_DIM, typename SCALAR>
 void Integrator<STATE_DIM, SCALAR>::changeIntegrationType(const IntegrationType& intType)
 {
diff --git a/ct_core/include/ct/core/integration/Integrator.h b/ct_core/include/ct/core/integration/Integrator.h
index 4f37d89..c7f44cf 100644
--- a/ct_core/include/ct/core/integration/Integrator.h
+++ b/ct_core/include/ct/core/integration/Integrator.h
@@ -83,6 +83,12 @@ public:
         const IntegrationType& intType,
         const EventHandlerPtr& eventHandler);
 
+    //! copy constructor, binds the system function to the copy
+    Integrator(const Integrator& arg);
+
+    //! assignment, the system function remains bound to this object
+    Integrator& operator=(const Integrator& arg);
+
     /**
 	 * @brief      Changes the integration type
 	 *
diff --git a/ct_core/include/ct/core/integration/Observer-impl.h b/ct_core/include/ct/core/integration/Observer-impl.h
index 0e06cb5..187c080 100644
--- a/ct_core/include/ct/core/integration/Observer-impl.h
+++ b/ct_core/include/ct/core/integration/Observer-impl.h
@@ -20,6 +20,22 @@ Observer<STATE_DIM, SCALAR>::Observer(const EventHandlerPtrVector& eventHandlers
     eventHandlers_ = eventHandlers;
 }
 
+template <size_t STATE_DIM, typename SCALAR>
+Observer<STATE_DIM, SCALAR>::Observer(const Observer& arg) : Observer(arg.eventHandlers_)
+{
+    states_ = arg.states_;
+    times_ = arg.times_;
+}
+
+template <size_t STATE_DIM, typename SCALAR>
+Observer<STATE_DIM, SCALAR>& Observer<STATE_DIM, SCALAR>::operator=(const Observer& arg)
+{
+    eventHandlers_ = arg.eventHandlers_;
+    states_ = arg.states_;
+    times_ = arg.times_;
+    return *this;
+}
+
 template <size_t STATE_DIM, typename SCALAR>
 void Observer<STATE_DIM, SCALAR>::reset()
 {
diff --git a/ct_core/include/ct/core/integration/Observer.h b/ct_core/include/ct/core/integration/Observer.h
index 192f3f1..d0be014 100644
--- a/ct_core/include/ct/core/integration/Observer.h
+++ b/ct_core/include/ct/core/integration/Observer.h
@@ -41,6 +41,12 @@ public:
 	 */
     Observer(const EventHandlerPtrVector& eventHandlers);
 
+    //! copy constructor, the copy observes on its own behalf
+    Observer(const Observer& arg);
+
+    //! assignment, the lambdas remain bound to this object
+    Observer& operator=(const Observer& arg);
+
     //! reset the observer
     void reset();
 
-- 
2.43.0


From 15261f5634c54dc0966c28df41346b538b12a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:30 +0000
Subject: [PATCH 099/113] fix: symplectic integrators never called event
 handlers that act on full steps

---
 ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 79fce31..9854080 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -55,6 +55,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
         time += dt;
+        observer_.observe(state, time);
         stateTrajectory.push_back(state);
         timeTrajectory.push_back(time);
     }
@@ -80,6 +81,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
         time += dt;
+        observer_.observe(state, time);
     }
 }
 
-- 
2.43.0


From 3a0041666c5b6de82d5afe3ac7e376209e0e57fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:30 +0000
Subject: [PATCH 100/113] fix: copies of an IntegratorSymplectic used the state
 cache of the original, also after its destruction

---
 .../ct/core/integration/IntegratorSymplectic-impl.h        | 7 +++++++
 ct_core/include/ct/core/integration/IntegratorSymplectic.h | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 9854080..9253ef9 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -27,6 +27,13 @@ IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::Integrator
     setupSystem();
 }
 
+template <size_t POS_DIM, size_t VEL_DIM, size_t CONTROL_DIM, class Stepper, typename SCALAR>
+IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::IntegratorSymplectic(const IntegratorSymplectic& arg)
+    : systemSymplectic_(arg.systemSymplectic_), stepper_(arg.stepper_), observer_(arg.observer_)
+{
+    setupSystem();
+}
+
 
 template <size_t POS_DIM, size_t VEL_DIM, size_t CONTROL_DIM, class Stepper, typename SCALAR>
 void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integrate_n_steps(
diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic.h b/ct_core/include/ct/core/integration/IntegratorSymplectic.h
index 1dae013..e112297 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic.h
@@ -59,6 +59,8 @@ public:
     IntegratorSymplectic(const std::shared_ptr<SymplecticSystem<POS_DIM, VEL_DIM, CONTROL_DIM, SCALAR>> system,
         const EventHandlerPtr& eventHandler);
 
+    //! copy constructor, binds the system functions to the copy
+    IntegratorSymplectic(const IntegratorSymplectic& arg);
 
     /**
 	 * @brief        Equidistant integration based on number of time steps and
-- 
2.43.0


From d0c004c1c29889cf91195034f07e3b6d73f546a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:54 +0000
Subject: [PATCH 101/113] fix: InertiaMatrixDense::changeMass did not compile

---
 ct_rbd/include/ct/iit/rbd/InertiaMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h b/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h
index a6251c7..f475901 100644
--- a/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h
+++ b/ct_rbd/include/ct/iit/rbd/InertiaMatrix.h
@@ -206,7 +206,7 @@ TPL
 inline void CLASS::changeMass(Scalar newMass) {
     // Note the use of indices AX and hard-coded 0, to make it independent from
     //  the convention angular/linear
-    this->block<3,6>(AX,0) *= newMass/getMass();
+    this->template block<3,6>(AX,0) *= newMass/getMass();
     block33(LX,AX) = block33(AX,LX).transpose();
     data(LX,LX) = data(LY,LY) = data(LZ,LZ) = newMass;
 }
-- 
2.43.0


From c20859535fee88e35949d13a6297e82d7a0cf48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:41 +0000
Subject: [PATCH 102/113] fix: bias force of a body rotating about z took the
 moment Ixy for Ixz

---
 ct_rbd/include/ct/iit/rbd/robcogen_commons.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/iit/rbd/robcogen_commons.h b/ct_rbd/include/ct/iit/rbd/robcogen_commons.h
index a264b1e..9761716 100644
--- a/ct_rbd/include/ct/iit/rbd/robcogen_commons.h
+++ b/ct_rbd/include/ct/iit/rbd/robcogen_commons.h
@@ -128,7 +128,7 @@ inline Force<DScalar> vxIv(const DScalar& omegaz, const MatrixBase<Derived>& I)
     DScalar wz2 = omegaz*omegaz;
     Force<DScalar> ret;
     ret(AX) = -I(AY,AZ) * wz2;
-    ret(AY) =  I(AX,AY) * wz2;
+    ret(AY) =  I(AX,AZ) * wz2;
     ret(AZ) =  0;
     ret(LX) =  I(AY,LZ) * wz2;
     ret(LY) =  I(AZ,LX) * wz2;
-- 
2.43.0


From 8b420fe64cb0d0df429fc6572d2bb75e0a815aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:44 +0000
Subject: [PATCH 103/113] fix: inverse dynamics of HyQ with a floating base did
 not compile

---
 .../HyQ/generated/inverse_dynamics.impl.h     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h b/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h
index c5972c6..3a2077d 100644
--- a/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h
+++ b/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h
@@ -255,40 +255,40 @@ void iit::HyQ::dyn::tpl::InverseDynamics<TRAIT>::id(
     trunk_a = - trunk_Ic.inverse() * trunk_f;
     
     LF_hipassembly_a = xm->fr_LF_hipassembly_X_fr_trunk * trunk_a;
-    jForces(LF_HAA) = (LF_hipassembly_Ic.row(iit::rbd::AZ) * LF_hipassembly_a + LF_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(LF_HAA) = (LF_hipassembly_Ic.row(iit::rbd::AZ) * LF_hipassembly_a + LF_hipassembly_f(iit::rbd::AZ));
     
     LF_upperleg_a = xm->fr_LF_upperleg_X_fr_LF_hipassembly * LF_hipassembly_a;
-    jForces(LF_HFE) = (LF_upperleg_Ic.row(iit::rbd::AZ) * LF_upperleg_a + LF_upperleg_f(iit::rbd::AZ))(0);
+    jForces(LF_HFE) = (LF_upperleg_Ic.row(iit::rbd::AZ) * LF_upperleg_a + LF_upperleg_f(iit::rbd::AZ));
     
     LF_lowerleg_a = xm->fr_LF_lowerleg_X_fr_LF_upperleg * LF_upperleg_a;
-    jForces(LF_KFE) = (LF_lowerleg_Ic.row(iit::rbd::AZ) * LF_lowerleg_a + LF_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(LF_KFE) = (LF_lowerleg_Ic.row(iit::rbd::AZ) * LF_lowerleg_a + LF_lowerleg_f(iit::rbd::AZ));
     
     RF_hipassembly_a = xm->fr_RF_hipassembly_X_fr_trunk * trunk_a;
-    jForces(RF_HAA) = (RF_hipassembly_Ic.row(iit::rbd::AZ) * RF_hipassembly_a + RF_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(RF_HAA) = (RF_hipassembly_Ic.row(iit::rbd::AZ) * RF_hipassembly_a + RF_hipassembly_f(iit::rbd::AZ));
     
     RF_upperleg_a = xm->fr_RF_upperleg_X_fr_RF_hipassembly * RF_hipassembly_a;
-    jForces(RF_HFE) = (RF_upperleg_Ic.row(iit::rbd::AZ) * RF_upperleg_a + RF_upperleg_f(iit::rbd::AZ))(0);
+    jForces(RF_HFE) = (RF_upperleg_Ic.row(iit::rbd::AZ) * RF_upperleg_a + RF_upperleg_f(iit::rbd::AZ));
     
     RF_lowerleg_a = xm->fr_RF_lowerleg_X_fr_RF_upperleg * RF_upperleg_a;
-    jForces(RF_KFE) = (RF_lowerleg_Ic.row(iit::rbd::AZ) * RF_lowerleg_a + RF_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(RF_KFE) = (RF_lowerleg_Ic.row(iit::rbd::AZ) * RF_lowerleg_a + RF_lowerleg_f(iit::rbd::AZ));
     
     LH_hipassembly_a = xm->fr_LH_hipassembly_X_fr_trunk * trunk_a;
-    jForces(LH_HAA) = (LH_hipassembly_Ic.row(iit::rbd::AZ) * LH_hipassembly_a + LH_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(LH_HAA) = (LH_hipassembly_Ic.row(iit::rbd::AZ) * LH_hipassembly_a + LH_hipassembly_f(iit::rbd::AZ));
     
     LH_upperleg_a = xm->fr_LH_upperleg_X_fr_LH_hipassembly * LH_hipassembly_a;
-    jForces(LH_HFE) = (LH_upperleg_Ic.row(iit::rbd::AZ) * LH_upperleg_a + LH_upperleg_f(iit::rbd::AZ))(0);
+    jForces(LH_HFE) = (LH_upperleg_Ic.row(iit::rbd::AZ) * LH_upperleg_a + LH_upperleg_f(iit::rbd::AZ));
     
     LH_lowerleg_a = xm->fr_LH_lowerleg_X_fr_LH_upperleg * LH_upperleg_a;
-    jForces(LH_KFE) = (LH_lowerleg_Ic.row(iit::rbd::AZ) * LH_lowerleg_a + LH_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(LH_KFE) = (LH_lowerleg_Ic.row(iit::rbd::AZ) * LH_lowerleg_a + LH_lowerleg_f(iit::rbd::AZ));
     
     RH_hipassembly_a = xm->fr_RH_hipassembly_X_fr_trunk * trunk_a;
-    jForces(RH_HAA) = (RH_hipassembly_Ic.row(iit::rbd::AZ) * RH_hipassembly_a + RH_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(RH_HAA) = (RH_hipassembly_Ic.row(iit::rbd::AZ) * RH_hipassembly_a + RH_hipassembly_f(iit::rbd::AZ));
     
     RH_upperleg_a = xm->fr_RH_upperleg_X_fr_RH_hipassembly * RH_hipassembly_a;
-    jForces(RH_HFE) = (RH_upperleg_Ic.row(iit::rbd::AZ) * RH_upperleg_a + RH_upperleg_f(iit::rbd::AZ))(0);
+    jForces(RH_HFE) = (RH_upperleg_Ic.row(iit::rbd::AZ) * RH_upperleg_a + RH_upperleg_f(iit::rbd::AZ));
     
     RH_lowerleg_a = xm->fr_RH_lowerleg_X_fr_RH_upperleg * RH_upperleg_a;
-    jForces(RH_KFE) = (RH_lowerleg_Ic.row(iit::rbd::AZ) * RH_lowerleg_a + RH_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(RH_KFE) = (RH_lowerleg_Ic.row(iit::rbd::AZ) * RH_lowerleg_a + RH_lowerleg_f(iit::rbd::AZ));
     
 
     trunk_a += g;
-- 
2.43.0


From 26fa4605852f7b161cee489b5656897d24a92dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:39 +0000
Subject: [PATCH 104/113] fix: FloatingBaseRobotState without actuator states
 did not read a state vector with Euler angles

---
 ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h b/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
index 34eac66..5691d98 100644
--- a/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
+++ b/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
@@ -155,7 +155,7 @@ public:
     typename std::enable_if<(ACT_STATE_DIM == 0), T>::type fromStateVectorEulerXyz(const state_vector_euler_t& state)
     {
         // transcribe RBDState only
-        Base_t::state_vector_euler_t(state);
+        Base_t::fromStateVectorEulerXyz(state);
     }
 
     //! a convenience method
-- 
2.43.0


From 196dad4bbbaccae51201c65c15d24039353b076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:47 +0000
Subject: [PATCH 105/113] fix: RigidBodyPose from an Eigen quaternion ignored
 the requested storage type

---
 ct_rbd/include/ct/rbd/state/RigidBodyPose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/state/RigidBodyPose.h b/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
index eda608a..a391037 100644
--- a/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
+++ b/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
@@ -83,7 +83,7 @@ public:
     RigidBodyPose(const Eigen::Quaternion<SCALAR>& orientationQuat,
         const Eigen::Matrix<SCALAR, 3, 1>& position,
         STORAGE_TYPE storage = EULER)
-        : RigidBodyPose(kindr::RotationQuaternion<SCALAR>(orientationQuat), Position3Tpl(position))
+        : RigidBodyPose(kindr::RotationQuaternion<SCALAR>(orientationQuat), Position3Tpl(position), storage)
     {
     }
 
-- 
2.43.0


From f5478f3a8e3e07852225bb3a9f1a4db2d3e46fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:13 +0000
Subject: [PATCH 106/113] fix: linear quadrotor model did not compile

---
 ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
index 32c2283..5a7bd46 100644
--- a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
+++ b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
@@ -18,8 +18,8 @@ public:
     typedef ct::core::StateVector<quadrotor::nStates> state_vector_t;
     typedef ct::core::ControlVector<quadrotor::nControls> control_vector_t;
 
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nStates> state_matrix_t;
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
+    typedef ct::core::StateMatrix<quadrotor::nStates> state_matrix_t;
+    typedef ct::core::StateControlMatrix<quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
 
 
     QuadrotorLinear* clone() const override { return new QuadrotorLinear(*this); }
-- 
2.43.0


From b3191352fe1096e1b7cffd01fb6851d1271d10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:40 +0000
Subject: [PATCH 107/113] fix: generated Hessians took the state for the
 multipliers

---
 .../ct/core/internal/autodiff/CGHelpers.h     |   2 +-
 .../HyA/codegen/HyAInverseDynHessian.cpp      | 776 +++++++++---------
 2 files changed, 389 insertions(+), 389 deletions(-)

diff --git a/ct_core/include/ct/core/internal/autodiff/CGHelpers.h b/ct_core/include/ct/core/internal/autodiff/CGHelpers.h
index fbaefbf..9f22aef 100644
--- a/ct_core/include/ct/core/internal/autodiff/CGHelpers.h
+++ b/ct_core/include/ct/core/internal/autodiff/CGHelpers.h
@@ -217,7 +217,7 @@ public:
         CppAD::cg::LanguageC<double> langC("double", 4);
         langC.setIgnoreZeroDepAssign(ignoreZero);
         CppAD::cg::LangCDefaultVariableNameGenerator<double> nameGenTmp(jacName, inputName, tempName);
-        CppAD::cg::LangCDefaultHessianVarNameGenerator<double> nameGen(&nameGenTmp, "w_in", m);
+        CppAD::cg::LangCDefaultHessianVarNameGenerator<double> nameGen(&nameGenTmp, "w_in", n);
 
         std::ostringstream code;
         codeHandler.generateCode(code, langC, hes, nameGen);
diff --git a/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp b/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp
index dd4c7ff..385b5d3 100644
--- a/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp
+++ b/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp
@@ -14,29 +14,29 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     double* hes = hessian_.data();
 
     v_[0] = sin(x_in[1]);
-    v_[1] = v_[0] * w_in[0];
+    v_[1] = v_[0] * x_in[6];
     v_[2] = 0 - v_[1];
-    v_[3] = v_[2] * w_in[1];
+    v_[3] = v_[2] * x_in[7];
     v_[4] = cos(x_in[1]);
-    v_[5] = v_[4] * w_in[0];
-    v_[6] = v_[5] * w_in[1];
+    v_[5] = v_[4] * x_in[6];
+    v_[6] = v_[5] * x_in[7];
     v_[7] = 9.81 * v_[0];
-    v_[8] = w_in[1] * w_in[1];
+    v_[8] = x_in[7] * x_in[7];
     v_[9] = cos(x_in[2]);
     v_[10] = sin(x_in[2]);
     v_[11] = 0 - v_[9];
-    v_[12] = v_[10] * v_[5] + v_[11] * w_in[1];
+    v_[12] = v_[10] * v_[5] + v_[11] * x_in[7];
     v_[13] = 0 - v_[12];
-    v_[14] = v_[9] * v_[3] + v_[13] * w_in[2];
-    v_[15] = v_[9] * v_[5] + v_[10] * w_in[1];
-    v_[16] = v_[10] * v_[3] + v_[15] * w_in[2];
+    v_[14] = v_[9] * v_[3] + v_[13] * x_in[8];
+    v_[15] = v_[9] * v_[5] + v_[10] * x_in[7];
+    v_[16] = v_[10] * v_[3] + v_[15] * x_in[8];
     v_[17] = 9.81 * v_[4];
     v_[18] = 0.112 * v_[9];
     v_[19] = -0.112 * v_[10];
     v_[20] = 0.112 * v_[9];
-    v_[21] = v_[19] * v_[5] + v_[20] * w_in[1];
-    v_[22] = v_[10] * v_[17] + v_[18] * v_[3] + v_[21] * w_in[2];
-    v_[23] = v_[1] + w_in[2];
+    v_[21] = v_[19] * v_[5] + v_[20] * x_in[7];
+    v_[22] = v_[10] * v_[17] + v_[18] * v_[3] + v_[21] * x_in[8];
+    v_[23] = v_[1] + x_in[8];
     v_[24] = 0 - v_[23] * v_[21];
     v_[25] = v_[15] * v_[23];
     v_[26] = v_[23] * v_[23];
@@ -47,20 +47,20 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[31] = 0 - v_[30];
     v_[32] = v_[30] * v_[15] + v_[28] * v_[23];
     v_[33] = 0 - v_[32];
-    v_[34] = v_[31] * v_[6] + v_[28] * v_[14] + v_[33] * w_in[3];
+    v_[34] = v_[31] * v_[6] + v_[28] * v_[14] + v_[33] * x_in[9];
     v_[35] = v_[28] * v_[15] + v_[31] * v_[23];
-    v_[36] = v_[28] * v_[6] + v_[30] * v_[14] + v_[35] * w_in[3];
+    v_[36] = v_[28] * v_[6] + v_[30] * v_[14] + v_[35] * x_in[9];
     v_[37] = -0.304 * v_[14] + -1 * v_[22];
     v_[38] = 0.112 * v_[10];
-    v_[39] = v_[18] * v_[5] + v_[38] * w_in[1];
+    v_[39] = v_[18] * v_[5] + v_[38] * x_in[7];
     v_[40] = 0 - v_[39];
-    v_[41] = v_[9] * v_[17] + v_[19] * v_[3] + v_[40] * w_in[2];
+    v_[41] = v_[9] * v_[17] + v_[19] * v_[3] + v_[40] * x_in[8];
     v_[42] = -0.304 * v_[30];
     v_[43] = -0.304 * v_[28];
     v_[44] = v_[43] * v_[12] + v_[28] * v_[21];
-    v_[45] = v_[28] * v_[7] + v_[30] * v_[41] + v_[42] * v_[16] + v_[44] * w_in[3];
+    v_[45] = v_[28] * v_[7] + v_[30] * v_[41] + v_[42] * v_[16] + v_[44] * x_in[9];
     v_[46] = -0.304 * v_[15] + -1 * v_[39];
-    v_[47] = -1 * v_[12] + w_in[3];
+    v_[47] = -1 * v_[12] + x_in[9];
     v_[48] = v_[35] * v_[46] - v_[47] * v_[44];
     v_[49] = v_[35] * v_[47];
     v_[50] = v_[47] * v_[47];
@@ -70,21 +70,21 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[54] = 0 - v_[52];
     v_[55] = v_[53] * v_[35] + v_[54] * v_[47];
     v_[56] = 0 - v_[55];
-    v_[57] = v_[53] * v_[29] + v_[52] * v_[34] + v_[56] * w_in[4];
+    v_[57] = v_[53] * v_[29] + v_[52] * v_[34] + v_[56] * x_in[10];
     v_[58] = v_[52] * v_[35] + v_[53] * v_[47];
-    v_[59] = v_[54] * v_[29] + v_[53] * v_[34] + v_[58] * w_in[4];
+    v_[59] = v_[54] * v_[29] + v_[53] * v_[34] + v_[58] * x_in[10];
     v_[60] = 0.112 * v_[53];
     v_[61] = 0.112 * v_[52];
     v_[62] = 0 - v_[52];
     v_[63] = 0 - v_[30];
     v_[64] = v_[42] * v_[12] + v_[30] * v_[21];
     v_[65] = 0 - v_[64];
-    v_[66] = v_[63] * v_[7] + v_[28] * v_[41] + v_[43] * v_[16] + v_[65] * w_in[3];
+    v_[66] = v_[63] * v_[7] + v_[28] * v_[41] + v_[43] * v_[16] + v_[65] * x_in[9];
     v_[67] = 0.112 * v_[52];
     v_[68] = -0.112 * v_[53];
     v_[69] = v_[67] * v_[47] + v_[68] * v_[35] + v_[53] * v_[46] + v_[52] * v_[44];
-    v_[70] = v_[60] * v_[29] + v_[61] * v_[34] + v_[62] * v_[37] + v_[53] * v_[66] + v_[69] * w_in[4];
-    v_[71] = v_[32] + w_in[4];
+    v_[70] = v_[60] * v_[29] + v_[61] * v_[34] + v_[62] * v_[37] + v_[53] * v_[66] + v_[69] * x_in[10];
+    v_[71] = v_[32] + x_in[10];
     v_[72] = v_[58] * v_[64] - v_[71] * v_[69];
     v_[73] = v_[58] * v_[71];
     v_[74] = v_[71] * v_[71];
@@ -97,25 +97,25 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[81] = 0.184 * v_[76] - 0.02075 * v_[77];
     v_[82] = v_[77] * v_[64] + v_[76] * v_[80] + v_[81] * v_[58];
     v_[83] = 0 - v_[82];
-    v_[84] = v_[79] * v_[45] + v_[77] * v_[70] + v_[78] * v_[57] + v_[83] * w_in[5];
+    v_[84] = v_[79] * v_[45] + v_[77] * v_[70] + v_[78] * v_[57] + v_[83] * x_in[11];
     v_[85] = v_[76] * v_[55] + v_[77] * v_[71];
     v_[86] = 0 - v_[76];
     v_[87] = v_[77] * v_[55] + v_[86] * v_[71];
     v_[88] = v_[85] * v_[87];
     v_[89] = 0.02075 * v_[71] + -0.184 * v_[55] + v_[69];
     v_[90] = v_[85] * v_[89];
-    v_[91] = v_[58] + w_in[5];
+    v_[91] = v_[58] + x_in[11];
     v_[92] = v_[91] * v_[82];
     v_[93] = 1.547475 * v_[84] + 0.038686875 * v_[57] + 0.038686875 * v_[88] + -1.547475 * (v_[90] - v_[92]);
     v_[94] = v_[79] * v_[64] + v_[77] * v_[80] + v_[78] * v_[58];
     v_[95] = v_[91] * v_[91];
     v_[96] = v_[87] * v_[87];
     v_[97] = 1.547475 * (v_[87] * v_[89] - v_[91] * v_[94]) +
-             1.547475 * (v_[77] * v_[45] + v_[76] * v_[70] + v_[81] * v_[57] + v_[94] * w_in[5]) -
+             1.547475 * (v_[77] * v_[45] + v_[76] * v_[70] + v_[81] * v_[57] + v_[94] * x_in[11]) -
              0.038686875 * (v_[95] + v_[96]);
     v_[98] = 0 - v_[85];
-    v_[99] = v_[86] * v_[36] + v_[77] * v_[59] + v_[98] * w_in[5];
-    v_[100] = v_[77] * v_[36] + v_[76] * v_[59] + v_[87] * w_in[5];
+    v_[99] = v_[86] * v_[36] + v_[77] * v_[59] + v_[98] * x_in[11];
+    v_[100] = v_[77] * v_[36] + v_[76] * v_[59] + v_[87] * x_in[11];
     v_[101] = v_[85] * v_[91];
     v_[102] = v_[87] * v_[91];
     v_[103] = v_[85] * v_[85];
@@ -127,7 +127,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
              0.038686875 * (v_[92] - v_[90]) + -0.000829 * v_[101] - 1.5e-05 * v_[102] - 0.000198 * (v_[96] - v_[103]) -
              -0.008386 * v_[104] - -0.001243 * v_[105];
     v_[90] = 0 - v_[80];
-    v_[84] = v_[67] * v_[29] + v_[68] * v_[34] + v_[53] * v_[37] + v_[52] * v_[66] + v_[90] * w_in[4];
+    v_[84] = v_[67] * v_[29] + v_[68] * v_[34] + v_[53] * v_[37] + v_[52] * v_[66] + v_[90] * x_in[10];
     v_[106] = v_[55] * v_[64] - v_[71] * v_[80];
     v_[107] = 0.02075 * v_[36] + -0.184 * v_[59] + v_[84];
     v_[108] = v_[85] * v_[94] - v_[87] * v_[82];
@@ -194,22 +194,22 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               0.01438086 * (v_[26] + v_[27]);
     v_[84] = -0.01438086 * v_[6] + 0.647967112 * v_[14] + 2.327 * v_[22] + 2.327 * v_[24] + 0.647967112 * v_[104] +
              0.01438086 * v_[73] + -1 * v_[84] - -0.0055615274403 * (v_[26] + v_[75]);
-    v_[26] = v_[1] * w_in[1];
+    v_[26] = v_[1] * x_in[7];
     v_[88] = v_[1] * v_[5];
-    v_[95] = w_in[6] * v_[4];
-    v_[96] = w_in[7] * v_[38] + v_[95] * v_[18];
-    v_[99] = w_in[7] * v_[10] + v_[95] * v_[9];
+    v_[95] = w_in[0] * v_[4];
+    v_[96] = w_in[1] * v_[38] + v_[95] * v_[18];
+    v_[99] = w_in[1] * v_[10] + v_[95] * v_[9];
     v_[101] = v_[96] * -1 + v_[99] * -0.304;
-    v_[51] = w_in[7] * v_[20] + v_[95] * v_[19];
-    v_[49] = w_in[7] * v_[11] + v_[95] * v_[10];
+    v_[51] = w_in[1] * v_[20] + v_[95] * v_[19];
+    v_[49] = w_in[1] * v_[11] + v_[95] * v_[10];
     v_[48] = v_[51] * v_[28] + v_[49] * v_[43];
-    v_[50] = w_in[9] + v_[49] * -1;
-    v_[113] = w_in[6] * v_[0];
-    v_[114] = w_in[8] + v_[113];
+    v_[50] = w_in[3] + v_[49] * -1;
+    v_[113] = w_in[0] * v_[0];
+    v_[114] = w_in[2] + v_[113];
     v_[115] = v_[114] * v_[31] + v_[99] * v_[28];
     v_[116] = v_[101] * v_[53] + v_[48] * v_[52] + v_[50] * v_[67] + v_[115] * v_[68];
     v_[117] = v_[114] * v_[28] + v_[99] * v_[30];
-    v_[118] = w_in[10] + v_[117];
+    v_[118] = w_in[4] + v_[117];
     v_[119] = v_[50] * v_[54] + v_[115] * v_[53];
     v_[120] = v_[116] + v_[118] * 0.02075 + v_[119] * -0.184;
     v_[121] = v_[118] * v_[86] + v_[119] * v_[77];
@@ -219,7 +219,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[125] = v_[101] * v_[62] + v_[48] * v_[53] + v_[50] * v_[60] + v_[115] * v_[61];
     v_[126] = v_[50] * v_[53] + v_[115] * v_[52];
     v_[127] = v_[124] * v_[79] + v_[125] * v_[77] + v_[126] * v_[78];
-    v_[128] = w_in[11] + v_[126];
+    v_[128] = w_in[5] + v_[126];
     v_[129] = v_[127] * 1.547475 + v_[128] * 0.038686875;
     v_[130] = v_[124] * v_[77] + v_[125] * v_[76] + v_[126] * v_[81];
     v_[131] = v_[130] * 1.547475;
@@ -240,36 +240,36 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[143] = v_[125] * 2.1032 + v_[126] * 0.057838;
     v_[144] = 0 - v_[143];
     v_[145] = v_[124] * 2.1032;
-    v_[146] = v_[142] + v_[144] * v_[71] + v_[145] * v_[55] + v_[132] * w_in[4];
+    v_[146] = v_[142] + v_[144] * v_[71] + v_[145] * v_[55] + v_[132] * x_in[10];
     v_[147] = 0 - v_[138];
     v_[148] = v_[120] * 1.547475 + (0 - v_[121]) * 0.038686875;
-    v_[149] = v_[147] * v_[91] + v_[148] * v_[85] + v_[131] * w_in[5];
+    v_[149] = v_[147] * v_[91] + v_[148] * v_[85] + v_[131] * x_in[11];
     v_[140] = 0 - v_[139] + v_[140];
     v_[139] = 0 - v_[148];
-    v_[150] = v_[140] * v_[91] + v_[139] * v_[87] - v_[129] * w_in[5];
+    v_[150] = v_[140] * v_[91] + v_[139] * v_[87] - v_[129] * x_in[11];
     v_[151] = v_[116] * -2.1032 + v_[119] * 0.057838;
     v_[152] = 0 - v_[151];
     v_[153] = 0 - v_[145];
-    v_[154] = v_[149] * v_[77] + v_[150] * v_[76] + v_[152] * v_[71] + v_[153] * v_[58] - v_[123] * w_in[4];
+    v_[154] = v_[149] * v_[77] + v_[150] * v_[76] + v_[152] * v_[71] + v_[153] * v_[58] - v_[123] * x_in[10];
     v_[155] = v_[124] * 1.7423722 + (0 - v_[50]) * -0.008711861 + v_[115] * 1.52322944854339e-09;
     v_[156] = 0 - v_[155];
     v_[157] = v_[101] * 1.7423722 + (0 - v_[115]) * 0.160298259823722 + v_[117] * -0.008711861;
-    v_[158] = v_[146] * v_[52] + v_[154] * v_[53] + v_[156] * v_[47] + v_[157] * v_[32] + v_[134] * w_in[3];
+    v_[158] = v_[146] * v_[52] + v_[154] * v_[53] + v_[156] * v_[47] + v_[157] * v_[32] + v_[134] * x_in[9];
     v_[159] = v_[48] * -1.7423722;
     v_[160] = v_[50] * 0.160298259823722;
     v_[161] = v_[117] * 1.52322944854339e-09;
     v_[162] = 0 - v_[159] + v_[160] - v_[161];
     v_[163] = 0 - v_[157];
     v_[164] = v_[149] * v_[79] + v_[150] * v_[77] + v_[143] * v_[58] + v_[151] * v_[55] + v_[162] * v_[47] +
-              v_[163] * v_[35] - v_[133] * w_in[3];
+              v_[163] * v_[35] - v_[133] * x_in[9];
     v_[165] = 0 - (v_[96] * 2.327 + (0 - v_[114]) * 0.01438086 + v_[99] * 0.647967112);
     v_[166] = (0 - v_[99]) * -0.0055615274403 + v_[49] * 0.01438086;
-    v_[167] = v_[158] * v_[28] + v_[164] * v_[30] + v_[165] * v_[23] + v_[166] * v_[12] + v_[137] * w_in[2];
+    v_[167] = v_[158] * v_[28] + v_[164] * v_[30] + v_[165] * v_[23] + v_[166] * v_[12] + v_[137] * x_in[8];
     v_[161] = v_[159] - v_[160] + v_[161];
     v_[160] = v_[146] * v_[53] + v_[154] * v_[62] + v_[155] * v_[35] + v_[161] * v_[32];
     v_[159] = v_[114] * -0.0055615274403 - (v_[51] * -2.327 + v_[49] * 0.647967112);
     v_[168] = 0 - v_[166];
-    v_[169] = v_[160] * -1 + v_[159] * v_[23] + v_[168] * v_[15] - v_[135] * w_in[2];
+    v_[169] = v_[160] * -1 + v_[159] * v_[23] + v_[168] * v_[15] - v_[135] * x_in[8];
     v_[170] = v_[118] * v_[77] + v_[119] * v_[76];
     v_[171] = (0 - v_[128]) * 1.5e-05 + v_[121] * 0.000198 + v_[170] * 0.00605;
     v_[172] = v_[120] * 0.038686875 + v_[128] * -0.000829 + (0 - v_[121]) * -0.00146 + (0 - v_[170]) * 0.000198;
@@ -289,22 +289,22 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[126] * -0.001387 + v_[119] * 0.019432;
     v_[183] = v_[147] * v_[94] + v_[140] * v_[82] + v_[171] * v_[87] + v_[172] * v_[85] + v_[175] * v_[91] +
               v_[175] * v_[91] + v_[149] * v_[78] + v_[150] * v_[81] + v_[143] * v_[64] + v_[153] * v_[80] +
-              v_[176] * v_[71] + v_[177] * v_[55] + v_[181] * v_[58] + v_[181] * v_[58] + v_[116] * w_in[4];
+              v_[176] * v_[71] + v_[177] * v_[55] + v_[181] * v_[58] + v_[181] * v_[58] + v_[116] * x_in[10];
     v_[184] = v_[127] * 0.038686875 + v_[128] * -0.00751 + (0 - v_[121]) * -0.000829 + v_[170] * 1.5e-05;
     v_[185] = (0 - v_[128]) * 0.000198;
     v_[174] = v_[130] + v_[185] - v_[174];
     v_[130] = v_[138] * v_[89] + v_[139] * v_[82] + v_[171] * v_[91] + v_[184] * v_[85] + v_[174] * v_[87] +
-              v_[174] * v_[87] + v_[182] * w_in[5];
+              v_[174] * v_[87] + v_[182] * x_in[11];
     v_[185] = 0 - v_[185] - v_[173];
     v_[173] = v_[141] * v_[89] + v_[148] * v_[94] + v_[172] * v_[91] + v_[184] * v_[87] + v_[185] * v_[85] +
-              v_[185] * v_[85] - v_[120] * w_in[5];
+              v_[185] * v_[85] - v_[120] * x_in[11];
     v_[186] = v_[125] * 0.057838 + v_[118] * -0.001243 + (0 - v_[126]) * -0.008386 + (0 - v_[119]) * -0.001387;
     v_[187] = v_[126] * -0.012652;
     v_[179] = v_[178] - v_[179] - v_[187];
     v_[170] = v_[127] * 0.038686875 + v_[128] * 0.009277 + v_[121] * -0.000829 + v_[170] * 1.5e-05 + v_[129] * v_[78] +
               v_[131] * v_[81] + v_[125] * 0.057838 + v_[118] * -0.001243 + v_[126] * 0.029115 + v_[119] * -0.001387;
     v_[128] = v_[142] * -0.184 + v_[130] * v_[77] + v_[173] * v_[76] + v_[151] * v_[64] + v_[145] * v_[69] +
-              v_[186] * v_[71] + v_[177] * v_[58] + v_[179] * v_[55] + v_[179] * v_[55] - v_[170] * w_in[4];
+              v_[186] * v_[71] + v_[177] * v_[58] + v_[179] * v_[55] + v_[179] * v_[55] - v_[170] * x_in[10];
     v_[127] = v_[101] * -0.008711861 + v_[48] * 1.52322944854339e-09 + (0 - v_[50]) * -0.00021200017 +
               v_[115] * 0.0036857284 + v_[117] * 0.077424;
     v_[121] = v_[48] * 0.160298259823722 + v_[124] * -0.008711861 + v_[50] * -0.06337651 +
@@ -319,7 +319,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[115] * 0.0036857284 + v_[117] * 0.081661;
     v_[192] = v_[146] * v_[68] + v_[154] * v_[61] + v_[183] * v_[52] + v_[128] * v_[53] + v_[155] * v_[46] +
               v_[163] * v_[64] + v_[127] * v_[47] + v_[121] * v_[32] + v_[191] * v_[35] + v_[191] * v_[35] +
-              v_[122] * w_in[3];
+              v_[122] * x_in[9];
     v_[187] = v_[187] + v_[180];
     v_[180] = v_[101] * 0.160298259823722 + v_[124] * 1.52322944854339e-09 + v_[50] * -0.0022920002 +
               (0 - v_[115]) * 0.01404749 + (0 - v_[117]) * 0.0036857284;
@@ -331,7 +331,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[142] = v_[142] * 0.02075 + v_[130] * v_[86] + v_[173] * v_[77] + v_[144] * v_[69] + v_[152] * v_[80] +
               v_[176] * v_[58] + v_[186] * v_[55] + v_[187] * v_[71] + v_[187] * v_[71] + v_[161] * v_[46] +
               v_[157] * v_[44] + v_[180] * v_[47] + v_[121] * v_[35] + v_[189] * v_[32] + v_[189] * v_[32] -
-              v_[178] * w_in[3];
+              v_[178] * x_in[9];
     v_[195] = v_[51] * 0.647967112 + (0 - v_[114]) * -0.011715295 + v_[99] * 5.399998e-05 + v_[49] * -0.199538951;
     v_[196] = v_[51] * -0.0055615274403 + v_[96] * 0.01438086 + v_[114] * 0.00750500000000001 +
               (0 - v_[99]) * -0.0037997814 + v_[49] * -0.011715295;
@@ -345,7 +345,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   -1 +
               v_[51] * -0.647967112 + v_[114] * -0.011715295 + v_[99] * 5.399998e-05 + v_[49] * 0.20236395;
     v_[160] = v_[160] * -0.304 + v_[192] * v_[28] + v_[142] * v_[30] + v_[168] * v_[39] + v_[195] * v_[23] +
-              v_[196] * v_[12] + v_[200] * v_[15] + v_[200] * v_[15] + v_[117] * w_in[2];
+              v_[196] * v_[12] + v_[200] * v_[15] + v_[200] * v_[15] + v_[117] * x_in[8];
     v_[194] = v_[193] + v_[188] + v_[194] + v_[190];
     v_[193] =
         v_[96] * 0.647967112 + v_[114] * -0.0037997814 + (0 - v_[99]) * -0.192033951 + (0 - v_[49]) * 5.399998e-05;
@@ -359,33 +359,33 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[162] * v_[64] + v_[127] * v_[35] + v_[180] * v_[32] + v_[194] * v_[47] + v_[194] * v_[47]) *
                   -1 +
               v_[166] * v_[21] + v_[193] * v_[23] + v_[196] * v_[15] + v_[198] * v_[12] + v_[198] * v_[12] -
-              v_[136] * w_in[2];
-    v_[202] = w_in[7] * 0.046852534 + (0 - v_[95]) * -0.002752 + v_[113] * -0.022851627;
-    v_[203] = (0 - w_in[7]) * 0.0055279857;
+              v_[136] * x_in[8];
+    v_[202] = w_in[1] * 0.046852534 + (0 - v_[95]) * -0.002752 + v_[113] * -0.022851627;
+    v_[203] = (0 - w_in[1]) * 0.0055279857;
     v_[204] = v_[203] - (0 - v_[113]) * -0.002752;
     v_[96] = v_[178] * v_[31] + v_[122] * v_[28] + v_[51] * -0.0055615274403 + v_[96] * -0.01438086 +
-             v_[114] * 0.010329999 + v_[99] * -0.0037997814 + v_[49] * -0.011715295 + w_in[7] * -0.022851627 +
-             v_[95] * 0.0055279857 + v_[113] * 0.039002996 + (0 - w_in[7]) * -0.022851627 + v_[95] * 0.0055279857 +
+             v_[114] * 0.010329999 + v_[99] * -0.0037997814 + v_[49] * -0.011715295 + w_in[1] * -0.022851627 +
+             v_[95] * 0.0055279857 + v_[113] * 0.039002996 + (0 - w_in[1]) * -0.022851627 + v_[95] * 0.0055279857 +
              v_[113] * -0.034462002;
     v_[205] = v_[167] * v_[19] + v_[169] * v_[18] + v_[160] * v_[9] + v_[201] * v_[10] + v_[202] * v_[1] +
-              v_[204] * v_[5] + v_[204] * v_[5] + v_[96] * w_in[1];
+              v_[204] * v_[5] + v_[204] * v_[5] + v_[96] * x_in[7];
     v_[206] = cos(x_in[1]);
-    v_[207] = v_[206] * w_in[0];
+    v_[207] = v_[206] * x_in[6];
     v_[208] = -v_[207];
-    v_[209] = v_[208] * w_in[1];
+    v_[209] = v_[208] * x_in[7];
     v_[210] = sin(x_in[1]);
     v_[211] = 0 - v_[210];
-    v_[212] = v_[211] * w_in[0];
-    v_[213] = v_[212] * w_in[1];
+    v_[212] = v_[211] * x_in[6];
+    v_[213] = v_[212] * x_in[7];
     v_[214] = 9.81 * v_[206];
     v_[215] = v_[10] * v_[212];
     v_[216] = -v_[215];
-    v_[217] = v_[9] * v_[209] + v_[216] * w_in[2];
+    v_[217] = v_[9] * v_[209] + v_[216] * x_in[8];
     v_[218] = v_[9] * v_[212];
-    v_[219] = v_[10] * v_[209] + v_[218] * w_in[2];
+    v_[219] = v_[10] * v_[209] + v_[218] * x_in[8];
     v_[220] = 9.81 * v_[211];
     v_[221] = v_[19] * v_[212];
-    v_[222] = v_[10] * v_[220] + v_[18] * v_[209] + v_[221] * w_in[2];
+    v_[222] = v_[10] * v_[220] + v_[18] * v_[209] + v_[221] * x_in[8];
     v_[223] = -(v_[207] * v_[21] + v_[23] * v_[221]);
     v_[224] = v_[218] * v_[23] + v_[15] * v_[207];
     v_[225] = v_[207] * v_[23] + v_[23] * v_[207];
@@ -393,15 +393,15 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[227] = -1 * v_[219];
     v_[228] = v_[30] * v_[218] + v_[28] * v_[207];
     v_[229] = -v_[228];
-    v_[230] = v_[31] * v_[213] + v_[28] * v_[217] + v_[229] * w_in[3];
+    v_[230] = v_[31] * v_[213] + v_[28] * v_[217] + v_[229] * x_in[9];
     v_[231] = v_[28] * v_[218] + v_[31] * v_[207];
-    v_[232] = v_[28] * v_[213] + v_[30] * v_[217] + v_[231] * w_in[3];
+    v_[232] = v_[28] * v_[213] + v_[30] * v_[217] + v_[231] * x_in[9];
     v_[233] = -0.304 * v_[217] + -1 * v_[222];
     v_[234] = v_[18] * v_[212];
     v_[235] = -v_[234];
-    v_[236] = v_[9] * v_[220] + v_[19] * v_[209] + v_[235] * w_in[2];
+    v_[236] = v_[9] * v_[220] + v_[19] * v_[209] + v_[235] * x_in[8];
     v_[237] = v_[43] * v_[215] + v_[28] * v_[221];
-    v_[238] = v_[28] * v_[214] + v_[30] * v_[236] + v_[42] * v_[219] + v_[237] * w_in[3];
+    v_[238] = v_[28] * v_[214] + v_[30] * v_[236] + v_[42] * v_[219] + v_[237] * x_in[9];
     v_[239] = -0.304 * v_[218] + -1 * v_[234];
     v_[240] = -1 * v_[215];
     v_[241] = v_[231] * v_[46] + v_[35] * v_[239] - (v_[240] * v_[44] + v_[47] * v_[237]);
@@ -410,14 +410,14 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[244] = v_[228] * v_[32] + v_[32] * v_[228];
     v_[245] = v_[53] * v_[231] + v_[54] * v_[240];
     v_[246] = -v_[245];
-    v_[247] = v_[53] * v_[227] + v_[52] * v_[230] + v_[246] * w_in[4];
+    v_[247] = v_[53] * v_[227] + v_[52] * v_[230] + v_[246] * x_in[10];
     v_[248] = v_[52] * v_[231] + v_[53] * v_[240];
-    v_[249] = v_[54] * v_[227] + v_[53] * v_[230] + v_[248] * w_in[4];
+    v_[249] = v_[54] * v_[227] + v_[53] * v_[230] + v_[248] * x_in[10];
     v_[250] = v_[42] * v_[215] + v_[30] * v_[221];
     v_[251] = -v_[250];
-    v_[252] = v_[63] * v_[214] + v_[28] * v_[236] + v_[43] * v_[219] + v_[251] * w_in[3];
+    v_[252] = v_[63] * v_[214] + v_[28] * v_[236] + v_[43] * v_[219] + v_[251] * x_in[9];
     v_[253] = v_[67] * v_[240] + v_[68] * v_[231] + v_[53] * v_[239] + v_[52] * v_[237];
-    v_[254] = v_[60] * v_[227] + v_[61] * v_[230] + v_[62] * v_[233] + v_[53] * v_[252] + v_[253] * w_in[4];
+    v_[254] = v_[60] * v_[227] + v_[61] * v_[230] + v_[62] * v_[233] + v_[53] * v_[252] + v_[253] * x_in[10];
     v_[255] = v_[248] * v_[64] + v_[58] * v_[250] - (v_[228] * v_[69] + v_[71] * v_[253]);
     v_[256] = v_[248] * v_[71] + v_[58] * v_[228];
     v_[257] = v_[228] * v_[71] + v_[71] * v_[228];
@@ -425,7 +425,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[259] = v_[60] * v_[240] + v_[61] * v_[231] + v_[62] * v_[239] + v_[53] * v_[237];
     v_[260] = v_[77] * v_[250] + v_[76] * v_[259] + v_[81] * v_[248];
     v_[261] = -v_[260];
-    v_[262] = v_[79] * v_[238] + v_[77] * v_[254] + v_[78] * v_[247] + v_[261] * w_in[5];
+    v_[262] = v_[79] * v_[238] + v_[77] * v_[254] + v_[78] * v_[247] + v_[261] * x_in[11];
     v_[263] = v_[76] * v_[245] + v_[77] * v_[228];
     v_[264] = v_[77] * v_[245] + v_[86] * v_[228];
     v_[265] = v_[263] * v_[87] + v_[85] * v_[264];
@@ -437,11 +437,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[271] = v_[248] * v_[91] + v_[91] * v_[248];
     v_[272] = v_[264] * v_[87] + v_[87] * v_[264];
     v_[273] = 1.547475 * (v_[264] * v_[89] + v_[87] * v_[266] - (v_[248] * v_[94] + v_[91] * v_[270])) +
-              1.547475 * (v_[77] * v_[238] + v_[76] * v_[254] + v_[81] * v_[247] + v_[270] * w_in[5]) -
+              1.547475 * (v_[77] * v_[238] + v_[76] * v_[254] + v_[81] * v_[247] + v_[270] * x_in[11]) -
               0.038686875 * (v_[271] + v_[272]);
     v_[274] = -v_[263];
-    v_[275] = v_[86] * v_[232] + v_[77] * v_[249] + v_[274] * w_in[5];
-    v_[276] = v_[77] * v_[232] + v_[76] * v_[249] + v_[264] * w_in[5];
+    v_[275] = v_[86] * v_[232] + v_[77] * v_[249] + v_[274] * x_in[11];
+    v_[276] = v_[77] * v_[232] + v_[76] * v_[249] + v_[264] * x_in[11];
     v_[277] = v_[263] * v_[91] + v_[85] * v_[248];
     v_[278] = v_[264] * v_[91] + v_[87] * v_[248];
     v_[279] = v_[263] * v_[85] + v_[85] * v_[263];
@@ -453,7 +453,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               -0.00751 * v_[265] + 0.038686875 * (v_[268] - v_[267]) + -0.000829 * v_[277] - 1.5e-05 * v_[278] -
               0.000198 * (v_[272] - v_[279]) - -0.008386 * v_[280] - -0.001243 * v_[281];
     v_[267] = -v_[259];
-    v_[262] = v_[67] * v_[227] + v_[68] * v_[230] + v_[53] * v_[233] + v_[52] * v_[252] + v_[267] * w_in[4];
+    v_[262] = v_[67] * v_[227] + v_[68] * v_[230] + v_[53] * v_[233] + v_[52] * v_[252] + v_[267] * x_in[10];
     v_[282] = v_[245] * v_[64] + v_[55] * v_[250] - (v_[228] * v_[80] + v_[71] * v_[259]);
     v_[283] = 0.02075 * v_[232] + -0.184 * v_[249] + v_[262];
     v_[284] = v_[263] * v_[94] + v_[85] * v_[270] - (v_[264] * v_[82] + v_[87] * v_[260]);
@@ -521,9 +521,9 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               0.01438086 * (v_[225] + v_[226]);
     v_[262] = -0.01438086 * v_[213] + 0.647967112 * v_[217] + 2.327 * v_[222] + 2.327 * v_[223] +
               0.647967112 * v_[280] + 0.01438086 * v_[256] + -1 * v_[262] - -0.0055615274403 * (v_[225] + v_[258]);
-    v_[225] = v_[207] * w_in[1];
+    v_[225] = v_[207] * x_in[7];
     v_[265] = v_[207] * v_[5] + v_[1] * v_[212];
-    v_[271] = w_in[6] * v_[211];
+    v_[271] = w_in[0] * v_[211];
     v_[272] = v_[271] * v_[18];
     v_[275] = v_[271] * v_[9];
     v_[277] = v_[272] * -1 + v_[275] * -0.304;
@@ -531,7 +531,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[242] = v_[271] * v_[10];
     v_[241] = v_[244] * v_[28] + v_[242] * v_[43];
     v_[243] = v_[242] * -1;
-    v_[289] = w_in[6] * v_[206];
+    v_[289] = w_in[0] * v_[206];
     v_[290] = v_[289] * v_[31] + v_[275] * v_[28];
     v_[291] = v_[277] * v_[53] + v_[241] * v_[52] + v_[243] * v_[67] + v_[290] * v_[68];
     v_[292] = v_[289] * v_[28] + v_[275] * v_[30];
@@ -565,23 +565,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[316] = v_[299] * 2.1032 + v_[300] * 0.057838;
     v_[317] = 0 - v_[316];
     v_[318] = v_[298] * 2.1032;
-    v_[319] = v_[315] + v_[144] * v_[228] + v_[317] * v_[71] + v_[145] * v_[245] + v_[318] * v_[55] + v_[305] * w_in[4];
+    v_[319] = v_[315] + v_[144] * v_[228] + v_[317] * v_[71] + v_[145] * v_[245] + v_[318] * v_[55] + v_[305] * x_in[10];
     v_[320] = 0 - v_[311];
     v_[321] = v_[294] * 1.547475 + (0 - v_[295]) * 0.038686875;
-    v_[322] = v_[147] * v_[248] + v_[320] * v_[91] + v_[148] * v_[263] + v_[321] * v_[85] + v_[304] * w_in[5];
+    v_[322] = v_[147] * v_[248] + v_[320] * v_[91] + v_[148] * v_[263] + v_[321] * v_[85] + v_[304] * x_in[11];
     v_[313] = 0 - v_[312] + v_[313];
     v_[312] = 0 - v_[321];
-    v_[323] = v_[140] * v_[248] + v_[313] * v_[91] + v_[139] * v_[264] + v_[312] * v_[87] - v_[302] * w_in[5];
+    v_[323] = v_[140] * v_[248] + v_[313] * v_[91] + v_[139] * v_[264] + v_[312] * v_[87] - v_[302] * x_in[11];
     v_[324] = v_[291] * -2.1032 + v_[293] * 0.057838;
     v_[325] = 0 - v_[324];
     v_[326] = 0 - v_[318];
     v_[327] = v_[322] * v_[77] + v_[323] * v_[76] + v_[152] * v_[228] + v_[325] * v_[71] + v_[153] * v_[248] +
-              v_[326] * v_[58] - v_[297] * w_in[4];
+              v_[326] * v_[58] - v_[297] * x_in[10];
     v_[328] = v_[298] * 1.7423722 + (0 - v_[243]) * -0.008711861 + v_[290] * 1.52322944854339e-09;
     v_[329] = 0 - v_[328];
     v_[330] = v_[277] * 1.7423722 + (0 - v_[290]) * 0.160298259823722 + v_[292] * -0.008711861;
     v_[331] = v_[319] * v_[52] + v_[327] * v_[53] + v_[156] * v_[240] + v_[329] * v_[47] + v_[157] * v_[228] +
-              v_[330] * v_[32] + v_[307] * w_in[3];
+              v_[330] * v_[32] + v_[307] * x_in[9];
     v_[332] = v_[241] * -1.7423722;
     v_[333] = v_[243] * 0.160298259823722;
     v_[334] = v_[292] * 1.52322944854339e-09;
@@ -589,18 +589,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[336] = 0 - v_[330];
     v_[337] = v_[322] * v_[79] + v_[323] * v_[77] + v_[143] * v_[248] + v_[316] * v_[58] + v_[151] * v_[245] +
               v_[324] * v_[55] + v_[162] * v_[240] + v_[335] * v_[47] + v_[163] * v_[231] + v_[336] * v_[35] -
-              v_[306] * w_in[3];
+              v_[306] * x_in[9];
     v_[338] = 0 - (v_[272] * 2.327 + (0 - v_[289]) * 0.01438086 + v_[275] * 0.647967112);
     v_[339] = (0 - v_[275]) * -0.0055615274403 + v_[242] * 0.01438086;
     v_[340] = v_[331] * v_[28] + v_[337] * v_[30] + v_[165] * v_[207] + v_[338] * v_[23] + v_[166] * v_[215] +
-              v_[339] * v_[12] + v_[310] * w_in[2];
+              v_[339] * v_[12] + v_[310] * x_in[8];
     v_[334] = v_[332] - v_[333] + v_[334];
     v_[333] = v_[319] * v_[53] + v_[327] * v_[62] + v_[155] * v_[231] + v_[328] * v_[35] + v_[161] * v_[228] +
               v_[334] * v_[32];
     v_[332] = v_[289] * -0.0055615274403 - (v_[244] * -2.327 + v_[242] * 0.647967112);
     v_[341] = 0 - v_[339];
     v_[342] =
-        v_[333] * -1 + v_[159] * v_[207] + v_[332] * v_[23] + v_[168] * v_[218] + v_[341] * v_[15] - v_[308] * w_in[2];
+        v_[333] * -1 + v_[159] * v_[207] + v_[332] * v_[23] + v_[168] * v_[218] + v_[341] * v_[15] - v_[308] * x_in[8];
     v_[343] = v_[292] * v_[77] + v_[293] * v_[76];
     v_[344] = (0 - v_[300]) * 1.5e-05 + v_[295] * 0.000198 + v_[343] * 0.00605;
     v_[345] = v_[294] * 0.038686875 + v_[300] * -0.000829 + (0 - v_[295]) * -0.00146 + (0 - v_[343]) * 0.000198;
@@ -625,17 +625,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[300] * -0.001387 + v_[293] * 0.019432;
     v_[349] = v_[348] + v_[322] * v_[78] + v_[323] * v_[81] + v_[143] * v_[250] + v_[316] * v_[64] + v_[153] * v_[259] +
               v_[326] * v_[80] + v_[176] * v_[228] + v_[313] * v_[71] + v_[177] * v_[245] + v_[320] * v_[55] +
-              v_[181] * v_[248] + v_[181] * v_[248] + v_[349] * v_[58] + v_[349] * v_[58] + v_[291] * w_in[4];
+              v_[181] * v_[248] + v_[181] * v_[248] + v_[349] * v_[58] + v_[349] * v_[58] + v_[291] * x_in[10];
     v_[348] = v_[301] * 0.038686875 + v_[300] * -0.00751 + (0 - v_[295]) * -0.000829 + v_[343] * 1.5e-05;
     v_[326] = (0 - v_[300]) * 0.000198;
     v_[347] = v_[303] + v_[326] - v_[347];
     v_[347] = v_[138] * v_[266] + v_[311] * v_[89] + v_[139] * v_[260] + v_[312] * v_[82] + v_[171] * v_[248] +
               v_[344] * v_[91] + v_[184] * v_[263] + v_[348] * v_[85] + v_[174] * v_[264] + v_[174] * v_[264] +
-              v_[347] * v_[87] + v_[347] * v_[87] + v_[350] * w_in[5];
+              v_[347] * v_[87] + v_[347] * v_[87] + v_[350] * x_in[11];
     v_[326] = 0 - v_[326] - v_[346];
     v_[326] = v_[141] * v_[266] + v_[314] * v_[89] + v_[148] * v_[270] + v_[321] * v_[94] + v_[172] * v_[248] +
               v_[345] * v_[91] + v_[184] * v_[264] + v_[348] * v_[87] + v_[185] * v_[263] + v_[185] * v_[263] +
-              v_[326] * v_[85] + v_[326] * v_[85] - v_[294] * w_in[5];
+              v_[326] * v_[85] + v_[326] * v_[85] - v_[294] * x_in[11];
     v_[348] = v_[299] * 0.057838 + v_[292] * -0.001243 + (0 - v_[300]) * -0.008386 + (0 - v_[293]) * -0.001387;
     v_[345] = v_[300] * -0.012652;
     v_[140] = v_[175] - v_[140] - v_[345];
@@ -644,7 +644,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[140] = v_[315] * -0.184 + v_[347] * v_[77] + v_[326] * v_[76] + v_[151] * v_[250] + v_[324] * v_[64] +
               v_[145] * v_[253] + v_[318] * v_[69] + v_[186] * v_[228] + v_[348] * v_[71] + v_[177] * v_[248] +
               v_[320] * v_[58] + v_[179] * v_[245] + v_[179] * v_[245] + v_[140] * v_[55] + v_[140] * v_[55] -
-              v_[343] * w_in[4];
+              v_[343] * x_in[10];
     v_[320] = v_[277] * -0.008711861 + v_[241] * 1.52322944854339e-09 + (0 - v_[243]) * -0.00021200017 +
               v_[290] * 0.0036857284 + v_[292] * 0.077424;
     v_[324] = v_[241] * 0.160298259823722 + v_[298] * -0.008711861 + v_[243] * -0.06337651 +
@@ -660,7 +660,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[145] = v_[319] * v_[68] + v_[327] * v_[61] + v_[349] * v_[52] + v_[140] * v_[53] + v_[155] * v_[239] +
               v_[328] * v_[46] + v_[163] * v_[250] + v_[336] * v_[64] + v_[127] * v_[240] + v_[320] * v_[47] +
               v_[121] * v_[228] + v_[324] * v_[32] + v_[191] * v_[231] + v_[191] * v_[231] + v_[145] * v_[35] +
-              v_[145] * v_[35] + v_[296] * w_in[3];
+              v_[145] * v_[35] + v_[296] * x_in[9];
     v_[345] = v_[345] + v_[147];
     v_[345] = v_[315] * 0.02075 + v_[347] * v_[86] + v_[326] * v_[77] + v_[144] * v_[253] + v_[317] * v_[69] +
               v_[152] * v_[259] + v_[325] * v_[80] + v_[176] * v_[248] + v_[313] * v_[58] + v_[186] * v_[245] +
@@ -676,7 +676,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[298] * 1.52322944854339e-09 + v_[243] * -0.0022920002 + v_[290] * 0.01828449 + v_[292] * 0.0036857284;
     v_[177] = v_[345] + v_[161] * v_[239] + v_[334] * v_[46] + v_[157] * v_[237] + v_[330] * v_[44] +
               v_[180] * v_[240] + v_[267] * v_[47] + v_[121] * v_[231] + v_[324] * v_[35] + v_[189] * v_[228] +
-              v_[189] * v_[228] + v_[177] * v_[32] + v_[177] * v_[32] - v_[318] * w_in[3];
+              v_[189] * v_[228] + v_[177] * v_[32] + v_[177] * v_[32] - v_[318] * x_in[9];
     v_[345] = v_[244] * 0.647967112 + (0 - v_[289]) * -0.011715295 + v_[275] * 5.399998e-05 + v_[242] * -0.199538951;
     v_[324] = v_[244] * -0.0055615274403 + v_[272] * 0.01438086 + v_[289] * 0.00750500000000001 +
               (0 - v_[275]) * -0.0037997814 + v_[242] * -0.011715295;
@@ -691,7 +691,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[244] * -0.647967112 + v_[289] * -0.011715295 + v_[275] * 5.399998e-05 + v_[242] * 0.20236395;
     v_[121] = v_[333] * -0.304 + v_[145] * v_[28] + v_[177] * v_[30] + v_[168] * v_[234] + v_[341] * v_[39] +
               v_[195] * v_[207] + v_[345] * v_[23] + v_[196] * v_[215] + v_[324] * v_[12] + v_[200] * v_[218] +
-              v_[200] * v_[218] + v_[121] * v_[15] + v_[121] * v_[15] + v_[161] * w_in[2];
+              v_[200] * v_[218] + v_[121] * v_[15] + v_[121] * v_[15] + v_[161] * x_in[8];
     v_[246] = v_[253] + v_[179] + v_[246] + v_[151];
     v_[246] = v_[319] * v_[67] + v_[327] * v_[60] + v_[349] * v_[53] + v_[140] * v_[54] + v_[156] * v_[237] +
               v_[329] * v_[44] + v_[162] * v_[250] + v_[335] * v_[64] + v_[127] * v_[231] + v_[320] * v_[35] +
@@ -708,7 +708,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[275] * 0.20986895 + v_[242] * 5.399998e-05;
     v_[330] = v_[331] * v_[43] + v_[337] * v_[42] + v_[246] * -1 + v_[166] * v_[221] + v_[339] * v_[21] +
               v_[193] * v_[207] + v_[251] * v_[23] + v_[196] * v_[218] + v_[324] * v_[15] + v_[198] * v_[215] +
-              v_[198] * v_[215] + v_[330] * v_[12] + v_[330] * v_[12] - v_[309] * w_in[2];
+              v_[198] * v_[215] + v_[330] * v_[12] + v_[330] * v_[12] - v_[309] * x_in[8];
     v_[246] = (0 - v_[271]) * -0.002752 + v_[289] * -0.022851627;
     v_[324] = (0 - v_[289]) * -0.002752;
     v_[339] = 0 - v_[324];
@@ -717,7 +717,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[289] * 0.039002996 + v_[271] * 0.0055279857 + v_[289] * -0.034462002;
     v_[339] = v_[340] * v_[19] + v_[342] * v_[18] + v_[121] * v_[9] + v_[330] * v_[10] + v_[202] * v_[207] +
               v_[246] * v_[1] + v_[204] * v_[212] + v_[204] * v_[212] + v_[339] * v_[5] + v_[339] * v_[5] +
-              v_[272] * w_in[1];
+              v_[272] * x_in[7];
     v_[188] = v_[190] + v_[197] + v_[188] + v_[199];
     v_[267] = v_[229] + v_[334] + v_[267] + v_[189];
     v_[267] = v_[145] * v_[31] + v_[177] * v_[28] + v_[165] * v_[221] + v_[338] * v_[21] + v_[159] * v_[234] +
@@ -731,28 +731,28 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[251] = 0 - v_[216];
     v_[345] = v_[308] * v_[19] + v_[310] * v_[18] + v_[309] * v_[9] + v_[161] * v_[10] + v_[271] * 0.08585553 +
               v_[289] * 0.0055279857;
-    v_[251] = v_[267] + v_[235] * w_in[1] + v_[202] * v_[212] + v_[246] * v_[5] + v_[203] * v_[207] +
-              v_[203] * v_[207] + v_[251] * v_[1] + v_[251] * v_[1] - v_[345] * w_in[1];
-    v_[267] = w_in[7] * -0.002752 + (0 - v_[95]) * 0.012390532 + (0 - v_[113]) * 0.0055279857;
-    v_[246] = v_[135] * v_[19] + v_[137] * v_[18] + v_[136] * v_[9] + v_[117] * v_[10] + w_in[7] * -0.002752 +
+    v_[251] = v_[267] + v_[235] * x_in[7] + v_[202] * v_[212] + v_[246] * v_[5] + v_[203] * v_[207] +
+              v_[203] * v_[207] + v_[251] * v_[1] + v_[251] * v_[1] - v_[345] * x_in[7];
+    v_[267] = w_in[1] * -0.002752 + (0 - v_[95]) * 0.012390532 + (0 - v_[113]) * 0.0055279857;
+    v_[246] = v_[135] * v_[19] + v_[137] * v_[18] + v_[136] * v_[9] + v_[117] * v_[10] + w_in[1] * -0.002752 +
               v_[95] * 0.08585553 + v_[113] * 0.0055279857;
     v_[203] = v_[192] * v_[31] + v_[142] * v_[28] + v_[165] * v_[21] + v_[159] * v_[39] + v_[195] * v_[15] +
-              v_[193] * v_[12] + v_[188] * v_[23] + v_[188] * v_[23] + v_[267] * w_in[1] + v_[202] * v_[5] +
-              v_[203] * v_[1] + v_[203] * v_[1] - v_[246] * w_in[1];
+              v_[193] * v_[12] + v_[188] * v_[23] + v_[188] * v_[23] + v_[267] * x_in[7] + v_[202] * v_[5] +
+              v_[203] * v_[1] + v_[203] * v_[1] - v_[246] * x_in[7];
     hes[13] =
         (0 -
-            (w_in[6] * (0.08585553 * v_[3] + 0.0055279857 * v_[6] + 0.0099341499912 * v_[7] + 0.0055279857 * v_[6] +
+            (w_in[0] * (0.08585553 * v_[3] + 0.0055279857 * v_[6] + 0.0099341499912 * v_[7] + 0.0055279857 * v_[6] +
                            -0.022851627 * (v_[8] - v_[1] * v_[1]) + v_[9] * v_[109] + v_[10] * v_[105] +
                            v_[19] * v_[111] + v_[18] * v_[84] - 0.012390532 * v_[26] - -0.002752 * v_[88]) +
-                (v_[135] * v_[9] + v_[137] * v_[10] + w_in[7] * 0.293374233908935 + v_[113] * -0.0099341499912) * 9.81 +
-                v_[205] * w_in[0])) *
+                (v_[135] * v_[9] + v_[137] * v_[10] + w_in[1] * 0.293374233908935 + v_[113] * -0.0099341499912) * 9.81 +
+                v_[205] * x_in[6])) *
             v_[4] -
-        (w_in[6] * (0.08585553 * v_[209] + 0.0055279857 * v_[213] + 0.0099341499912 * v_[214] + 0.0055279857 * v_[213] +
+        (w_in[0] * (0.08585553 * v_[209] + 0.0055279857 * v_[213] + 0.0099341499912 * v_[214] + 0.0055279857 * v_[213] +
                        -0.022851627 * (0 - (v_[207] * v_[1] + v_[1] * v_[207])) + v_[9] * v_[285] + v_[10] * v_[281] +
                        v_[19] * v_[287] + v_[18] * v_[262] - 0.012390532 * v_[225] - -0.002752 * v_[265]) +
-            (v_[308] * v_[9] + v_[310] * v_[10] + v_[289] * -0.0099341499912) * 9.81 + v_[339] * w_in[0]) *
+            (v_[308] * v_[9] + v_[310] * v_[10] + v_[289] * -0.0099341499912) * 9.81 + v_[339] * x_in[6]) *
             v_[210] +
-        (w_in[6] *
+        (w_in[0] *
                 (0.0055279857 * v_[209] + 0.039002996 * v_[213] + -0.0099341499912 * v_[220] + -0.034462002 * v_[213] +
                     -0.022851627 * v_[265] + 0.010329999 * v_[213] + -0.0037997814 * v_[217] + -0.011715295 * v_[219] +
                     -0.0055615274403 * v_[236] + -0.01438086 * v_[222] + -0.0055615274403 * v_[286] +
@@ -762,18 +762,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
             (v_[306] * v_[63] + v_[307] * v_[28] + v_[275] * 0.0055615274403 + v_[242] * 0.01438086 +
                 v_[271] * 0.0099341499912) *
                 9.81 +
-            v_[251] * w_in[0]) *
+            v_[251] * x_in[6]) *
             v_[206] -
-        (w_in[6] * (0.0055279857 * v_[3] + 0.039002996 * v_[6] + -0.0099341499912 * v_[17] + -0.034462002 * v_[6] +
+        (w_in[0] * (0.0055279857 * v_[3] + 0.039002996 * v_[6] + -0.0099341499912 * v_[17] + -0.034462002 * v_[6] +
                        -0.022851627 * v_[88] + 0.010329999 * v_[6] + -0.0037997814 * v_[14] + -0.011715295 * v_[16] +
                        -0.0055615274403 * v_[41] + -0.01438086 * v_[22] + -0.0055615274403 * v_[110] +
                        0.00750500000000001 * v_[73] + -0.0037997814 * v_[104] + v_[31] * v_[100] + v_[28] * v_[108] -
                        0.01438086 * v_[24] - -0.011715295 * v_[25] - 5.399998e-05 * (v_[75] - v_[27]) -
                        0.0055279857 * v_[26] - -0.002752 * (v_[8] - v_[5] * v_[5])) +
             (v_[133] * v_[63] + v_[134] * v_[28] + v_[99] * 0.0055615274403 + v_[49] * 0.01438086 +
-                w_in[7] * 0.0606159433962 + v_[95] * 0.0099341499912) *
+                w_in[1] * 0.0606159433962 + v_[95] * 0.0099341499912) *
                 9.81 +
-            v_[203] * w_in[0]) *
+            v_[203] * x_in[6]) *
             v_[0];
     hes[18] = v_[205] * v_[211] + v_[339] * v_[4] + v_[203] * v_[206] + v_[251] * v_[0];
     v_[203] = sin(x_in[2]);
@@ -781,18 +781,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     hes[14] =
         0 -
         (v_[95] * v_[285] + v_[271] * v_[109] + v_[135] * v_[220] + v_[308] * v_[17] + v_[136] * v_[209] +
-            v_[309] * v_[3] + v_[160] * v_[212] + v_[121] * v_[5] + (w_in[7] * v_[287] + v_[340] * w_in[1]) * 0.112 +
+            v_[309] * v_[3] + v_[160] * v_[212] + v_[121] * v_[5] + (w_in[1] * v_[287] + v_[340] * x_in[7]) * 0.112 +
             (v_[95] * v_[262] + v_[271] * v_[84] + v_[137] * v_[209] + v_[310] * v_[3] + v_[169] * v_[212] +
                 v_[342] * v_[5]) *
                 0.112 -
-            (w_in[7] * v_[281] + v_[330] * w_in[1])) *
+            (w_in[1] * v_[281] + v_[330] * x_in[7])) *
             v_[203] +
-        (w_in[7] * v_[285] + v_[95] * v_[281] + v_[271] * v_[105] + v_[137] * v_[220] + v_[310] * v_[17] +
-            v_[117] * v_[209] + v_[161] * v_[3] + v_[121] * w_in[1] + v_[201] * v_[212] + v_[330] * v_[5] +
+        (w_in[1] * v_[285] + v_[95] * v_[281] + v_[271] * v_[105] + v_[137] * v_[220] + v_[310] * v_[17] +
+            v_[117] * v_[209] + v_[161] * v_[3] + v_[121] * x_in[7] + v_[201] * v_[212] + v_[330] * v_[5] +
             (v_[95] * v_[287] + v_[271] * v_[111] + v_[135] * v_[209] + v_[308] * v_[3] + v_[167] * v_[212] +
                 v_[340] * v_[5]) *
                 -0.112 +
-            (w_in[7] * v_[262] + v_[342] * w_in[1]) * 0.112) *
+            (w_in[1] * v_[262] + v_[342] * x_in[7]) * 0.112) *
             v_[251];
     v_[309] = sin(x_in[3]);
     v_[161] = cos(x_in[3]);
@@ -868,21 +868,21 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[247];
     v_[216] = v_[216] + v_[324];
     hes[19] = v_[340] * v_[20] + v_[342] * v_[38] + v_[121] * v_[10] + v_[330] * v_[11] + v_[267] * v_[207] +
-              v_[235] * v_[1] + v_[216] * w_in[1] + v_[216] * w_in[1] + v_[246] * v_[208] + v_[345] * v_[2] +
+              v_[235] * v_[1] + v_[216] * x_in[7] + v_[216] * x_in[7] + v_[246] * v_[208] + v_[345] * v_[2] +
               v_[96] * v_[212] + v_[272] * v_[5];
-    v_[216] = w_in[6] * v_[4];
-    v_[246] = w_in[7] * v_[38] + v_[216] * v_[18];
-    v_[267] = w_in[7] * v_[10] + v_[216] * v_[9];
+    v_[216] = w_in[0] * v_[4];
+    v_[246] = w_in[1] * v_[38] + v_[216] * v_[18];
+    v_[267] = w_in[1] * v_[10] + v_[216] * v_[9];
     v_[345] = v_[246] * -1 + v_[267] * -0.304;
-    v_[235] = w_in[7] * v_[20] + v_[216] * v_[19];
-    v_[272] = w_in[7] * v_[11] + v_[216] * v_[10];
+    v_[235] = w_in[1] * v_[20] + v_[216] * v_[19];
+    v_[272] = w_in[1] * v_[11] + v_[216] * v_[10];
     v_[330] = v_[235] * v_[28] + v_[272] * v_[43];
-    v_[121] = w_in[9] + v_[272] * -1;
-    v_[342] = w_in[8] + w_in[6] * v_[0];
+    v_[121] = w_in[3] + v_[272] * -1;
+    v_[342] = w_in[2] + w_in[0] * v_[0];
     v_[340] = v_[342] * v_[31] + v_[267] * v_[28];
     v_[212] = v_[345] * v_[53] + v_[330] * v_[52] + v_[121] * v_[67] + v_[340] * v_[68];
     v_[208] = v_[342] * v_[28] + v_[267] * v_[30];
-    v_[207] = w_in[10] + v_[208];
+    v_[207] = w_in[4] + v_[208];
     v_[96] = v_[121] * v_[54] + v_[340] * v_[53];
     v_[1] = v_[212] + v_[207] * 0.02075 + v_[96] * -0.184;
     v_[324] = v_[207] * v_[86] + v_[96] * v_[77];
@@ -892,7 +892,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[347] = v_[345] * v_[62] + v_[330] * v_[53] + v_[121] * v_[60] + v_[340] * v_[61];
     v_[350] = v_[121] * v_[53] + v_[340] * v_[52];
     v_[294] = v_[326] * v_[79] + v_[347] * v_[77] + v_[350] * v_[78];
-    v_[323] = w_in[11] + v_[350];
+    v_[323] = w_in[5] + v_[350];
     v_[322] = v_[294] * 1.547475 + v_[323] * 0.038686875;
     v_[304] = v_[326] * v_[77] + v_[347] * v_[76] + v_[350] * v_[81];
     v_[302] = v_[304] * 1.547475;
@@ -927,17 +927,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[130] = v_[347] * 2.1032 + v_[350] * 0.057838;
     v_[182] = 0 - v_[130];
     v_[120] = v_[326] * 2.1032;
-    v_[150] = v_[173] + v_[182] * v_[71] + v_[120] * v_[55] + v_[299] * w_in[4];
+    v_[150] = v_[173] + v_[182] * v_[71] + v_[120] * v_[55] + v_[299] * x_in[10];
     v_[149] = 0 - v_[245];
     v_[131] = v_[1] * 1.547475 + (0 - v_[324]) * 0.038686875;
-    v_[129] = v_[149] * v_[91] + v_[131] * v_[85] + v_[302] * w_in[5];
+    v_[129] = v_[149] * v_[91] + v_[131] * v_[85] + v_[302] * x_in[11];
     v_[232] = 0 - v_[238] + v_[232];
     v_[238] = 0 - v_[131];
-    v_[125] = v_[232] * v_[91] + v_[238] * v_[87] - v_[322] * w_in[5];
+    v_[125] = v_[232] * v_[91] + v_[238] * v_[87] - v_[322] * x_in[11];
     v_[124] = v_[212] * -2.1032 + v_[96] * 0.057838;
     v_[119] = 0 - v_[124];
     v_[118] = 0 - v_[120];
-    v_[126] = v_[129] * v_[77] + v_[125] * v_[76] + v_[119] * v_[71] + v_[118] * v_[58] - v_[140] * w_in[4];
+    v_[126] = v_[129] * v_[77] + v_[125] * v_[76] + v_[119] * v_[71] + v_[118] * v_[58] - v_[140] * x_in[10];
     v_[343] = v_[326] * 1.7423722 + (0 - v_[121]) * -0.008711861 + v_[340] * 1.52322944854339e-09;
     v_[349] = v_[330] * -1.7423722;
     v_[291] = v_[121] * 0.160298259823722;
@@ -958,20 +958,20 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[268] = v_[255] + v_[282] - v_[257];
     v_[252] = v_[149] * v_[94] + v_[232] * v_[82] + v_[297] * v_[87] + v_[1] * v_[85] + v_[241] * v_[91] +
               v_[241] * v_[91] + v_[129] * v_[78] + v_[125] * v_[81] + v_[130] * v_[64] + v_[118] * v_[80] +
-              v_[212] * v_[71] + v_[277] * v_[55] + v_[268] * v_[58] + v_[268] * v_[58] + v_[254] * w_in[4];
+              v_[212] * v_[71] + v_[277] * v_[55] + v_[268] * v_[58] + v_[268] * v_[58] + v_[254] * x_in[10];
     v_[279] = v_[294] * 0.038686875 + v_[323] * -0.00751 + (0 - v_[324]) * -0.000829 + v_[279] * 1.5e-05;
     v_[323] = (0 - v_[323]) * 0.000198;
     v_[243] = v_[304] + v_[323] - v_[243];
     v_[304] = v_[245] * v_[89] + v_[238] * v_[82] + v_[297] * v_[91] + v_[279] * v_[85] + v_[243] * v_[87] +
-              v_[243] * v_[87] + v_[259] * w_in[5];
+              v_[243] * v_[87] + v_[259] * x_in[11];
     v_[323] = 0 - v_[323] - v_[290];
     v_[290] = v_[228] * v_[89] + v_[131] * v_[94] + v_[1] * v_[91] + v_[279] * v_[87] + v_[323] * v_[85] +
-              v_[323] * v_[85] - v_[269] * w_in[5];
+              v_[323] * v_[85] - v_[269] * x_in[11];
     v_[294] = v_[347] * 0.057838 + v_[207] * -0.001243 + (0 - v_[350]) * -0.008386 + (0 - v_[96]) * -0.001387;
     v_[324] = v_[350] * -0.012652;
     v_[282] = v_[255] - v_[282] - v_[324];
     v_[255] = v_[173] * -0.184 + v_[304] * v_[77] + v_[290] * v_[76] + v_[124] * v_[64] + v_[120] * v_[69] +
-              v_[294] * v_[71] + v_[277] * v_[58] + v_[282] * v_[55] + v_[282] * v_[55] - v_[273] * w_in[4];
+              v_[294] * v_[71] + v_[277] * v_[58] + v_[282] * v_[55] + v_[282] * v_[55] - v_[273] * x_in[10];
     v_[240] = v_[345] * 1.7423722 + (0 - v_[340]) * 0.160298259823722 + v_[208] * -0.008711861;
     v_[239] = 0 - v_[240];
     v_[237] = v_[345] * -0.008711861 + v_[330] * 1.52322944854339e-09 + (0 - v_[121]) * -0.00021200017 +
@@ -985,7 +985,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[170] = v_[231] + v_[230] + v_[227] - v_[128];
     v_[183] = v_[150] * v_[68] + v_[126] * v_[61] + v_[252] * v_[52] + v_[255] * v_[53] + v_[343] * v_[46] +
               v_[239] * v_[64] + v_[237] * v_[47] + v_[233] * v_[32] + v_[170] * v_[35] + v_[170] * v_[35] +
-              v_[300] * w_in[3];
+              v_[300] * x_in[9];
     v_[324] = v_[324] + v_[257];
     v_[257] = v_[345] * 0.160298259823722 + v_[326] * 1.52322944854339e-09 + v_[121] * -0.0022920002 +
               (0 - v_[340]) * 0.01404749 + (0 - v_[208]) * 0.0036857284;
@@ -995,7 +995,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[173] = v_[173] * 0.02075 + v_[304] * v_[86] + v_[290] * v_[77] + v_[182] * v_[69] + v_[119] * v_[80] +
               v_[212] * v_[58] + v_[294] * v_[55] + v_[324] * v_[71] + v_[324] * v_[71] + v_[319] * v_[46] +
               v_[240] * v_[44] + v_[257] * v_[47] + v_[233] * v_[35] + v_[227] * v_[32] + v_[227] * v_[32] -
-              v_[250] * w_in[3];
+              v_[250] * x_in[9];
     v_[231] = (0 - v_[267]) * -0.0055615274403 + v_[272] * 0.01438086;
     v_[146] = 0 - v_[231];
     v_[132] = v_[235] * 0.647967112 + (0 - v_[342]) * -0.011715295 + v_[267] * 5.399998e-05 + v_[272] * -0.199538951;
@@ -1009,17 +1009,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   -1 +
               v_[235] * -0.647967112 + v_[342] * -0.011715295 + v_[267] * 5.399998e-05 + v_[272] * 0.20236395;
     v_[48] = v_[305] * -0.304 + v_[183] * v_[28] + v_[173] * v_[30] + v_[146] * v_[39] + v_[132] * v_[23] +
-             v_[123] * v_[12] + v_[50] * v_[15] + v_[50] * v_[15] + v_[208] * w_in[2];
+             v_[123] * v_[12] + v_[50] * v_[15] + v_[50] * v_[15] + v_[208] * x_in[8];
     v_[101] = 0 - v_[343];
-    v_[145] = v_[150] * v_[52] + v_[126] * v_[53] + v_[101] * v_[47] + v_[240] * v_[32] + v_[293] * w_in[3];
+    v_[145] = v_[150] * v_[52] + v_[126] * v_[53] + v_[101] * v_[47] + v_[240] * v_[32] + v_[293] * x_in[9];
     v_[327] = 0 - v_[349] + v_[291] - v_[327];
     v_[291] = v_[129] * v_[79] + v_[125] * v_[77] + v_[130] * v_[58] + v_[124] * v_[55] + v_[327] * v_[47] +
-              v_[239] * v_[35] - v_[298] * w_in[3];
+              v_[239] * v_[35] - v_[298] * x_in[9];
     v_[349] = 0 - (v_[246] * 2.327 + (0 - v_[342]) * 0.01438086 + v_[267] * 0.647967112);
     v_[278] = v_[278] * -1 + v_[246] * 2.327 + v_[342] * -0.01438086 + v_[267] * 0.647967112;
-    v_[296] = v_[145] * v_[28] + v_[291] * v_[30] + v_[349] * v_[23] + v_[231] * v_[12] + v_[278] * w_in[2];
+    v_[296] = v_[145] * v_[28] + v_[291] * v_[30] + v_[349] * v_[23] + v_[231] * v_[12] + v_[278] * x_in[8];
     v_[337] = v_[342] * -0.0055615274403 - (v_[235] * -2.327 + v_[272] * 0.647967112);
-    v_[305] = v_[305] * -1 + v_[337] * v_[23] + v_[146] * v_[15] - v_[292] * w_in[2];
+    v_[305] = v_[305] * -1 + v_[337] * v_[23] + v_[146] * v_[15] - v_[292] * x_in[8];
     v_[154] = v_[116] + v_[230] + v_[154] + v_[128];
     v_[246] =
         v_[246] * 0.647967112 + v_[342] * -0.0037997814 + (0 - v_[267]) * -0.192033951 + (0 - v_[272]) * 5.399998e-05;
@@ -1029,35 +1029,35 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[327] * v_[64] + v_[237] * v_[35] + v_[257] * v_[32] + v_[154] * v_[47] + v_[154] * v_[47]) *
                   -1 +
               v_[231] * v_[21] + v_[246] * v_[23] + v_[123] * v_[15] + v_[115] * v_[12] + v_[115] * v_[12] -
-              v_[249] * w_in[2];
+              v_[249] * x_in[8];
     v_[128] = 0 - v_[203];
     v_[230] = -v_[128];
-    v_[331] = v_[251] * v_[5] + v_[230] * w_in[1];
+    v_[331] = v_[251] * v_[5] + v_[230] * x_in[7];
     v_[307] = -v_[331];
-    v_[306] = v_[128] * v_[3] + v_[307] * w_in[2];
-    v_[289] = v_[128] * v_[5] + v_[251] * w_in[1];
-    v_[242] = v_[251] * v_[3] + v_[289] * w_in[2];
+    v_[306] = v_[128] * v_[3] + v_[307] * x_in[8];
+    v_[289] = v_[128] * v_[5] + v_[251] * x_in[7];
+    v_[242] = v_[251] * v_[3] + v_[289] * x_in[8];
     v_[244] = 0.112 * v_[128];
     v_[275] = -0.112 * v_[251];
     v_[283] = 0.112 * v_[128];
-    v_[288] = v_[275] * v_[5] + v_[283] * w_in[1];
-    v_[284] = v_[251] * v_[17] + v_[244] * v_[3] + v_[288] * w_in[2];
+    v_[288] = v_[275] * v_[5] + v_[283] * x_in[7];
+    v_[284] = v_[251] * v_[17] + v_[244] * v_[3] + v_[288] * x_in[8];
     v_[276] = -v_[23] * v_[288];
     v_[236] = v_[289] * v_[23];
     v_[221] = v_[331] * v_[12] + v_[12] * v_[331];
     v_[219] = -1 * v_[242];
     v_[218] = v_[30] * v_[289];
     v_[217] = -v_[218];
-    v_[215] = v_[28] * v_[306] + v_[217] * w_in[3];
+    v_[215] = v_[28] * v_[306] + v_[217] * x_in[9];
     v_[214] = v_[28] * v_[289];
-    v_[213] = v_[30] * v_[306] + v_[214] * w_in[3];
+    v_[213] = v_[30] * v_[306] + v_[214] * x_in[9];
     v_[142] = -0.304 * v_[306] + -1 * v_[284];
     v_[178] = 0.112 * v_[251];
-    v_[192] = v_[244] * v_[5] + v_[178] * w_in[1];
+    v_[192] = v_[244] * v_[5] + v_[178] * x_in[7];
     v_[122] = -v_[192];
-    v_[164] = v_[128] * v_[17] + v_[275] * v_[3] + v_[122] * w_in[2];
+    v_[164] = v_[128] * v_[17] + v_[275] * v_[3] + v_[122] * x_in[8];
     v_[158] = v_[43] * v_[331] + v_[28] * v_[288];
-    v_[134] = v_[30] * v_[164] + v_[42] * v_[242] + v_[158] * w_in[3];
+    v_[134] = v_[30] * v_[164] + v_[42] * v_[242] + v_[158] * x_in[9];
     v_[133] = -0.304 * v_[289] + -1 * v_[192];
     v_[114] = -1 * v_[331];
     v_[49] = v_[214] * v_[46] + v_[35] * v_[133] - (v_[114] * v_[44] + v_[47] * v_[158]);
@@ -1066,14 +1066,14 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[310] = v_[218] * v_[32] + v_[32] * v_[218];
     v_[308] = v_[53] * v_[214] + v_[54] * v_[114];
     v_[271] = -v_[308];
-    v_[262] = v_[53] * v_[219] + v_[52] * v_[215] + v_[271] * w_in[4];
+    v_[262] = v_[53] * v_[219] + v_[52] * v_[215] + v_[271] * x_in[10];
     v_[287] = v_[52] * v_[214] + v_[53] * v_[114];
-    v_[281] = v_[54] * v_[219] + v_[53] * v_[215] + v_[287] * w_in[4];
+    v_[281] = v_[54] * v_[219] + v_[53] * v_[215] + v_[287] * x_in[10];
     v_[285] = v_[42] * v_[331] + v_[30] * v_[288];
     v_[220] = -v_[285];
-    v_[209] = v_[28] * v_[164] + v_[43] * v_[242] + v_[220] * w_in[3];
+    v_[209] = v_[28] * v_[164] + v_[43] * v_[242] + v_[220] * x_in[9];
     v_[201] = v_[67] * v_[114] + v_[68] * v_[214] + v_[53] * v_[133] + v_[52] * v_[158];
-    v_[136] = v_[60] * v_[219] + v_[61] * v_[215] + v_[62] * v_[142] + v_[53] * v_[209] + v_[201] * w_in[4];
+    v_[136] = v_[60] * v_[219] + v_[61] * v_[215] + v_[62] * v_[142] + v_[53] * v_[209] + v_[201] * x_in[10];
     v_[160] = v_[287] * v_[64] + v_[58] * v_[285] - (v_[218] * v_[69] + v_[71] * v_[201]);
     v_[117] = v_[287] * v_[71] + v_[58] * v_[218];
     v_[169] = v_[218] * v_[71] + v_[71] * v_[218];
@@ -1081,7 +1081,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[137] = v_[60] * v_[114] + v_[61] * v_[214] + v_[62] * v_[133] + v_[53] * v_[158];
     v_[135] = v_[77] * v_[285] + v_[76] * v_[137] + v_[81] * v_[287];
     v_[95] = -v_[135];
-    v_[339] = v_[79] * v_[134] + v_[77] * v_[136] + v_[78] * v_[262] + v_[95] * w_in[5];
+    v_[339] = v_[79] * v_[134] + v_[77] * v_[136] + v_[78] * v_[262] + v_[95] * x_in[11];
     v_[211] = v_[76] * v_[308] + v_[77] * v_[218];
     v_[206] = v_[77] * v_[308] + v_[86] * v_[218];
     v_[205] = v_[211] * v_[87] + v_[85] * v_[206];
@@ -1093,11 +1093,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[280] = v_[287] * v_[91] + v_[91] * v_[287];
     v_[226] = v_[206] * v_[87] + v_[87] * v_[206];
     v_[224] = 1.547475 * (v_[206] * v_[89] + v_[87] * v_[265] - (v_[287] * v_[94] + v_[91] * v_[256])) +
-              1.547475 * (v_[77] * v_[134] + v_[76] * v_[136] + v_[81] * v_[262] + v_[256] * w_in[5]) -
+              1.547475 * (v_[77] * v_[134] + v_[76] * v_[136] + v_[81] * v_[262] + v_[256] * x_in[11]) -
               0.038686875 * (v_[280] + v_[226]);
     v_[223] = -v_[211];
-    v_[222] = v_[86] * v_[213] + v_[77] * v_[281] + v_[223] * w_in[5];
-    v_[210] = v_[77] * v_[213] + v_[76] * v_[281] + v_[206] * w_in[5];
+    v_[222] = v_[86] * v_[213] + v_[77] * v_[281] + v_[223] * x_in[11];
+    v_[210] = v_[77] * v_[213] + v_[76] * v_[281] + v_[206] * x_in[11];
     v_[113] = v_[211] * v_[91] + v_[85] * v_[287];
     v_[88] = v_[206] * v_[91] + v_[87] * v_[287];
     v_[26] = v_[211] * v_[85] + v_[85] * v_[211];
@@ -1109,7 +1109,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               -0.00751 * v_[205] + 0.038686875 * (v_[258] - v_[225]) + -0.000829 * v_[113] - 1.5e-05 * v_[88] -
               0.000198 * (v_[226] - v_[26]) - -0.008386 * v_[75] - -0.001243 * v_[110];
     v_[225] = -v_[137];
-    v_[339] = v_[67] * v_[219] + v_[68] * v_[215] + v_[53] * v_[142] + v_[52] * v_[209] + v_[225] * w_in[4];
+    v_[339] = v_[67] * v_[219] + v_[68] * v_[215] + v_[53] * v_[142] + v_[52] * v_[209] + v_[225] * x_in[10];
     v_[73] = v_[308] * v_[64] + v_[55] * v_[285] - (v_[218] * v_[80] + v_[71] * v_[137]);
     v_[104] = 0.02075 * v_[213] + -0.184 * v_[281] + v_[339];
     v_[63] = v_[211] * v_[94] + v_[85] * v_[256] - (v_[206] * v_[82] + v_[87] * v_[135]);
@@ -1151,11 +1151,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[27] = 0.20986895 * v_[306] + 5.399998e-05 * v_[242] + 0.647967112 * v_[284] + 0.647967112 * v_[276] +
              5.399998e-05 * v_[236] + -0.011715295 * (0 - v_[221]) + v_[28] * v_[210] + v_[30] * v_[63] +
              -0.304 * v_[339] - -0.0055615274403 * v_[110] - -0.192033951 * v_[75] - -0.0037997814 * v_[117];
-    v_[25] = w_in[7] * v_[178] + v_[216] * v_[244];
-    v_[24] = w_in[7] * v_[251] + v_[216] * v_[128];
+    v_[25] = w_in[1] * v_[178] + v_[216] * v_[244];
+    v_[24] = w_in[1] * v_[251] + v_[216] * v_[128];
     v_[22] = v_[25] * -1 + v_[24] * -0.304;
-    v_[8] = w_in[7] * v_[283] + v_[216] * v_[275];
-    v_[188] = w_in[7] * v_[230] + v_[216] * v_[251];
+    v_[8] = w_in[1] * v_[283] + v_[216] * v_[275];
+    v_[188] = w_in[1] * v_[230] + v_[216] * v_[251];
     v_[202] = v_[8] * v_[28] + v_[188] * v_[43];
     v_[193] = v_[188] * -1;
     v_[195] = v_[24] * v_[28];
@@ -1203,18 +1203,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[348] = v_[190] * 2.1032 + v_[199] * 0.057838;
     v_[313] = 0 - v_[348];
     v_[325] = v_[334] * 2.1032;
-    v_[317] = v_[157] + v_[182] * v_[218] + v_[313] * v_[71] + v_[120] * v_[308] + v_[325] * v_[55] + v_[166] * w_in[4];
+    v_[317] = v_[157] + v_[182] * v_[218] + v_[313] * v_[71] + v_[120] * v_[308] + v_[325] * v_[55] + v_[166] * x_in[10];
     v_[315] = 0 - v_[341];
     v_[187] = v_[338] * 1.547475 + (0 - v_[234]) * 0.038686875;
-    v_[186] = v_[149] * v_[287] + v_[315] * v_[91] + v_[131] * v_[211] + v_[187] * v_[85] + v_[196] * w_in[5];
+    v_[186] = v_[149] * v_[287] + v_[315] * v_[91] + v_[131] * v_[211] + v_[187] * v_[85] + v_[196] * x_in[11];
     v_[200] = 0 - v_[333] + v_[200];
     v_[333] = 0 - v_[187];
-    v_[176] = v_[232] * v_[287] + v_[200] * v_[91] + v_[238] * v_[206] + v_[333] * v_[87] - v_[204] * w_in[5];
+    v_[176] = v_[232] * v_[287] + v_[200] * v_[91] + v_[238] * v_[206] + v_[333] * v_[87] - v_[204] * x_in[11];
     v_[152] = v_[159] * -2.1032 + v_[332] * 0.057838;
     v_[144] = 0 - v_[152];
     v_[147] = 0 - v_[325];
     v_[336] = v_[186] * v_[77] + v_[176] * v_[76] + v_[119] * v_[218] + v_[144] * v_[71] + v_[118] * v_[287] +
-              v_[147] * v_[58] - v_[189] * w_in[4];
+              v_[147] * v_[58] - v_[189] * x_in[10];
     v_[328] = v_[334] * 1.7423722 + (0 - v_[193]) * -0.008711861 + v_[195] * 1.52322944854339e-09;
     v_[191] = v_[202] * -1.7423722;
     v_[163] = v_[193] * 0.160298259823722;
@@ -1241,24 +1241,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[241] = v_[95] + v_[200] - v_[315];
     v_[241] = v_[270] + v_[186] * v_[78] + v_[176] * v_[81] + v_[130] * v_[285] + v_[348] * v_[64] + v_[118] * v_[137] +
               v_[147] * v_[80] + v_[212] * v_[218] + v_[159] * v_[71] + v_[277] * v_[308] + v_[223] * v_[55] +
-              v_[268] * v_[287] + v_[268] * v_[287] + v_[241] * v_[58] + v_[241] * v_[58] + v_[253] * w_in[4];
+              v_[268] * v_[287] + v_[268] * v_[287] + v_[241] * v_[58] + v_[241] * v_[58] + v_[253] * x_in[10];
     v_[180] = v_[197] * 0.038686875 + v_[199] * -0.00751 + (0 - v_[234]) * -0.000829 + v_[180] * 1.5e-05;
     v_[197] = (0 - v_[199]) * 0.000198;
     v_[314] = v_[198] + v_[197] - v_[314];
     v_[314] = v_[245] * v_[265] + v_[341] * v_[89] + v_[238] * v_[135] + v_[333] * v_[82] + v_[297] * v_[287] +
               v_[175] * v_[91] + v_[279] * v_[211] + v_[180] * v_[85] + v_[243] * v_[206] + v_[243] * v_[206] +
-              v_[314] * v_[87] + v_[314] * v_[87] + v_[156] * w_in[5];
+              v_[314] * v_[87] + v_[314] * v_[87] + v_[156] * x_in[11];
     v_[197] = 0 - v_[197] - v_[321];
     v_[197] = v_[228] * v_[265] + v_[168] * v_[89] + v_[131] * v_[256] + v_[187] * v_[94] + v_[1] * v_[287] +
               v_[338] * v_[91] + v_[279] * v_[206] + v_[180] * v_[87] + v_[323] * v_[211] + v_[323] * v_[211] +
-              v_[197] * v_[85] + v_[197] * v_[85] - v_[162] * w_in[5];
+              v_[197] * v_[85] + v_[197] * v_[85] - v_[162] * x_in[11];
     v_[180] = v_[190] * 0.057838 + v_[165] * -0.001243 + (0 - v_[199]) * -0.008386 + (0 - v_[332]) * -0.001387;
     v_[338] = v_[199] * -0.012652;
     v_[200] = v_[95] - v_[200] - v_[338];
     v_[200] = v_[157] * -0.184 + v_[314] * v_[77] + v_[197] * v_[76] + v_[124] * v_[285] + v_[152] * v_[64] +
               v_[120] * v_[201] + v_[325] * v_[69] + v_[294] * v_[218] + v_[180] * v_[71] + v_[277] * v_[287] +
               v_[223] * v_[58] + v_[282] * v_[308] + v_[282] * v_[308] + v_[200] * v_[55] + v_[200] * v_[55] -
-              v_[127] * w_in[4];
+              v_[127] * x_in[10];
     hes[28] = 0 -
               (v_[330] * v_[73] + v_[202] * v_[106] + v_[340] * v_[258] + v_[195] * v_[92] + v_[140] * v_[209] +
                   v_[189] * v_[66] + v_[273] * v_[215] + v_[127] * v_[34] + v_[150] * v_[158] + v_[317] * v_[44] +
@@ -1300,7 +1300,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[345] = v_[317] * v_[68] + v_[336] * v_[61] + v_[241] * v_[52] + v_[200] * v_[53] + v_[343] * v_[133] +
               v_[328] * v_[46] + v_[239] * v_[285] + v_[255] * v_[64] + v_[237] * v_[114] + v_[252] * v_[47] +
               v_[233] * v_[218] + v_[126] * v_[32] + v_[170] * v_[214] + v_[170] * v_[214] + v_[345] * v_[35] +
-              v_[345] * v_[35] + v_[229] * w_in[3];
+              v_[345] * v_[35] + v_[229] * x_in[9];
     v_[338] = v_[338] + v_[315];
     v_[338] = v_[157] * 0.02075 + v_[314] * v_[86] + v_[197] * v_[77] + v_[182] * v_[201] + v_[313] * v_[69] +
               v_[119] * v_[137] + v_[144] * v_[80] + v_[212] * v_[287] + v_[159] * v_[58] + v_[294] * v_[308] +
@@ -1314,7 +1314,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[121] = v_[150] + v_[225] - v_[121] - v_[271];
     v_[121] = v_[338] + v_[319] * v_[133] + v_[301] * v_[46] + v_[240] * v_[158] + v_[142] * v_[44] +
               v_[257] * v_[114] + v_[22] * v_[47] + v_[233] * v_[214] + v_[126] * v_[35] + v_[227] * v_[218] +
-              v_[227] * v_[218] + v_[121] * v_[32] + v_[121] * v_[32] - v_[151] * w_in[3];
+              v_[227] * v_[218] + v_[121] * v_[32] + v_[121] * v_[32] - v_[151] * x_in[9];
     v_[338] = (0 - v_[24]) * -0.0055615274403 + v_[188] * 0.01438086;
     v_[126] = 0 - v_[338];
     v_[301] = v_[8] * 0.647967112 + v_[24] * 5.399998e-05 + v_[188] * -0.199538951;
@@ -1329,7 +1329,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[8] * -0.647967112 + v_[24] * 5.399998e-05 + v_[188] * 0.20236395;
     v_[319] = v_[295] * -0.304 + v_[345] * v_[28] + v_[121] * v_[30] + v_[146] * v_[192] + v_[126] * v_[39] +
               v_[301] * v_[23] + v_[123] * v_[331] + v_[133] * v_[12] + v_[50] * v_[289] + v_[50] * v_[289] +
-              v_[319] * v_[15] + v_[319] * v_[15] + v_[253] * w_in[2];
+              v_[319] * v_[15] + v_[319] * v_[15] + v_[253] * x_in[8];
     v_[50] = -v_[23] * v_[192];
     v_[127] = 0.160298259823722 * v_[219] + -1.52322944854339e-09 * v_[213] + 1.7423722 * v_[209] +
               -1.7423722 * (v_[226] - v_[280]) + 0.160298259823722 * v_[222] + 1.52322944854339e-09 * v_[51] +
@@ -1343,11 +1343,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               0.647967112 * v_[236] + v_[28] * v_[127] + v_[30] * v_[104] - 0.01438086 * v_[221];
     v_[328] = 0 - v_[328];
     v_[142] = v_[317] * v_[52] + v_[336] * v_[53] + v_[101] * v_[114] + v_[328] * v_[47] + v_[240] * v_[218] +
-              v_[142] * v_[32] + v_[335] * w_in[3];
+              v_[142] * v_[32] + v_[335] * x_in[9];
     v_[155] = 0 - v_[191] + v_[163] - v_[155];
     v_[255] = v_[186] * v_[79] + v_[176] * v_[77] + v_[130] * v_[287] + v_[348] * v_[58] + v_[124] * v_[308] +
               v_[152] * v_[55] + v_[327] * v_[114] + v_[155] * v_[47] + v_[239] * v_[214] + v_[255] * v_[35] -
-              v_[320] * w_in[3];
+              v_[320] * x_in[9];
     hes[27] = 0 -
               (v_[235] * v_[127] + v_[8] * v_[112] + v_[342] * v_[63] + v_[267] * v_[210] + v_[24] * v_[100] +
                   v_[298] * v_[164] + v_[320] * v_[41] + v_[335] * v_[7] + v_[250] * v_[306] + v_[151] * v_[14] +
@@ -1368,12 +1368,12 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[63] = 0 - (v_[25] * 2.327 + v_[24] * 0.647967112);
     v_[194] = v_[194] * -1 + v_[25] * 2.327 + v_[24] * 0.647967112;
     v_[210] = v_[142] * v_[28] + v_[255] * v_[30] + v_[63] * v_[23] + v_[231] * v_[331] + v_[338] * v_[12] +
-              v_[194] * w_in[2];
+              v_[194] * x_in[8];
     v_[291] = v_[289] * v_[15] + v_[15] * v_[289];
     v_[339] = 0.647967112 * v_[306] + 2.327 * v_[284] + 2.327 * v_[276] + 0.647967112 * v_[75] + 0.01438086 * v_[117] +
               -1 * v_[339] - -0.0055615274403 * v_[291];
     v_[276] = 0 - (v_[8] * -2.327 + v_[188] * 0.647967112);
-    v_[126] = v_[295] * -1 + v_[276] * v_[23] + v_[146] * v_[289] + v_[126] * v_[15] - v_[329] * w_in[2];
+    v_[126] = v_[295] * -1 + v_[276] * v_[23] + v_[146] * v_[289] + v_[126] * v_[15] - v_[329] * x_in[8];
     v_[291] =
         5.399998e-05 * v_[306] + 0.20236395 * v_[242] + -0.647967112 * v_[164] + 0.01438086 * v_[110] +
         0.647967112 * v_[50] + -0.199538951 * v_[236] + -0.011715295 * v_[117] + v_[43] * v_[127] + v_[42] * v_[104] +
@@ -1395,24 +1395,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[158] = v_[320] - v_[220];
     v_[158] = v_[142] * v_[43] + v_[255] * v_[42] + v_[271] * -1 + v_[231] * v_[288] + v_[338] * v_[21] +
               v_[335] * v_[23] + v_[123] * v_[289] + v_[133] * v_[15] + v_[115] * v_[331] + v_[115] * v_[331] +
-              v_[158] * v_[12] + v_[158] * v_[12] - v_[179] * w_in[2];
+              v_[158] * v_[12] + v_[158] * v_[12] - v_[179] * x_in[8];
     hes[26] =
         (0 - (v_[216] * v_[109] + v_[292] * v_[17] + v_[249] * v_[3] + v_[48] * v_[5] +
-                 (w_in[7] * v_[111] + v_[296] * w_in[1]) * 0.112 +
+                 (w_in[1] * v_[111] + v_[296] * x_in[7]) * 0.112 +
                  (v_[216] * v_[84] + v_[278] * v_[3] + v_[305] * v_[5]) * 0.112 -
-                 (w_in[7] * v_[105] + v_[116] * w_in[1]))) *
+                 (w_in[1] * v_[105] + v_[116] * x_in[7]))) *
             v_[9] -
         (v_[216] * v_[27] + v_[329] * v_[17] + v_[179] * v_[3] + v_[319] * v_[5] +
-            (w_in[7] * v_[221] + v_[210] * w_in[1]) * 0.112 +
-            (v_[216] * v_[339] + v_[194] * v_[3] + v_[126] * v_[5]) * 0.112 - (w_in[7] * v_[291] + v_[158] * w_in[1])) *
+            (w_in[1] * v_[221] + v_[210] * x_in[7]) * 0.112 +
+            (v_[216] * v_[339] + v_[194] * v_[3] + v_[126] * v_[5]) * 0.112 - (w_in[1] * v_[291] + v_[158] * x_in[7])) *
             v_[203] +
-        (w_in[7] * v_[27] + v_[216] * v_[291] + v_[194] * v_[17] + v_[253] * v_[3] + v_[319] * w_in[1] +
+        (w_in[1] * v_[27] + v_[216] * v_[291] + v_[194] * v_[17] + v_[253] * v_[3] + v_[319] * x_in[7] +
             v_[158] * v_[5] + (v_[216] * v_[221] + v_[329] * v_[3] + v_[210] * v_[5]) * -0.112 +
-            (w_in[7] * v_[339] + v_[126] * w_in[1]) * 0.112) *
+            (w_in[1] * v_[339] + v_[126] * x_in[7]) * 0.112) *
             v_[251] -
-        (w_in[7] * v_[109] + v_[216] * v_[105] + v_[278] * v_[17] + v_[208] * v_[3] + v_[48] * w_in[1] +
+        (w_in[1] * v_[109] + v_[216] * v_[105] + v_[278] * v_[17] + v_[208] * v_[3] + v_[48] * x_in[7] +
             v_[116] * v_[5] + (v_[216] * v_[111] + v_[292] * v_[3] + v_[296] * v_[5]) * -0.112 +
-            (w_in[7] * v_[84] + v_[305] * w_in[1]) * 0.112) *
+            (w_in[1] * v_[84] + v_[305] * x_in[7]) * 0.112) *
             v_[10];
     v_[291] = v_[350] * v_[286] + v_[199] * v_[93] + v_[322] * v_[262] + v_[204] * v_[57] + v_[129] * v_[287] +
               v_[186] * v_[58];
@@ -1446,23 +1446,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[194] = v_[292] * v_[275] + v_[329] * v_[19] + v_[278] * v_[244] + v_[194] * v_[18] + v_[249] * v_[128] +
               v_[179] * v_[9] + v_[208] * v_[251] + v_[253] * v_[10];
     hes[30] = (v_[296] * v_[275] + v_[210] * v_[19] + v_[305] * v_[244] + v_[126] * v_[18] + v_[48] * v_[128] +
-                  v_[319] * v_[9] + v_[116] * v_[251] + v_[158] * v_[10] + v_[229] * w_in[1]) *
+                  v_[319] * v_[9] + v_[116] * v_[251] + v_[158] * v_[10] + v_[229] * x_in[7]) *
                   v_[4] +
-              (v_[220] - v_[194] * w_in[1]) * v_[0];
+              (v_[220] - v_[194] * x_in[7]) * v_[0];
     hes[31] = v_[296] * v_[283] + v_[210] * v_[20] + v_[305] * v_[178] + v_[126] * v_[38] + v_[48] * v_[251] +
               v_[319] * v_[10] + v_[116] * v_[230] + v_[158] * v_[11] + v_[194] * v_[2] + v_[229] * v_[5];
-    v_[194] = w_in[6] * v_[4];
-    v_[229] = w_in[7] * v_[20] + v_[194] * v_[19];
-    v_[158] = w_in[8] + w_in[6] * v_[0];
-    v_[126] = w_in[7] * v_[10] + v_[194] * v_[9];
-    v_[210] = (w_in[7] * v_[38] + v_[194] * v_[18]) * -1 + v_[126] * -0.304;
-    v_[194] = w_in[7] * v_[11] + v_[194] * v_[10];
+    v_[194] = w_in[0] * v_[4];
+    v_[229] = w_in[1] * v_[20] + v_[194] * v_[19];
+    v_[158] = w_in[2] + w_in[0] * v_[0];
+    v_[126] = w_in[1] * v_[10] + v_[194] * v_[9];
+    v_[210] = (w_in[1] * v_[38] + v_[194] * v_[18]) * -1 + v_[126] * -0.304;
+    v_[194] = w_in[1] * v_[11] + v_[194] * v_[10];
     v_[319] = v_[229] * v_[28] + v_[194] * v_[43];
-    v_[178] = w_in[9] + v_[194] * -1;
+    v_[178] = w_in[3] + v_[194] * -1;
     v_[283] = v_[158] * v_[31] + v_[126] * v_[28];
     v_[230] = v_[210] * v_[53] + v_[319] * v_[52] + v_[178] * v_[67] + v_[283] * v_[68];
     v_[116] = v_[158] * v_[28] + v_[126] * v_[30];
-    v_[305] = w_in[10] + v_[116];
+    v_[305] = w_in[4] + v_[116];
     v_[296] = v_[178] * v_[54] + v_[283] * v_[53];
     v_[48] = v_[230] + v_[305] * 0.02075 + v_[296] * -0.184;
     v_[251] = v_[305] * v_[86] + v_[296] * v_[77];
@@ -1472,7 +1472,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[128] = v_[210] * v_[62] + v_[319] * v_[53] + v_[178] * v_[60] + v_[283] * v_[61];
     v_[253] = v_[178] * v_[53] + v_[283] * v_[52];
     v_[179] = v_[244] * v_[79] + v_[128] * v_[77] + v_[253] * v_[78];
-    v_[329] = w_in[11] + v_[253];
+    v_[329] = w_in[5] + v_[253];
     v_[278] = v_[179] * 1.547475 + v_[329] * 0.038686875;
     v_[208] = v_[244] * v_[77] + v_[128] * v_[76] + v_[253] * v_[81];
     v_[249] = v_[208] * 1.547475;
@@ -1501,21 +1501,21 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[337] = v_[128] * 2.1032 + v_[253] * 0.057838;
     v_[349] = 0 - v_[337];
     v_[132] = v_[244] * 2.1032;
-    v_[39] = v_[246] + v_[349] * v_[71] + v_[132] * v_[55] + v_[292] * w_in[4];
+    v_[39] = v_[246] + v_[349] * v_[71] + v_[132] * v_[55] + v_[292] * x_in[10];
     v_[320] = 0 - v_[121];
     v_[233] = v_[48] * 1.547475 + (0 - v_[251]) * 0.038686875;
-    v_[227] = v_[320] * v_[91] + v_[233] * v_[85] + v_[249] * w_in[5];
+    v_[227] = v_[320] * v_[91] + v_[233] * v_[85] + v_[249] * x_in[11];
     v_[192] = 0 - v_[345] + v_[192];
     v_[345] = 0 - v_[233];
-    v_[151] = v_[192] * v_[91] + v_[345] * v_[87] - v_[278] * w_in[5];
+    v_[151] = v_[192] * v_[91] + v_[345] * v_[87] - v_[278] * x_in[11];
     v_[188] = v_[230] * -2.1032 + v_[296] * 0.057838;
     v_[8] = 0 - v_[188];
     v_[24] = 0 - v_[132];
-    v_[25] = v_[227] * v_[77] + v_[151] * v_[76] + v_[8] * v_[71] + v_[24] * v_[58] - v_[275] * w_in[4];
+    v_[25] = v_[227] * v_[77] + v_[151] * v_[76] + v_[8] * v_[71] + v_[24] * v_[58] - v_[275] * x_in[10];
     v_[199] = v_[244] * 1.7423722 + (0 - v_[178]) * -0.008711861 + v_[283] * 1.52322944854339e-09;
     v_[291] = 0 - v_[199];
     v_[197] = v_[210] * 1.7423722 + (0 - v_[283]) * 0.160298259823722 + v_[116] * -0.008711861;
-    v_[314] = v_[39] * v_[52] + v_[25] * v_[53] + v_[291] * v_[47] + v_[197] * v_[32] + v_[288] * w_in[3];
+    v_[314] = v_[39] * v_[52] + v_[25] * v_[53] + v_[291] * v_[47] + v_[197] * v_[32] + v_[288] * x_in[9];
     v_[176] = (0 - v_[329]) * 1.5e-05 + v_[251] * 0.000198 + v_[289] * 0.00605;
     v_[48] = v_[48] * 0.038686875 + v_[329] * -0.000829 + (0 - v_[251]) * -0.00146 + (0 - v_[289]) * 0.000198;
     v_[208] = (0 - v_[208]) * 0.038686875;
@@ -1530,20 +1530,20 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[332] = v_[204] + v_[190] - v_[334];
     v_[165] = v_[320] * v_[94] + v_[192] * v_[82] + v_[176] * v_[87] + v_[48] * v_[85] + v_[162] * v_[91] +
               v_[162] * v_[91] + v_[227] * v_[78] + v_[151] * v_[81] + v_[337] * v_[64] + v_[24] * v_[80] +
-              v_[230] * v_[71] + v_[196] * v_[55] + v_[332] * v_[58] + v_[332] * v_[58] + v_[63] * w_in[4];
+              v_[230] * v_[71] + v_[196] * v_[55] + v_[332] * v_[58] + v_[332] * v_[58] + v_[63] * x_in[10];
     v_[289] = v_[179] * 0.038686875 + v_[329] * -0.00751 + (0 - v_[251]) * -0.000829 + v_[289] * 1.5e-05;
     v_[329] = (0 - v_[329]) * 0.000198;
     v_[156] = v_[208] + v_[329] - v_[156];
     v_[208] = v_[121] * v_[89] + v_[345] * v_[82] + v_[176] * v_[91] + v_[289] * v_[85] + v_[156] * v_[87] +
-              v_[156] * v_[87] + v_[276] * w_in[5];
+              v_[156] * v_[87] + v_[276] * x_in[11];
     v_[329] = 0 - v_[329] - v_[186];
     v_[186] = v_[331] * v_[89] + v_[233] * v_[94] + v_[48] * v_[91] + v_[289] * v_[87] + v_[329] * v_[85] +
-              v_[329] * v_[85] - v_[335] * w_in[5];
+              v_[329] * v_[85] - v_[335] * x_in[11];
     v_[179] = v_[128] * 0.057838 + v_[305] * -0.001243 + (0 - v_[253]) * -0.008386 + (0 - v_[296]) * -0.001387;
     v_[251] = v_[253] * -0.012652;
     v_[190] = v_[204] - v_[190] - v_[251];
     v_[204] = v_[246] * -0.184 + v_[208] * v_[77] + v_[186] * v_[76] + v_[188] * v_[64] + v_[132] * v_[69] +
-              v_[179] * v_[71] + v_[196] * v_[58] + v_[190] * v_[55] + v_[190] * v_[55] - v_[307] * w_in[4];
+              v_[179] * v_[71] + v_[196] * v_[58] + v_[190] * v_[55] + v_[190] * v_[55] - v_[307] * x_in[10];
     v_[88] = 0 - v_[197];
     v_[26] = v_[210] * -0.008711861 + v_[319] * 1.52322944854339e-09 + (0 - v_[178]) * -0.00021200017 +
              v_[283] * 0.0036857284 + v_[116] * 0.077424;
@@ -1554,7 +1554,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[136] = v_[286] + (0 - v_[244]) * 0.160298259823722 + v_[137] - (0 - v_[116]) * -0.0022920002;
     v_[285] = v_[39] * v_[68] + v_[25] * v_[61] + v_[165] * v_[52] + v_[204] * v_[53] + v_[199] * v_[46] +
               v_[88] * v_[64] + v_[26] * v_[47] + v_[224] * v_[32] + v_[136] * v_[35] + v_[136] * v_[35] +
-              v_[220] * w_in[3];
+              v_[220] * x_in[9];
     v_[251] = v_[251] + v_[334];
     v_[334] = v_[319] * -1.7423722;
     v_[281] = v_[178] * 0.160298259823722;
@@ -1566,36 +1566,36 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[246] = v_[246] * 0.02075 + v_[208] * v_[86] + v_[186] * v_[77] + v_[349] * v_[69] + v_[8] * v_[80] +
               v_[230] * v_[58] + v_[179] * v_[55] + v_[251] * v_[71] + v_[251] * v_[71] + v_[134] * v_[46] +
               v_[197] * v_[44] + v_[116] * v_[47] + v_[224] * v_[35] + v_[137] * v_[32] + v_[137] * v_[32] -
-              v_[301] * w_in[3];
+              v_[301] * x_in[9];
     v_[286] = 0 - v_[309];
     v_[213] = -v_[161];
     v_[218] = v_[286] * v_[15] + v_[213] * v_[23];
-    v_[290] = v_[286] * v_[6] + v_[161] * v_[14] + v_[218] * w_in[3];
+    v_[290] = v_[286] * v_[6] + v_[161] * v_[14] + v_[218] * x_in[9];
     v_[304] = -0.304 * v_[286];
     v_[125] = -0.304 * v_[161];
     v_[129] = v_[125] * v_[12] + v_[161] * v_[21];
     v_[259] = -v_[129];
-    v_[269] = (-v_[161]) * v_[7] + v_[286] * v_[41] + v_[304] * v_[16] + v_[259] * w_in[3];
+    v_[269] = (-v_[161]) * v_[7] + v_[286] * v_[41] + v_[304] * v_[16] + v_[259] * x_in[9];
     v_[302] = v_[161] * v_[15] + v_[286] * v_[23];
     v_[322] = v_[302] * v_[46];
     v_[347] = v_[47] * v_[129];
     v_[326] = v_[302] * v_[35] + v_[32] * v_[218];
     v_[96] = v_[218] * v_[47];
     v_[207] = -v_[302];
-    v_[287] = v_[213] * v_[6] + v_[286] * v_[14] + v_[207] * w_in[3];
+    v_[287] = v_[213] * v_[6] + v_[286] * v_[14] + v_[207] * x_in[9];
     v_[262] = v_[304] * v_[12] + v_[286] * v_[21];
     v_[350] = v_[61] * v_[218] + v_[53] * v_[262];
     v_[339] = -v_[350];
-    v_[221] = v_[68] * v_[287] + v_[52] * v_[269] + v_[339] * w_in[4];
+    v_[221] = v_[68] * v_[287] + v_[52] * v_[269] + v_[339] * x_in[10];
     v_[27] = v_[52] * v_[218];
-    v_[216] = v_[53] * v_[287] + v_[27] * w_in[4];
+    v_[216] = v_[53] * v_[287] + v_[27] * x_in[10];
     v_[203] = v_[27] * v_[71] + v_[58] * v_[302];
     v_[84] = v_[53] * v_[218];
     v_[111] = v_[84] * v_[64] + v_[55] * v_[129] - (v_[302] * v_[80] + v_[71] * v_[350]);
     v_[105] = 0.02075 * v_[290] + -0.184 * v_[216] + v_[221];
     v_[109] = v_[76] * v_[84] + v_[77] * v_[302];
     v_[17] = -v_[109];
-    v_[3] = v_[86] * v_[290] + v_[77] * v_[216] + v_[17] * w_in[5];
+    v_[3] = v_[86] * v_[290] + v_[77] * v_[216] + v_[17] * x_in[11];
     v_[271] = v_[109] * v_[91] + v_[85] * v_[27];
     v_[255] = v_[79] * v_[129] + v_[77] * v_[350] + v_[78] * v_[27];
     v_[142] = v_[77] * v_[84] + v_[86] * v_[302];
@@ -1604,14 +1604,14 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[115] = 1.547475 * v_[105] + -0.038686875 * v_[3] + 0.038686875 * v_[271] + 1.547475 * v_[338];
     v_[123] = 2.1032 * v_[221] + -0.057838 * v_[216] + 0.057838 * v_[203] + -2.1032 * v_[111] + v_[115];
     v_[231] = v_[68] * v_[218] + v_[52] * v_[262];
-    v_[214] = v_[61] * v_[287] + v_[53] * v_[269] + v_[231] * w_in[4];
+    v_[214] = v_[61] * v_[287] + v_[53] * v_[269] + v_[231] * x_in[10];
     v_[217] = -v_[84];
-    v_[300] = v_[52] * v_[287] + v_[217] * w_in[4];
+    v_[300] = v_[52] * v_[287] + v_[217] * x_in[10];
     v_[250] = v_[84] * v_[71] + v_[55] * v_[302];
     v_[293] = v_[27] * v_[64] + v_[58] * v_[129] - (v_[302] * v_[69] + v_[71] * v_[231]);
-    v_[298] = v_[286] * v_[7] + v_[161] * v_[41] + v_[125] * v_[16] + v_[262] * w_in[3];
+    v_[298] = v_[286] * v_[7] + v_[161] * v_[41] + v_[125] * v_[16] + v_[262] * x_in[9];
     v_[155] = -v_[133];
-    v_[328] = v_[79] * v_[298] + v_[77] * v_[214] + v_[78] * v_[300] + v_[155] * w_in[5];
+    v_[328] = v_[79] * v_[298] + v_[77] * v_[214] + v_[78] * v_[300] + v_[155] * x_in[11];
     v_[22] = v_[109] * v_[87] + v_[85] * v_[142];
     v_[252] = 0.02075 * v_[302] + -0.184 * v_[84] + v_[231];
     v_[200] = v_[109] * v_[89] + v_[85] * v_[252];
@@ -1620,7 +1620,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[317] = v_[27] * v_[91] + v_[91] * v_[27];
     v_[114] = v_[142] * v_[87] + v_[87] * v_[142];
     v_[154] = 1.547475 * (v_[142] * v_[89] + v_[87] * v_[252] - (v_[27] * v_[94] + v_[91] * v_[255])) +
-              1.547475 * (v_[77] * v_[298] + v_[76] * v_[214] + v_[81] * v_[300] + v_[255] * w_in[5]) -
+              1.547475 * (v_[77] * v_[298] + v_[76] * v_[214] + v_[81] * v_[300] + v_[255] * x_in[11]) -
               0.038686875 * (v_[317] + v_[114]);
     v_[327] = 2.1032 * v_[214] + 0.057838 * v_[300] + 0.057838 * v_[250] + 2.1032 * v_[293] + v_[77] * v_[336] +
               v_[76] * v_[154];
@@ -1630,7 +1630,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               -0.008711861 * v_[101];
     v_[237] = v_[302] * v_[44] + v_[32] * v_[262] - (v_[218] * v_[64] + v_[35] * v_[129]);
     v_[225] = v_[84] * v_[58] + v_[55] * v_[27];
-    v_[330] = v_[77] * v_[290] + v_[76] * v_[216] + v_[142] * w_in[5];
+    v_[330] = v_[77] * v_[290] + v_[76] * v_[216] + v_[142] * x_in[11];
     v_[340] = v_[142] * v_[91] + v_[87] * v_[27];
     v_[104] = v_[109] * v_[85] + v_[85] * v_[109];
     v_[338] = -0.000829 * v_[300] + 0.003227 * v_[3] + 0.000198 * v_[330] + -0.038686875 * v_[105] +
@@ -1700,23 +1700,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[51] = v_[114] * 2.1032 + v_[241] * 0.057838;
     v_[49] = 0 - v_[51];
     v_[164] = v_[330] * 2.1032;
-    v_[215] = v_[310] + v_[349] * v_[302] + v_[49] * v_[71] + v_[132] * v_[84] + v_[164] * v_[55] + v_[271] * w_in[4];
+    v_[215] = v_[310] + v_[349] * v_[302] + v_[49] * v_[71] + v_[132] * v_[84] + v_[164] * v_[55] + v_[271] * x_in[10];
     v_[219] = 0 - v_[73];
     v_[236] = v_[111] * 1.547475 + (0 - v_[203]) * 0.038686875;
-    v_[242] = v_[320] * v_[27] + v_[219] * v_[91] + v_[233] * v_[109] + v_[236] * v_[85] + v_[293] * w_in[5];
+    v_[242] = v_[320] * v_[27] + v_[219] * v_[91] + v_[233] * v_[109] + v_[236] * v_[85] + v_[293] * x_in[11];
     v_[258] = 0 - v_[169] + v_[258];
     v_[169] = 0 - v_[236];
-    v_[306] = v_[192] * v_[27] + v_[258] * v_[91] + v_[345] * v_[142] + v_[169] * v_[87] - v_[22] * w_in[5];
+    v_[306] = v_[192] * v_[27] + v_[258] * v_[91] + v_[345] * v_[142] + v_[169] * v_[87] - v_[22] * x_in[11];
     v_[295] = v_[225] * -2.1032 + v_[115] * 0.057838;
     v_[146] = 0 - v_[295];
     v_[284] = 0 - v_[164];
     v_[145] = v_[242] * v_[77] + v_[306] * v_[76] + v_[8] * v_[302] + v_[146] * v_[71] + v_[24] * v_[27] +
-              v_[284] * v_[58] - v_[340] * w_in[4];
+              v_[284] * v_[58] - v_[340] * x_in[10];
     v_[173] = v_[330] * 1.7423722 + v_[96] * 1.52322944854339e-09;
     v_[183] = 0 - v_[173];
     v_[342] = (0 - v_[96]) * 0.160298259823722 + v_[250] * -0.008711861;
     v_[272] = v_[215] * v_[52] + v_[145] * v_[53] + v_[183] * v_[47] + v_[197] * v_[302] + v_[342] * v_[32] +
-              v_[110] * w_in[3];
+              v_[110] * x_in[9];
     v_[235] = (0 - v_[241]) * 1.5e-05 + v_[203] * 0.000198 + v_[205] * 0.00605;
     v_[111] = v_[111] * 0.038686875 + v_[241] * -0.000829 + (0 - v_[203]) * -0.00146 + (0 - v_[205]) * 0.000198;
     v_[328] = (0 - v_[328]) * 0.038686875;
@@ -1736,24 +1736,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[162] = v_[17] + v_[258] - v_[219];
     v_[162] = v_[348] + v_[242] * v_[78] + v_[306] * v_[81] + v_[337] * v_[129] + v_[51] * v_[64] + v_[24] * v_[350] +
               v_[284] * v_[80] + v_[230] * v_[302] + v_[225] * v_[71] + v_[196] * v_[84] + v_[155] * v_[55] +
-              v_[332] * v_[27] + v_[332] * v_[27] + v_[162] * v_[58] + v_[162] * v_[58] + v_[113] * w_in[4];
+              v_[332] * v_[27] + v_[332] * v_[27] + v_[162] * v_[58] + v_[162] * v_[58] + v_[113] * x_in[10];
     v_[205] = v_[200] * 0.038686875 + v_[241] * -0.00751 + (0 - v_[203]) * -0.000829 + v_[205] * 1.5e-05;
     v_[200] = (0 - v_[241]) * 0.000198;
     v_[152] = v_[328] + v_[200] - v_[152];
     v_[152] = v_[121] * v_[252] + v_[73] * v_[89] + v_[345] * v_[133] + v_[169] * v_[82] + v_[176] * v_[27] +
               v_[235] * v_[91] + v_[289] * v_[109] + v_[205] * v_[85] + v_[156] * v_[142] + v_[156] * v_[142] +
-              v_[152] * v_[87] + v_[152] * v_[87] + v_[222] * w_in[5];
+              v_[152] * v_[87] + v_[152] * v_[87] + v_[222] * x_in[11];
     v_[200] = 0 - v_[200] - v_[267];
     v_[200] = v_[331] * v_[252] + v_[209] * v_[89] + v_[233] * v_[255] + v_[236] * v_[94] + v_[48] * v_[27] +
               v_[111] * v_[91] + v_[289] * v_[142] + v_[205] * v_[87] + v_[329] * v_[109] + v_[329] * v_[109] +
-              v_[200] * v_[85] + v_[200] * v_[85] - v_[226] * w_in[5];
+              v_[200] * v_[85] + v_[200] * v_[85] - v_[226] * x_in[11];
     v_[205] = v_[114] * 0.057838 + v_[250] * -0.001243 + (0 - v_[241]) * -0.008386 + (0 - v_[115]) * -0.001387;
     v_[111] = v_[241] * -0.012652;
     v_[258] = v_[17] - v_[258] - v_[111];
     v_[258] = v_[310] * -0.184 + v_[152] * v_[77] + v_[200] * v_[76] + v_[188] * v_[129] + v_[295] * v_[64] +
               v_[132] * v_[231] + v_[164] * v_[69] + v_[179] * v_[302] + v_[205] * v_[71] + v_[196] * v_[27] +
               v_[155] * v_[58] + v_[190] * v_[84] + v_[190] * v_[84] + v_[258] * v_[55] + v_[258] * v_[55] -
-              v_[280] * w_in[4];
+              v_[280] * x_in[10];
     hes[40] =
         0 -
         (v_[319] * v_[123] + v_[101] * v_[106] + v_[283] * v_[104] + v_[96] * v_[92] + v_[275] * v_[269] +
@@ -1783,7 +1783,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[204] = v_[123] - v_[269];
     v_[204] = v_[215] * v_[68] + v_[145] * v_[61] + v_[162] * v_[52] + v_[258] * v_[53] + v_[173] * v_[46] +
               v_[88] * v_[129] + v_[75] * v_[64] + v_[104] * v_[47] + v_[224] * v_[302] + v_[327] * v_[32] +
-              v_[136] * v_[218] + v_[136] * v_[218] + v_[204] * v_[35] + v_[204] * v_[35] + v_[221] * w_in[3];
+              v_[136] * v_[218] + v_[136] * v_[218] + v_[204] * v_[35] + v_[204] * v_[35] + v_[221] * x_in[9];
     v_[111] = v_[111] + v_[219];
     v_[111] = v_[310] * 0.02075 + v_[152] * v_[86] + v_[200] * v_[77] + v_[349] * v_[231] + v_[49] * v_[69] +
               v_[8] * v_[350] + v_[146] * v_[80] + v_[230] * v_[27] + v_[225] * v_[58] + v_[179] * v_[84] +
@@ -1799,17 +1799,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[205] = v_[292] - v_[275];
     v_[205] = v_[111] + v_[63] * v_[46] + v_[197] * v_[262] + v_[342] * v_[44] + v_[307] * v_[47] + v_[224] * v_[218] +
               v_[327] * v_[35] + v_[137] * v_[302] + v_[137] * v_[302] + v_[205] * v_[32] + v_[205] * v_[32] -
-              v_[160] * w_in[3];
+              v_[160] * x_in[9];
     v_[322] = 1.52322944854339e-09 * v_[287] + 1.7423722 * v_[298] + 1.7423722 * v_[322] +
               1.52322944854339e-09 * v_[50] + -0.008711861 * v_[326] +
               2.1032 * (v_[84] * v_[69] + v_[55] * v_[231] - (v_[27] * v_[80] + v_[58] * v_[350])) + 2.1032 * v_[298] +
               v_[79] * v_[336] + v_[77] * v_[154] - 0.160298259823722 * v_[117] - 0.057838 * (v_[105] + v_[127]);
     v_[339] = 0 - v_[217] - v_[339];
     v_[75] = v_[242] * v_[79] + v_[306] * v_[77] + v_[337] * v_[27] + v_[51] * v_[58] + v_[188] * v_[84] +
-             v_[295] * v_[55] + v_[339] * v_[47] + v_[88] * v_[218] + v_[75] * v_[35] - v_[3] * w_in[3];
+             v_[295] * v_[55] + v_[339] * v_[47] + v_[88] * v_[218] + v_[75] * v_[35] - v_[3] * x_in[9];
     v_[308] = 0 - v_[334] + v_[281] - v_[308];
     v_[88] = v_[227] * v_[79] + v_[151] * v_[77] + v_[337] * v_[58] + v_[188] * v_[55] + v_[308] * v_[47] +
-             v_[88] * v_[35] - v_[122] * w_in[3];
+             v_[88] * v_[35] - v_[122] * x_in[9];
     hes[39] =
         (0 - (v_[229] * v_[112] + v_[158] * v_[108] + v_[126] * v_[100] + v_[122] * v_[41] + v_[288] * v_[7] +
                  v_[301] * v_[14] + v_[220] * v_[6] + v_[314] * v_[21] + v_[285] * v_[15] + v_[246] * v_[23] +
@@ -1850,17 +1850,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[247];
     v_[241] = v_[340] * v_[53] + v_[271] * v_[62] + v_[96] * -0.160298259823722 + v_[250] * -0.008711861;
     v_[322] = v_[241] * -1;
-    v_[200] = v_[314] * v_[286] + v_[272] * v_[28] + v_[88] * v_[161] + v_[75] * v_[30] + v_[322] * w_in[2];
+    v_[200] = v_[314] * v_[286] + v_[272] * v_[28] + v_[88] * v_[161] + v_[75] * v_[30] + v_[322] * x_in[8];
     v_[63] = v_[215] * v_[53] + v_[145] * v_[62] + v_[199] * v_[218] + v_[173] * v_[35] + v_[134] * v_[302] +
              v_[63] * v_[32];
     v_[173] = v_[122] * v_[286] + v_[3] * v_[28] + v_[288] * v_[161] + v_[110] * v_[30];
-    v_[134] = v_[63] * -1 - v_[173] * w_in[2];
+    v_[134] = v_[63] * -1 - v_[173] * x_in[8];
     v_[113] = v_[122] * v_[304] + v_[3] * v_[43] + v_[288] * v_[125] + v_[110] * v_[42] +
               (v_[340] * v_[67] + v_[271] * v_[60] + v_[280] * v_[53] + v_[113] * v_[54] + v_[101] * 0.160298259823722 +
                   v_[330] * 0.008711861 + v_[96] * -0.0022920002 + v_[250] * -0.00021200017) *
                   -1;
     v_[63] = v_[63] * -0.304 + v_[285] * v_[286] + v_[204] * v_[28] + v_[246] * v_[161] + v_[205] * v_[30] +
-             v_[113] * w_in[2];
+             v_[113] * x_in[8];
     v_[275] = v_[292] + v_[123] + v_[275] + v_[269];
     v_[275] = v_[215] * v_[67] + v_[145] * v_[60] + v_[162] * v_[53] + v_[258] * v_[54] + v_[291] * v_[262] +
               v_[183] * v_[44] + v_[308] * v_[129] + v_[339] * v_[64] + v_[26] * v_[218] + v_[104] * v_[35] +
@@ -1869,26 +1869,26 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[160] * v_[33] + v_[220] * v_[218] + v_[221] * v_[35] + v_[275];
     v_[241] = v_[241] * -0.304 + v_[301] * v_[286] + v_[160] * v_[28] + v_[220] * v_[161] + v_[221] * v_[30];
     v_[275] =
-        v_[314] * v_[304] + v_[272] * v_[43] + v_[88] * v_[125] + v_[75] * v_[42] + v_[275] * -1 - v_[241] * w_in[2];
+        v_[314] * v_[304] + v_[272] * v_[43] + v_[88] * v_[125] + v_[75] * v_[42] + v_[275] * -1 - v_[241] * x_in[8];
     v_[221] = v_[301] * v_[213] + v_[160] * v_[31] + v_[220] * v_[286] + v_[221] * v_[28];
     v_[205] = v_[285] * v_[213] + v_[204] * v_[31] + v_[246] * v_[286] + v_[205] * v_[28];
     hes[44] = v_[173] * v_[40] + v_[322] * v_[21] + v_[241] * v_[13] + v_[113] * v_[15] + v_[205];
     v_[241] = v_[173] * v_[19] + v_[322] * v_[18] + v_[241] * v_[9] + v_[113] * v_[10];
-    hes[42] = (v_[200] * v_[19] + v_[134] * v_[18] + v_[63] * v_[9] + v_[275] * v_[10] + v_[221] * w_in[1]) * v_[4] +
-              (v_[205] - v_[241] * w_in[1]) * v_[0];
+    hes[42] = (v_[200] * v_[19] + v_[134] * v_[18] + v_[63] * v_[9] + v_[275] * v_[10] + v_[221] * x_in[7]) * v_[4] +
+              (v_[205] - v_[241] * x_in[7]) * v_[0];
     hes[43] =
         v_[200] * v_[20] + v_[134] * v_[38] + v_[63] * v_[10] + v_[275] * v_[11] + v_[241] * v_[2] + v_[221] * v_[5];
-    v_[241] = w_in[6] * v_[4];
-    v_[221] = w_in[7] * v_[20] + v_[241] * v_[19];
-    v_[275] = w_in[7] * v_[11] + v_[241] * v_[10];
+    v_[241] = w_in[0] * v_[4];
+    v_[221] = w_in[1] * v_[20] + v_[241] * v_[19];
+    v_[275] = w_in[1] * v_[11] + v_[241] * v_[10];
     v_[63] = v_[221] * v_[28] + v_[275] * v_[43];
-    v_[134] = w_in[8] + w_in[6] * v_[0];
-    v_[200] = w_in[7] * v_[10] + v_[241] * v_[9];
+    v_[134] = w_in[2] + w_in[0] * v_[0];
+    v_[200] = w_in[1] * v_[10] + v_[241] * v_[9];
     v_[205] = v_[134] * v_[31] + v_[200] * v_[28];
-    v_[241] = (w_in[7] * v_[38] + v_[241] * v_[18]) * -1 + v_[200] * -0.304;
-    v_[113] = w_in[9] + v_[275] * -1;
+    v_[241] = (w_in[1] * v_[38] + v_[241] * v_[18]) * -1 + v_[200] * -0.304;
+    v_[113] = w_in[3] + v_[275] * -1;
     v_[173] = v_[241] * v_[53] + v_[63] * v_[52] + v_[113] * v_[67] + v_[205] * v_[68];
-    v_[200] = w_in[10] + v_[134] * v_[28] + v_[200] * v_[30];
+    v_[200] = w_in[4] + v_[134] * v_[28] + v_[200] * v_[30];
     v_[134] = v_[113] * v_[54] + v_[205] * v_[53];
     v_[322] = v_[173] + v_[200] * 0.02075 + v_[134] * -0.184;
     v_[204] = v_[200] * v_[86] + v_[134] * v_[77];
@@ -1898,7 +1898,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[221] = v_[241] * v_[62] + v_[63] * v_[53] + v_[113] * v_[60] + v_[205] * v_[61];
     v_[246] = v_[113] * v_[53] + v_[205] * v_[52];
     v_[285] = v_[275] * v_[79] + v_[221] * v_[77] + v_[246] * v_[78];
-    v_[160] = w_in[11] + v_[246];
+    v_[160] = w_in[5] + v_[246];
     v_[220] = v_[200] * v_[77] + v_[134] * v_[76];
     v_[301] = v_[285] * 1.547475 + v_[160] * 0.038686875;
     v_[88] = v_[275] * v_[77] + v_[221] * v_[76] + v_[246] * v_[81];
@@ -1914,7 +1914,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[262] = 0 - v_[3];
     v_[207] = v_[275] * 2.1032;
     v_[259] = v_[301] * v_[77] + v_[75] * v_[76] + v_[221] * 2.1032 + v_[246] * 0.057838;
-    v_[218] = v_[110] + v_[262] * v_[71] + v_[207] * v_[55] + v_[259] * w_in[4];
+    v_[218] = v_[110] + v_[262] * v_[71] + v_[207] * v_[55] + v_[259] * x_in[10];
     v_[288] = 0 - v_[125];
     v_[314] = 0 - v_[304] + v_[314];
     v_[304] = (0 - v_[160]) * 1.5e-05 + v_[204] * 0.000198 + v_[220] * 0.00605;
@@ -1924,9 +1924,9 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[339] = (0 - v_[220]) * -0.000829;
     v_[307] = v_[88] + v_[308] + v_[339];
     v_[104] = v_[322] * 1.547475 + (0 - v_[204]) * 0.038686875;
-    v_[258] = v_[288] * v_[91] + v_[104] * v_[85] + v_[75] * w_in[5];
+    v_[258] = v_[288] * v_[91] + v_[104] * v_[85] + v_[75] * x_in[11];
     v_[162] = 0 - v_[104];
-    v_[183] = v_[314] * v_[91] + v_[162] * v_[87] - v_[301] * w_in[5];
+    v_[183] = v_[314] * v_[91] + v_[162] * v_[87] - v_[301] * x_in[11];
     v_[145] = 0 - v_[207];
     v_[215] = v_[173] * 0.057838 + (0 - v_[200]) * -0.012652 + v_[246] * -0.001387 + v_[134] * -0.018069;
     v_[302] = v_[200] * 0.009683 + (0 - v_[246]) * -0.001243 + v_[134] * -0.012652;
@@ -1939,22 +1939,22 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[246] * -0.001387 + v_[134] * 0.019432;
     v_[32] = v_[288] * v_[94] + v_[314] * v_[82] + v_[304] * v_[87] + v_[122] * v_[85] + v_[307] * v_[91] +
              v_[307] * v_[91] + v_[258] * v_[78] + v_[183] * v_[81] + v_[3] * v_[64] + v_[145] * v_[80] +
-             v_[215] * v_[71] + v_[302] * v_[55] + v_[26] * v_[58] + v_[26] * v_[58] + v_[213] * w_in[4];
+             v_[215] * v_[71] + v_[302] * v_[55] + v_[26] * v_[58] + v_[26] * v_[58] + v_[213] * x_in[10];
     v_[173] = v_[173] * -2.1032 + v_[134] * 0.057838;
     v_[292] = 0 - v_[173];
-    v_[269] = v_[258] * v_[77] + v_[183] * v_[76] + v_[292] * v_[71] + v_[145] * v_[58] - v_[286] * w_in[4];
+    v_[269] = v_[258] * v_[77] + v_[183] * v_[76] + v_[292] * v_[71] + v_[145] * v_[58] - v_[286] * x_in[10];
     v_[220] = v_[285] * 0.038686875 + v_[160] * -0.00751 + (0 - v_[204]) * -0.000829 + v_[220] * 1.5e-05;
     v_[160] = (0 - v_[160]) * 0.000198;
     v_[339] = v_[88] + v_[160] - v_[339];
     v_[88] = v_[125] * v_[89] + v_[162] * v_[82] + v_[304] * v_[91] + v_[220] * v_[85] + v_[339] * v_[87] +
-             v_[339] * v_[87] + v_[291] * w_in[5];
+             v_[339] * v_[87] + v_[291] * x_in[11];
     v_[160] = 0 - v_[160] - v_[308];
     v_[308] = v_[161] * v_[89] + v_[104] * v_[94] + v_[122] * v_[91] + v_[220] * v_[87] + v_[160] * v_[85] +
-              v_[160] * v_[85] - v_[322] * w_in[5];
+              v_[160] * v_[85] - v_[322] * x_in[11];
     v_[285] = v_[221] * 0.057838 + v_[200] * -0.001243 + (0 - v_[246]) * -0.008386 + (0 - v_[134]) * -0.001387;
     v_[116] = v_[129] - v_[116] - v_[246] * -0.012652;
     v_[110] = v_[110] * -0.184 + v_[88] * v_[77] + v_[308] * v_[76] + v_[173] * v_[64] + v_[207] * v_[69] +
-              v_[285] * v_[71] + v_[302] * v_[58] + v_[116] * v_[55] + v_[116] * v_[55] - v_[272] * w_in[4];
+              v_[285] * v_[71] + v_[302] * v_[58] + v_[116] * v_[55] + v_[116] * v_[55] - v_[272] * x_in[10];
     v_[129] = 0 - v_[177];
     v_[204] = 0.112 * v_[129];
     v_[123] = -0.112 * v_[318];
@@ -1963,17 +1963,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[330] = -v_[129];
     v_[340] = v_[280] * v_[47] + v_[271] * v_[35] + v_[330] * v_[46] + v_[318] * v_[44];
     v_[250] = -v_[340];
-    v_[96] = v_[204] * v_[29] + v_[123] * v_[34] + v_[318] * v_[37] + v_[129] * v_[66] + v_[250] * w_in[4];
+    v_[96] = v_[204] * v_[29] + v_[123] * v_[34] + v_[318] * v_[37] + v_[129] * v_[66] + v_[250] * x_in[10];
     v_[101] = -v_[129];
     v_[199] = v_[129] * v_[35] + v_[318] * v_[47];
-    v_[152] = v_[101] * v_[29] + v_[318] * v_[34] + v_[199] * w_in[4];
+    v_[152] = v_[101] * v_[29] + v_[318] * v_[34] + v_[199] * x_in[10];
     v_[306] = v_[199] * v_[71];
     v_[242] = v_[318] * v_[35] + v_[101] * v_[47];
     v_[222] = v_[242] * v_[64] - v_[71] * v_[340];
     v_[226] = -0.184 * v_[152] + v_[96];
     v_[293] = v_[76] * v_[242];
     v_[22] = -v_[293];
-    v_[114] = v_[77] * v_[152] + v_[22] * w_in[5];
+    v_[114] = v_[77] * v_[152] + v_[22] * x_in[11];
     v_[115] = v_[293] * v_[91] + v_[85] * v_[199];
     v_[317] = v_[77] * v_[340] + v_[78] * v_[199];
     v_[338] = v_[77] * v_[242];
@@ -1982,12 +1982,12 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[298] = 1.547475 * v_[226] + -0.038686875 * v_[114] + 0.038686875 * v_[115] + 1.547475 * v_[336];
     v_[214] = 2.1032 * v_[96] + -0.057838 * v_[152] + 0.057838 * v_[306] + -2.1032 * v_[222] + v_[298];
     v_[84] = -v_[242];
-    v_[216] = v_[318] * v_[29] + v_[129] * v_[34] + v_[84] * w_in[4];
+    v_[216] = v_[318] * v_[29] + v_[129] * v_[34] + v_[84] * x_in[10];
     v_[350] = v_[204] * v_[47] + v_[123] * v_[35] + v_[318] * v_[46] + v_[129] * v_[44];
-    v_[290] = v_[280] * v_[29] + v_[271] * v_[34] + v_[330] * v_[37] + v_[318] * v_[66] + v_[350] * w_in[4];
+    v_[290] = v_[280] * v_[29] + v_[271] * v_[34] + v_[330] * v_[37] + v_[318] * v_[66] + v_[350] * x_in[10];
     v_[186] = v_[199] * v_[64] - v_[71] * v_[350];
     v_[208] = -v_[154];
-    v_[151] = v_[77] * v_[290] + v_[78] * v_[216] + v_[208] * w_in[5];
+    v_[151] = v_[77] * v_[290] + v_[78] * v_[216] + v_[208] * x_in[11];
     v_[227] = v_[293] * v_[87] + v_[85] * v_[338];
     v_[276] = -0.184 * v_[242] + v_[350];
     v_[335] = v_[293] * v_[89] + v_[85] * v_[276];
@@ -1996,8 +1996,8 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[128] = v_[199] * v_[91] + v_[91] * v_[199];
     v_[244] = v_[338] * v_[87] + v_[87] * v_[338];
     v_[296] = 1.547475 * (v_[338] * v_[89] + v_[87] * v_[276] - (v_[199] * v_[94] + v_[91] * v_[317])) +
-              1.547475 * (v_[76] * v_[290] + v_[81] * v_[216] + v_[317] * w_in[5]) - 0.038686875 * (v_[128] + v_[244]);
-    v_[305] = v_[76] * v_[152] + v_[338] * w_in[5];
+              1.547475 * (v_[76] * v_[290] + v_[81] * v_[216] + v_[317] * x_in[11]) - 0.038686875 * (v_[128] + v_[244]);
+    v_[305] = v_[76] * v_[152] + v_[338] * x_in[11];
     v_[300] = v_[338] * v_[91] + v_[87] * v_[199];
     v_[27] = v_[293] * v_[85] + v_[85] * v_[293];
     v_[253] = v_[242] * v_[71];
@@ -2030,7 +2030,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[6] = v_[158] * 2.1032 + v_[229] * 0.057838;
     v_[188] = 0 - v_[6];
     v_[337] = v_[112] * v_[77] + v_[100] * v_[76] + v_[158] * 2.1032 + v_[229] * 0.057838;
-    v_[281] = v_[7] + v_[188] * v_[71] + v_[207] * v_[242] + v_[337] * w_in[4];
+    v_[281] = v_[7] + v_[188] * v_[71] + v_[207] * v_[242] + v_[337] * x_in[10];
     v_[334] = 0 - v_[23];
     v_[14] = 0 - v_[16] + v_[14];
     v_[16] = (0 - v_[229]) * 1.5e-05 + v_[257] * 0.000198 + v_[107] * 0.00605;
@@ -2043,9 +2043,9 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[16] * v_[87] + v_[122] * v_[293] + v_[295] * v_[85] + v_[307] * v_[199] + v_[307] * v_[199] +
               v_[117] * v_[91] + v_[117] * v_[91];
     v_[307] = v_[347] * 1.547475 + (0 - v_[257]) * 0.038686875;
-    v_[334] = v_[288] * v_[199] + v_[334] * v_[91] + v_[104] * v_[293] + v_[307] * v_[85] + v_[100] * w_in[5];
+    v_[334] = v_[288] * v_[199] + v_[334] * v_[91] + v_[104] * v_[293] + v_[307] * v_[85] + v_[100] * x_in[11];
     v_[288] = 0 - v_[307];
-    v_[14] = v_[314] * v_[199] + v_[14] * v_[91] + v_[162] * v_[338] + v_[288] * v_[87] - v_[112] * w_in[5];
+    v_[14] = v_[314] * v_[199] + v_[14] * v_[91] + v_[162] * v_[338] + v_[288] * v_[87] - v_[112] * x_in[11];
     v_[314] = v_[335] * 0.057838 + v_[229] * -0.001387 + v_[151] * -0.018069;
     v_[50] = (0 - v_[229]) * -0.001243 + v_[151] * -0.012652;
     v_[127] = (0 - v_[151]) * -0.001243;
@@ -2058,12 +2058,12 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[151] * 0.019432;
     v_[105] = v_[117] + v_[334] * v_[78] + v_[14] * v_[81] + v_[6] * v_[64] + v_[145] * v_[340] + v_[314] * v_[71] +
               v_[302] * v_[242] + v_[50] * v_[55] + v_[26] * v_[199] + v_[26] * v_[199] + v_[105] * v_[58] +
-              v_[105] * v_[58] + v_[208] * w_in[4];
+              v_[105] * v_[58] + v_[208] * x_in[10];
     v_[186] = 2.1032 * v_[290] + 0.057838 * v_[216] + 0.057838 * v_[253] + 2.1032 * v_[186] + v_[77] * v_[278] +
               v_[76] * v_[296];
     v_[335] = v_[335] * -2.1032 + v_[151] * 0.057838;
     v_[117] = 0 - v_[335];
-    v_[145] = v_[334] * v_[77] + v_[14] * v_[76] + v_[117] * v_[71] + v_[145] * v_[199] - v_[126] * w_in[4];
+    v_[145] = v_[334] * v_[77] + v_[14] * v_[76] + v_[117] * v_[71] + v_[145] * v_[199] - v_[126] * x_in[10];
     v_[27] = -0.000829 * v_[216] + 0.003227 * v_[114] + 0.000198 * v_[305] + -0.038686875 * v_[226] +
              0.000198 * v_[300] + 1.5e-05 * (v_[128] - v_[27]) - 0.038686875 * v_[336] - -0.00146 * v_[115] -
              -0.000829 * v_[227];
@@ -2077,17 +2077,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[217] = v_[108] + v_[309] - v_[217];
     v_[217] = v_[125] * v_[276] + v_[23] * v_[89] + v_[162] * v_[154] + v_[288] * v_[82] + v_[304] * v_[199] +
               v_[16] * v_[91] + v_[220] * v_[293] + v_[107] * v_[85] + v_[339] * v_[338] + v_[339] * v_[338] +
-              v_[217] * v_[87] + v_[217] * v_[87] + v_[231] * w_in[5];
+              v_[217] * v_[87] + v_[217] * v_[87] + v_[231] * x_in[11];
     v_[309] = 0 - v_[309] - v_[51];
     v_[309] = v_[161] * v_[276] + v_[12] * v_[89] + v_[104] * v_[317] + v_[307] * v_[94] + v_[122] * v_[199] +
               v_[295] * v_[91] + v_[220] * v_[338] + v_[107] * v_[87] + v_[160] * v_[293] + v_[160] * v_[293] +
-              v_[309] * v_[85] + v_[309] * v_[85] - v_[347] * w_in[5];
+              v_[309] * v_[85] + v_[309] * v_[85] - v_[347] * x_in[11];
     v_[107] = v_[158] * 0.057838 + (0 - v_[229]) * -0.008386 + (0 - v_[151]) * -0.001387;
     v_[307] = v_[229] * -0.012652;
     v_[295] = 0 - v_[307];
     v_[295] = v_[7] * -0.184 + v_[217] * v_[77] + v_[309] * v_[76] + v_[335] * v_[64] + v_[207] * v_[350] +
               v_[107] * v_[71] + v_[302] * v_[199] + v_[50] * v_[58] + v_[116] * v_[242] + v_[116] * v_[242] +
-              v_[295] * v_[55] + v_[295] * v_[55] - v_[41] * w_in[4];
+              v_[295] * v_[55] + v_[295] * v_[55] - v_[41] * x_in[10];
     hes[52] =
         (0 - (v_[63] * v_[106] + v_[205] * v_[92] + v_[286] * v_[66] + v_[272] * v_[34] + v_[218] * v_[44] +
                  v_[32] * v_[35] + (v_[113] * v_[106] + v_[286] * v_[29] + v_[218] * v_[47]) * 0.112 -
@@ -2127,19 +2127,19 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[237] * 0.02075 + v_[216] * 0.184 - (v_[200] * v_[27] + v_[347] * v_[36] + v_[217] * v_[71])) *
                   v_[247];
     v_[100] = v_[112] * v_[79] + v_[100] * v_[77];
-    v_[112] = v_[218] * v_[129] + v_[281] * v_[52] + v_[269] * v_[318] + v_[145] * v_[53] + v_[100] * w_in[3];
+    v_[112] = v_[218] * v_[129] + v_[281] * v_[52] + v_[269] * v_[318] + v_[145] * v_[53] + v_[100] * x_in[9];
     v_[216] = v_[286] * v_[129] + v_[126] * v_[52] + v_[259] * v_[318] + v_[337] * v_[53];
     v_[335] = v_[334] * v_[79] + v_[14] * v_[77] + v_[3] * v_[199] + v_[6] * v_[58] + v_[173] * v_[242] +
-              v_[335] * v_[55] - v_[216] * w_in[3];
+              v_[335] * v_[55] - v_[216] * x_in[9];
     v_[14] = v_[286] * v_[318] + v_[126] * v_[53] + v_[259] * v_[330] + v_[337] * v_[62];
     v_[334] = v_[14] * -1;
-    v_[6] = v_[112] * v_[28] + v_[335] * v_[30] + v_[334] * w_in[2];
+    v_[6] = v_[112] * v_[28] + v_[335] * v_[30] + v_[334] * x_in[8];
     v_[330] = v_[218] * v_[318] + v_[281] * v_[53] + v_[269] * v_[330] + v_[145] * v_[62];
     v_[173] = v_[216] * v_[28] + v_[100] * v_[30];
-    v_[3] = v_[330] * -1 - v_[173] * w_in[2];
+    v_[3] = v_[330] * -1 - v_[173] * x_in[8];
     v_[231] = v_[194] * 0.02075 + v_[347] * v_[86] + v_[231] * v_[77] + v_[229] * -0.001243 + v_[151] * -0.012652;
     v_[347] = v_[218] * v_[123] + v_[281] * v_[68] + v_[269] * v_[271] + v_[145] * v_[61] + v_[32] * v_[129] +
-              v_[105] * v_[52] + v_[110] * v_[318] + v_[295] * v_[53] + v_[231] * w_in[3];
+              v_[105] * v_[52] + v_[110] * v_[318] + v_[295] * v_[53] + v_[231] * x_in[9];
     v_[307] = v_[307] + v_[127];
     v_[307] = v_[7] * 0.02075 + v_[217] * v_[86] + v_[309] * v_[77] + v_[262] * v_[350] + v_[188] * v_[69] +
               v_[292] * v_[340] + v_[117] * v_[80] + v_[215] * v_[199] + v_[314] * v_[58] + v_[285] * v_[242] +
@@ -2148,40 +2148,40 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[41] * v_[56] + v_[213] * v_[199] + v_[208] * v_[58] + v_[307];
     v_[271] = v_[286] * v_[123] + v_[126] * v_[68] + v_[259] * v_[271] + v_[337] * v_[61] + v_[272] * v_[129] +
               v_[41] * v_[52] + v_[213] * v_[318] + v_[208] * v_[53];
-    v_[307] = v_[307] - v_[271] * w_in[3];
+    v_[307] = v_[307] - v_[271] * x_in[9];
     v_[208] = v_[216] * v_[43] + v_[100] * v_[42] +
               (v_[286] * v_[204] + v_[126] * v_[67] + v_[259] * v_[280] + v_[337] * v_[60] + v_[272] * v_[318] +
                   v_[41] * v_[53] + v_[213] * v_[101] + v_[208] * v_[54]) *
                   -1;
-    v_[330] = v_[330] * -0.304 + v_[347] * v_[28] + v_[307] * v_[30] + v_[208] * w_in[2];
+    v_[330] = v_[330] * -0.304 + v_[347] * v_[28] + v_[307] * v_[30] + v_[208] * x_in[8];
     v_[295] = v_[218] * v_[204] + v_[281] * v_[67] + v_[269] * v_[280] + v_[145] * v_[60] + v_[32] * v_[318] +
               v_[105] * v_[53] + v_[110] * v_[101] + v_[295] * v_[54];
     hes[57] = v_[216] * v_[65] + v_[100] * v_[44] + v_[271] * v_[33] + v_[231] * v_[35] + v_[295];
     v_[14] = v_[14] * -0.304 + v_[271] * v_[28] + v_[231] * v_[30];
-    v_[295] = v_[112] * v_[43] + v_[335] * v_[42] + v_[295] * -1 - v_[14] * w_in[2];
+    v_[295] = v_[112] * v_[43] + v_[335] * v_[42] + v_[295] * -1 - v_[14] * x_in[8];
     v_[271] = v_[271] * v_[31] + v_[231] * v_[28];
     v_[307] = v_[347] * v_[31] + v_[307] * v_[28];
     hes[56] = v_[173] * v_[40] + v_[334] * v_[21] + v_[14] * v_[13] + v_[208] * v_[15] + v_[307];
     v_[14] = v_[173] * v_[19] + v_[334] * v_[18] + v_[14] * v_[9] + v_[208] * v_[10];
-    hes[54] = (v_[6] * v_[19] + v_[3] * v_[18] + v_[330] * v_[9] + v_[295] * v_[10] + v_[271] * w_in[1]) * v_[4] +
-              (v_[307] - v_[14] * w_in[1]) * v_[0];
+    hes[54] = (v_[6] * v_[19] + v_[3] * v_[18] + v_[330] * v_[9] + v_[295] * v_[10] + v_[271] * x_in[7]) * v_[4] +
+              (v_[307] - v_[14] * x_in[7]) * v_[0];
     hes[55] = v_[6] * v_[20] + v_[3] * v_[38] + v_[330] * v_[10] + v_[295] * v_[11] + v_[14] * v_[2] + v_[271] * v_[5];
-    v_[14] = w_in[6] * v_[4];
-    v_[271] = w_in[7] * v_[20] + v_[14] * v_[19];
-    v_[295] = w_in[7] * v_[11] + v_[14] * v_[10];
+    v_[14] = w_in[0] * v_[4];
+    v_[271] = w_in[1] * v_[20] + v_[14] * v_[19];
+    v_[295] = w_in[1] * v_[11] + v_[14] * v_[10];
     v_[330] = v_[271] * v_[30] + v_[295] * v_[42];
-    v_[3] = w_in[7] * v_[10] + v_[14] * v_[9];
-    v_[14] = (w_in[7] * v_[38] + v_[14] * v_[18]) * -1 + v_[3] * -0.304;
+    v_[3] = w_in[1] * v_[10] + v_[14] * v_[9];
+    v_[14] = (w_in[1] * v_[38] + v_[14] * v_[18]) * -1 + v_[3] * -0.304;
     v_[271] = v_[271] * v_[28] + v_[295] * v_[43];
-    v_[295] = w_in[9] + v_[295] * -1;
-    v_[6] = w_in[8] + w_in[6] * v_[0];
+    v_[295] = w_in[3] + v_[295] * -1;
+    v_[6] = w_in[2] + w_in[0] * v_[0];
     v_[307] = v_[6] * v_[31] + v_[3] * v_[28];
     v_[208] = v_[14] * v_[62] + v_[271] * v_[53] + v_[295] * v_[60] + v_[307] * v_[61];
-    v_[6] = w_in[10] + v_[6] * v_[28] + v_[3] * v_[30];
+    v_[6] = w_in[4] + v_[6] * v_[28] + v_[3] * v_[30];
     v_[3] = v_[295] * v_[54] + v_[307] * v_[53];
     v_[173] = v_[295] * v_[53] + v_[307] * v_[52];
     v_[334] = v_[330] * v_[79] + v_[208] * v_[77] + v_[173] * v_[78];
-    v_[347] = w_in[11] + v_[173];
+    v_[347] = w_in[5] + v_[173];
     v_[231] = v_[334] * 1.547475 + v_[347] * 0.038686875;
     v_[335] = v_[330] * v_[77] + v_[208] * v_[76] + v_[173] * v_[81];
     v_[112] = v_[335] * 1.547475;
@@ -2194,23 +2194,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[100] = v_[335] * 1.547475;
     v_[145] = 0 - v_[100];
     v_[105] = v_[307] * 1.547475 + (0 - v_[295]) * 0.038686875;
-    v_[281] = v_[145] * v_[91] + v_[105] * v_[85] + v_[112] * w_in[5];
+    v_[281] = v_[145] * v_[91] + v_[105] * v_[85] + v_[112] * x_in[11];
     v_[101] = v_[334] * -1.547475;
     v_[280] = v_[347] * 0.038686875;
     v_[204] = 0 - v_[101] + v_[280];
     v_[110] = 0 - v_[105];
-    v_[269] = v_[204] * v_[91] + v_[110] * v_[87] - v_[231] * w_in[5];
+    v_[269] = v_[204] * v_[91] + v_[110] * v_[87] - v_[231] * x_in[11];
     v_[32] = (0 - v_[347]) * 1.5e-05 + v_[295] * 0.000198 + v_[271] * 0.00605;
     v_[334] = v_[334] * 0.038686875 + v_[347] * -0.00751 + (0 - v_[295]) * -0.000829 + v_[271] * 1.5e-05;
     v_[218] = (0 - v_[347]) * 0.000198;
     v_[335] = (0 - v_[335]) * 0.038686875 + v_[218] - (0 - v_[271]) * -0.000829;
     v_[318] = v_[100] * v_[89] + v_[110] * v_[82] + v_[32] * v_[91] + v_[334] * v_[85] + v_[335] * v_[87] +
-              v_[335] * v_[87] + v_[216] * w_in[5];
+              v_[335] * v_[87] + v_[216] * x_in[11];
     v_[280] = v_[101] - v_[280];
     v_[271] = v_[307] * 0.038686875 + v_[347] * -0.000829 + (0 - v_[295]) * -0.00146 + (0 - v_[271]) * 0.000198;
     v_[218] = 0 - v_[218] - v_[295] * 1.5e-05;
     v_[295] = v_[280] * v_[89] + v_[105] * v_[94] + v_[271] * v_[91] + v_[334] * v_[87] + v_[218] * v_[85] +
-              v_[218] * v_[85] - v_[14] * w_in[5];
+              v_[218] * v_[85] - v_[14] * x_in[11];
     v_[307] = v_[173] * v_[93] + v_[231] * v_[57] + v_[281] * v_[58];
     v_[347] = v_[173] * v_[97] + v_[112] * v_[57] + v_[269] * v_[58];
     v_[101] = 0 - v_[248];
@@ -2222,17 +2222,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[272] = 0.184 * v_[247] - 0.02075 * v_[101];
     v_[286] = v_[41] * v_[87] + v_[87] * v_[41];
     v_[123] = 1.547475 * (v_[41] * v_[89] - v_[91] * v_[259]) +
-              1.547475 * (v_[101] * v_[45] + v_[247] * v_[70] + v_[272] * v_[57] + v_[259] * w_in[5]) -
+              1.547475 * (v_[101] * v_[45] + v_[247] * v_[70] + v_[272] * v_[57] + v_[259] * x_in[11]) -
               0.038686875 * v_[286];
     v_[129] = v_[101] * v_[64] + v_[247] * v_[80] + v_[272] * v_[58];
     v_[350] = -v_[129];
     v_[84] = v_[247] * v_[55] + v_[101] * v_[71];
     v_[199] = v_[84] * v_[87] + v_[85] * v_[41];
-    v_[250] = 1.547475 * (v_[126] * v_[45] + v_[101] * v_[70] + v_[213] * v_[57] + v_[350] * w_in[5]) +
+    v_[250] = 1.547475 * (v_[126] * v_[45] + v_[101] * v_[70] + v_[213] * v_[57] + v_[350] * x_in[11]) +
               0.038686875 * v_[199] + -1.547475 * (v_[84] * v_[89] - v_[91] * v_[129]);
     v_[107] = -v_[84];
-    v_[309] = v_[337] * v_[36] + v_[101] * v_[59] + v_[107] * w_in[5];
-    v_[217] = v_[101] * v_[36] + v_[247] * v_[59] + v_[41] * w_in[5];
+    v_[309] = v_[337] * v_[36] + v_[101] * v_[59] + v_[107] * x_in[11];
+    v_[217] = v_[101] * v_[36] + v_[247] * v_[59] + v_[41] * x_in[11];
     v_[117] = v_[41] * v_[91];
     v_[314] = v_[84] * v_[91];
     v_[286] = 0.000198 * v_[309] + 0.010737 * v_[217] + 0.00605 * v_[117] + 1.5e-05 * v_[199] - 0.000198 * v_[314] -
@@ -2252,11 +2252,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[285] = v_[309] * 1.547475;
     v_[292] = 0 - v_[285];
     v_[215] = (0 - v_[188]) * 0.038686875;
-    v_[262] = v_[292] * v_[91] + v_[105] * v_[84] + v_[215] * v_[85] + v_[199] * w_in[5];
+    v_[262] = v_[292] * v_[91] + v_[105] * v_[84] + v_[215] * v_[85] + v_[199] * x_in[11];
     v_[127] = v_[117] * -1.547475;
     v_[229] = 0 - v_[127];
     v_[194] = 0 - v_[215];
-    v_[151] = v_[229] * v_[91] + v_[110] * v_[41] + v_[194] * v_[87] - v_[217] * w_in[5];
+    v_[151] = v_[229] * v_[91] + v_[110] * v_[41] + v_[194] * v_[87] - v_[217] * x_in[11];
     v_[237] = v_[188] * 0.000198 + v_[7] * 0.00605;
     v_[300] = v_[117] * 0.038686875 + (0 - v_[188]) * -0.000829 + v_[7] * 1.5e-05;
     v_[309] = (0 - v_[309]) * 0.038686875;
@@ -2264,13 +2264,13 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[158] = v_[309] - v_[27];
     v_[158] = v_[285] * v_[89] + v_[110] * v_[129] + v_[194] * v_[82] + v_[237] * v_[91] + v_[334] * v_[84] +
               v_[300] * v_[85] + v_[335] * v_[41] + v_[335] * v_[41] + v_[158] * v_[87] + v_[158] * v_[87] +
-              v_[340] * w_in[5];
+              v_[340] * x_in[11];
     v_[194] = (0 - v_[188]) * -0.00146 + (0 - v_[7]) * 0.000198;
     v_[335] = v_[188] * 1.5e-05;
     v_[110] = 0 - v_[335];
     v_[110] = v_[127] * v_[89] + v_[105] * v_[259] + v_[215] * v_[94] + v_[194] * v_[91] + v_[334] * v_[41] +
               v_[300] * v_[87] + v_[218] * v_[84] + v_[218] * v_[84] + v_[110] * v_[85] + v_[110] * v_[85] -
-              v_[242] * w_in[5];
+              v_[242] * x_in[11];
     v_[300] = v_[173] * v_[250] + v_[217] * v_[57] + v_[262] * v_[58];
     v_[173] = v_[173] * v_[123] + v_[199] * v_[57] + v_[151] * v_[58];
     hes[65] = (0 - (v_[330] * v_[97] + v_[208] * v_[93] + v_[6] * v_[102] + v_[3] * v_[103] + v_[231] * v_[70] +
@@ -2291,62 +2291,62 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[76];
     v_[127] = v_[100] * v_[41] + v_[285] * v_[87] + v_[280] * v_[84] + v_[127] * v_[85];
     v_[285] = v_[231] * v_[101] + v_[217] * v_[77] + v_[112] * v_[247] + v_[199] * v_[76];
-    v_[280] = v_[127] + v_[285] * w_in[4];
+    v_[280] = v_[127] + v_[285] * x_in[10];
     v_[100] = v_[188] * -0.038686875;
-    v_[173] = v_[281] * v_[101] + v_[262] * v_[77] + v_[269] * v_[247] + v_[151] * v_[76] - v_[100] * w_in[4];
+    v_[173] = v_[281] * v_[101] + v_[262] * v_[77] + v_[269] * v_[247] + v_[151] * v_[76] - v_[100] * x_in[10];
     v_[300] = v_[231] * v_[126] + v_[217] * v_[79] + v_[112] * v_[101] + v_[199] * v_[77];
-    v_[314] = v_[280] * v_[52] + v_[173] * v_[53] + v_[300] * w_in[3];
+    v_[314] = v_[280] * v_[52] + v_[173] * v_[53] + v_[300] * x_in[9];
     v_[286] = v_[100] * v_[52] + v_[285] * v_[53];
-    v_[126] = v_[281] * v_[126] + v_[262] * v_[79] + v_[269] * v_[101] + v_[151] * v_[77] - v_[286] * w_in[3];
+    v_[126] = v_[281] * v_[126] + v_[262] * v_[79] + v_[269] * v_[101] + v_[151] * v_[77] - v_[286] * x_in[9];
     v_[250] = v_[100] * v_[53] + v_[285] * v_[62];
     v_[123] = v_[250] * -1;
-    v_[347] = v_[314] * v_[28] + v_[126] * v_[30] + v_[123] * w_in[2];
+    v_[347] = v_[314] * v_[28] + v_[126] * v_[30] + v_[123] * x_in[8];
     v_[307] = v_[280] * v_[53] + v_[173] * v_[62];
     v_[3] = v_[286] * v_[28] + v_[300] * v_[30];
-    v_[6] = v_[307] * -1 - v_[3] * w_in[2];
+    v_[6] = v_[307] * -1 - v_[3] * x_in[8];
     v_[335] = v_[309] + v_[335] + v_[27];
     v_[335] = v_[145] * v_[259] + v_[292] * v_[94] + v_[204] * v_[129] + v_[229] * v_[82] + v_[32] * v_[41] +
               v_[237] * v_[87] + v_[271] * v_[84] + v_[194] * v_[85] + v_[335] * v_[91] + v_[335] * v_[91];
     hes[71] = v_[231] * v_[350] + v_[217] * v_[83] + v_[112] * v_[259] + v_[199] * v_[94] + v_[14] * v_[107] +
               v_[242] * v_[98] + v_[216] * v_[41] + v_[340] * v_[87] + v_[335];
     v_[107] = v_[100] * -0.184 + v_[14] * v_[101] + v_[242] * v_[77] + v_[216] * v_[247] + v_[340] * v_[76];
-    v_[335] = v_[335] + v_[281] * v_[213] + v_[262] * v_[78] + v_[269] * v_[272] + v_[151] * v_[81] + v_[107] * w_in[4];
+    v_[335] = v_[335] + v_[281] * v_[213] + v_[262] * v_[78] + v_[269] * v_[272] + v_[151] * v_[81] + v_[107] * x_in[10];
     v_[7] = v_[117] * 0.038686875 + v_[188] * -0.000829 + v_[7] * 1.5e-05 + v_[231] * v_[213] + v_[217] * v_[78] +
             v_[112] * v_[272] + v_[199] * v_[81];
     v_[247] = v_[127] * -0.184 + v_[318] * v_[101] + v_[158] * v_[77] + v_[295] * v_[247] + v_[110] * v_[76] -
-              v_[7] * w_in[4];
+              v_[7] * x_in[10];
     v_[340] = v_[100] * 0.02075 + v_[14] * v_[337] + v_[242] * v_[86] + v_[216] * v_[101] + v_[340] * v_[77];
-    v_[242] = v_[280] * v_[68] + v_[173] * v_[61] + v_[335] * v_[52] + v_[247] * v_[53] + v_[340] * w_in[3];
+    v_[242] = v_[280] * v_[68] + v_[173] * v_[61] + v_[335] * v_[52] + v_[247] * v_[53] + v_[340] * x_in[9];
     v_[127] = v_[127] * 0.02075 + v_[318] * v_[337] + v_[158] * v_[86] + v_[295] * v_[101] + v_[110] * v_[77];
     hes[70] = v_[100] * v_[90] + v_[285] * v_[69] + v_[7] * v_[56] + v_[107] * v_[58] + v_[127];
     v_[90] = v_[100] * v_[68] + v_[285] * v_[61] + v_[7] * v_[52] + v_[107] * v_[53];
-    v_[127] = v_[127] - v_[90] * w_in[3];
+    v_[127] = v_[127] - v_[90] * x_in[9];
     v_[7] = v_[286] * v_[43] + v_[300] * v_[42] +
             (v_[100] * v_[67] + v_[285] * v_[60] + v_[7] * v_[53] + v_[107] * v_[54]) * -1;
-    v_[307] = v_[307] * -0.304 + v_[242] * v_[28] + v_[127] * v_[30] + v_[7] * w_in[2];
+    v_[307] = v_[307] * -0.304 + v_[242] * v_[28] + v_[127] * v_[30] + v_[7] * x_in[8];
     v_[247] = v_[280] * v_[67] + v_[173] * v_[60] + v_[335] * v_[53] + v_[247] * v_[54];
     hes[69] = v_[286] * v_[65] + v_[300] * v_[44] + v_[90] * v_[33] + v_[340] * v_[35] + v_[247];
     v_[250] = v_[250] * -0.304 + v_[90] * v_[28] + v_[340] * v_[30];
-    v_[247] = v_[314] * v_[43] + v_[126] * v_[42] + v_[247] * -1 - v_[250] * w_in[2];
+    v_[247] = v_[314] * v_[43] + v_[126] * v_[42] + v_[247] * -1 - v_[250] * x_in[8];
     v_[90] = v_[90] * v_[31] + v_[340] * v_[28];
     v_[127] = v_[242] * v_[31] + v_[127] * v_[28];
     hes[68] = v_[3] * v_[40] + v_[123] * v_[21] + v_[250] * v_[13] + v_[7] * v_[15] + v_[127];
     v_[250] = v_[3] * v_[19] + v_[123] * v_[18] + v_[250] * v_[9] + v_[7] * v_[10];
-    hes[66] = (v_[347] * v_[19] + v_[6] * v_[18] + v_[307] * v_[9] + v_[247] * v_[10] + v_[90] * w_in[1]) * v_[4] +
-              (v_[127] - v_[250] * w_in[1]) * v_[0];
+    hes[66] = (v_[347] * v_[19] + v_[6] * v_[18] + v_[307] * v_[9] + v_[247] * v_[10] + v_[90] * x_in[7]) * v_[4] +
+              (v_[127] - v_[250] * x_in[7]) * v_[0];
     hes[67] =
         v_[347] * v_[20] + v_[6] * v_[38] + v_[307] * v_[10] + v_[247] * v_[11] + v_[250] * v_[2] + v_[90] * v_[5];
-    v_[250] = w_in[6] * v_[4];
-    v_[90] = w_in[7] * v_[20] + v_[250] * v_[19];
-    v_[247] = w_in[7] * v_[11] + v_[250] * v_[10];
+    v_[250] = w_in[0] * v_[4];
+    v_[90] = w_in[1] * v_[20] + v_[250] * v_[19];
+    v_[247] = w_in[1] * v_[11] + v_[250] * v_[10];
     v_[307] = v_[90] * v_[30] + v_[247] * v_[42];
-    v_[6] = w_in[7] * v_[38] + v_[250] * v_[18];
-    v_[347] = w_in[7] * v_[10] + v_[250] * v_[9];
+    v_[6] = w_in[1] * v_[38] + v_[250] * v_[18];
+    v_[347] = w_in[1] * v_[10] + v_[250] * v_[9];
     v_[5] = v_[6] * -1 + v_[347] * -0.304;
     v_[2] = v_[90] * v_[28] + v_[247] * v_[43];
-    v_[127] = w_in[9] + v_[247] * -1;
-    v_[7] = w_in[6] * v_[0];
-    v_[3] = w_in[8] + v_[7];
+    v_[127] = w_in[3] + v_[247] * -1;
+    v_[7] = w_in[0] * v_[0];
+    v_[3] = w_in[2] + v_[7];
     v_[123] = v_[3] * v_[31] + v_[347] * v_[28];
     v_[40] = v_[5] * v_[62] + v_[2] * v_[53] + v_[127] * v_[60] + v_[123] * v_[61];
     v_[21] = v_[127] * v_[53] + v_[123] * v_[52];
@@ -2361,7 +2361,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[65] = v_[77] * v_[286] + v_[86] * v_[300];
     v_[44] = v_[307] * v_[79] + v_[40] * v_[77] + v_[21] * v_[78];
     v_[35] = v_[44] * -1.547475;
-    v_[33] = w_in[11] + v_[21];
+    v_[33] = w_in[5] + v_[21];
     v_[335] = v_[33] * 0.038686875;
     v_[173] = v_[35] - v_[335];
     v_[280] = v_[76] * v_[286] + v_[77] * v_[300];
@@ -2374,7 +2374,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[110] = v_[52] * v_[340] + v_[53] * v_[314];
     v_[158] = v_[5] * v_[53] + v_[2] * v_[52] + v_[127] * v_[67] + v_[123] * v_[68];
     v_[337] = v_[3] * v_[28] + v_[347] * v_[30];
-    v_[101] = w_in[10] + v_[337];
+    v_[101] = w_in[4] + v_[337];
     v_[295] = v_[127] * v_[54] + v_[123] * v_[53];
     v_[318] = v_[158] + v_[101] * 0.02075 + v_[295] * -0.184;
     v_[216] = v_[101] * v_[86] + v_[295] * v_[77];
@@ -2485,8 +2485,8 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[151] = v_[56] - v_[151] - v_[102];
     v_[151] = v_[262] * v_[43] + v_[98] * v_[42] + v_[208] * -1 + v_[87] * v_[229] + v_[188] * v_[0] +
               v_[129] * v_[242] + v_[151] * v_[126] + v_[151] * v_[126];
-    v_[129] = w_in[7] * 0.046852534 + (0 - v_[250]) * -0.002752 + v_[7] * -0.022851627;
-    v_[87] = (0 - w_in[7]) * 0.0055279857;
+    v_[129] = w_in[1] * 0.046852534 + (0 - v_[250]) * -0.002752 + v_[7] * -0.022851627;
+    v_[87] = (0 - w_in[1]) * 0.0055279857;
     v_[98] = v_[87] - (0 - v_[7]) * -0.002752;
     v_[102] = v_[56] + v_[350] + v_[102] + v_[69];
     v_[102] = v_[173] * v_[31] + v_[82] * v_[28] + v_[94] * v_[229] + v_[269] * v_[84] + v_[217] * v_[242] +
@@ -2532,26 +2532,26 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[90] * -0.647967112 + v_[3] * -0.011715295 + v_[347] * 5.399998e-05 + v_[247] * 0.20236395;
     hes[79] =
         v_[83] * v_[20] + v_[237] * v_[38] + v_[335] * v_[10] + v_[151] * v_[11] +
-        (w_in[7] * -0.002752 + (0 - v_[250]) * 0.012390532 + (0 - v_[7]) * 0.0055279857) * v_[0] +
-        (v_[173] * v_[19] + v_[94] * v_[18] + v_[269] * v_[9] + v_[158] * v_[10] + w_in[7] * -0.002752 +
+        (w_in[1] * -0.002752 + (0 - v_[250]) * 0.012390532 + (0 - v_[7]) * 0.0055279857) * v_[0] +
+        (v_[173] * v_[19] + v_[94] * v_[18] + v_[269] * v_[9] + v_[158] * v_[10] + w_in[1] * -0.002752 +
             v_[250] * 0.08585553 + v_[7] * 0.0055279857) *
             (-v_[0]) +
         (v_[199] * v_[31] + v_[91] * v_[28] + v_[90] * -0.0055615274403 + v_[6] * -0.01438086 + v_[3] * 0.010329999 +
-            v_[347] * -0.0037997814 + v_[247] * -0.011715295 + w_in[7] * -0.022851627 + v_[250] * 0.0055279857 +
-            v_[7] * 0.039002996 + (0 - w_in[7]) * -0.022851627 + v_[250] * 0.0055279857 + v_[7] * -0.034462002) *
+            v_[347] * -0.0037997814 + v_[247] * -0.011715295 + w_in[1] * -0.022851627 + v_[250] * 0.0055279857 +
+            v_[7] * 0.039002996 + (0 - w_in[1]) * -0.022851627 + v_[250] * 0.0055279857 + v_[7] * -0.034462002) *
             v_[4];
     hes[80] = v_[173] * (-v_[84]) + v_[94] * v_[229] + v_[269] * (-v_[126]) + v_[158] * v_[242] + v_[102];
-    v_[158] = w_in[6] * v_[4];
-    v_[269] = w_in[7] * v_[20] + v_[158] * v_[19];
-    v_[94] = w_in[7] * v_[11] + v_[158] * v_[10];
+    v_[158] = w_in[0] * v_[4];
+    v_[269] = w_in[1] * v_[20] + v_[158] * v_[19];
+    v_[94] = w_in[1] * v_[11] + v_[158] * v_[10];
     v_[173] = v_[269] * v_[30] + v_[94] * v_[42];
-    v_[102] = w_in[7] * v_[38] + v_[158] * v_[18];
-    v_[84] = w_in[7] * v_[10] + v_[158] * v_[9];
+    v_[102] = w_in[1] * v_[38] + v_[158] * v_[18];
+    v_[84] = w_in[1] * v_[10] + v_[158] * v_[9];
     v_[229] = v_[102] * -1 + v_[84] * -0.304;
     v_[126] = v_[269] * v_[28] + v_[94] * v_[43];
-    v_[242] = w_in[9] + v_[94] * -1;
-    v_[91] = w_in[6] * v_[0];
-    v_[199] = w_in[8] + v_[91];
+    v_[242] = w_in[3] + v_[94] * -1;
+    v_[91] = w_in[0] * v_[0];
+    v_[199] = w_in[2] + v_[91];
     v_[151] = v_[199] * v_[31] + v_[84] * v_[28];
     v_[335] = v_[229] * v_[62] + v_[126] * v_[53] + v_[242] * v_[60] + v_[151] * v_[61];
     v_[237] = v_[242] * v_[53] + v_[151] * v_[52];
@@ -2564,7 +2564,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[90] = v_[77] * v_[6] + v_[86] * v_[247];
     v_[250] = v_[173] * v_[79] + v_[335] * v_[77] + v_[237] * v_[78];
     v_[44] = v_[250] * -1.547475;
-    v_[82] = w_in[11] + v_[237];
+    v_[82] = w_in[5] + v_[237];
     v_[217] = v_[82] * 0.038686875;
     v_[188] = v_[44] - v_[217];
     v_[98] = v_[76] * v_[6] + v_[77] * v_[247];
@@ -2577,7 +2577,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[271] = v_[52] * v_[7] + v_[53] * v_[347];
     v_[292] = v_[229] * v_[53] + v_[126] * v_[52] + v_[242] * v_[67] + v_[151] * v_[68];
     v_[300] = v_[199] * v_[28] + v_[84] * v_[30];
-    v_[340] = w_in[10] + v_[300];
+    v_[340] = w_in[4] + v_[300];
     v_[318] = v_[242] * v_[54] + v_[151] * v_[53];
     v_[87] = v_[292] + v_[340] * 0.02075 + v_[318] * -0.184;
     v_[295] = v_[340] * v_[86] + v_[318] * v_[77];
@@ -2727,16 +2727,16 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
         (v_[102] * 0.647967112 + v_[199] * -0.0037997814 + (0 - v_[84]) * -0.192033951 + (0 - v_[94]) * 5.399998e-05) *
             v_[11];
     hes[93] = v_[204] * (-v_[69]) + v_[280] * v_[262] + v_[5] * (-v_[247]) + v_[213] * v_[7] + v_[248];
-    v_[213] = w_in[6] * v_[4];
-    v_[5] = w_in[7] * v_[20] + v_[213] * v_[19];
-    v_[280] = w_in[7] * v_[11] + v_[213] * v_[10];
+    v_[213] = w_in[0] * v_[4];
+    v_[5] = w_in[1] * v_[20] + v_[213] * v_[19];
+    v_[280] = w_in[1] * v_[11] + v_[213] * v_[10];
     v_[204] = v_[5] * v_[30] + v_[280] * v_[42];
-    v_[248] = w_in[7] * v_[38] + v_[213] * v_[18];
-    v_[213] = w_in[7] * v_[10] + v_[213] * v_[9];
+    v_[248] = w_in[1] * v_[38] + v_[213] * v_[18];
+    v_[213] = w_in[1] * v_[10] + v_[213] * v_[9];
     v_[262] = v_[248] * -1 + v_[213] * -0.304;
     v_[69] = v_[5] * v_[28] + v_[280] * v_[43];
-    v_[247] = w_in[9] + v_[280] * -1;
-    v_[7] = w_in[8] + w_in[6] * v_[0];
+    v_[247] = w_in[3] + v_[280] * -1;
+    v_[7] = w_in[2] + w_in[0] * v_[0];
     v_[292] = v_[7] * v_[31] + v_[213] * v_[28];
     v_[250] = v_[262] * v_[62] + v_[69] * v_[53] + v_[247] * v_[60] + v_[292] * v_[61];
     v_[56] = v_[247] * v_[53] + v_[292] * v_[52];
@@ -2746,7 +2746,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[188] = v_[77] * v_[314] + v_[86] * v_[28];
     v_[300] = v_[204] * v_[79] + v_[250] * v_[77] + v_[56] * v_[78];
     v_[151] = v_[300] * -1.547475;
-    v_[199] = w_in[11] + v_[56];
+    v_[199] = w_in[5] + v_[56];
     v_[242] = v_[199] * 0.038686875;
     v_[126] = v_[151] - v_[242];
     v_[84] = v_[76] * v_[314] + v_[77] * v_[28];
@@ -2758,7 +2758,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[91] = v_[52] * v_[31];
     v_[318] = v_[262] * v_[53] + v_[69] * v_[52] + v_[247] * v_[67] + v_[292] * v_[68];
     v_[7] = v_[7] * v_[28] + v_[213] * v_[30];
-    v_[340] = w_in[10] + v_[7];
+    v_[340] = w_in[4] + v_[7];
     v_[237] = v_[247] * v_[54] + v_[292] * v_[53];
     v_[229] = v_[318] + v_[340] * 0.02075 + v_[237] * -0.184;
     v_[110] = v_[340] * v_[86] + v_[237] * v_[77];
@@ -2848,15 +2848,15 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
             (0 - v_[292]) * 0.01404749 + (0 - v_[7]) * 0.0036857284) *
             v_[28];
     hes[106] = v_[21] * (-v_[231]) + v_[87] * v_[65] + v_[300] * (-v_[314]) + v_[318] * v_[91] + v_[6];
-    v_[318] = w_in[6] * v_[4];
-    v_[300] = w_in[7] * v_[20] + v_[318] * v_[19];
-    v_[87] = w_in[7] * v_[11] + v_[318] * v_[10];
+    v_[318] = w_in[0] * v_[4];
+    v_[300] = w_in[1] * v_[20] + v_[318] * v_[19];
+    v_[87] = w_in[1] * v_[11] + v_[318] * v_[10];
     v_[21] = v_[300] * v_[30] + v_[87] * v_[42];
-    v_[6] = w_in[7] * v_[10] + v_[318] * v_[9];
-    v_[318] = (w_in[7] * v_[38] + v_[318] * v_[18]) * -1 + v_[6] * -0.304;
+    v_[6] = w_in[1] * v_[10] + v_[318] * v_[9];
+    v_[318] = (w_in[1] * v_[38] + v_[318] * v_[18]) * -1 + v_[6] * -0.304;
     v_[300] = v_[300] * v_[28] + v_[87] * v_[43];
-    v_[87] = w_in[9] + v_[87] * -1;
-    v_[65] = w_in[8] + w_in[6] * v_[0];
+    v_[87] = w_in[3] + v_[87] * -1;
+    v_[65] = w_in[2] + w_in[0] * v_[0];
     v_[231] = v_[65] * v_[31] + v_[6] * v_[28];
     v_[91] = v_[318] * v_[62] + v_[300] * v_[53] + v_[87] * v_[60] + v_[231] * v_[61];
     v_[314] = v_[87] * v_[53] + v_[231] * v_[52];
@@ -2865,7 +2865,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[213] = v_[77] * v_[54];
     v_[208] = v_[21] * v_[79] + v_[91] * v_[77] + v_[314] * v_[78];
     v_[107] = v_[208] * -1.547475;
-    v_[194] = w_in[11] + v_[314];
+    v_[194] = w_in[5] + v_[314];
     v_[237] = v_[194] * 0.038686875;
     v_[340] = v_[107] - v_[237];
     v_[7] = v_[76] * v_[54];
@@ -2874,7 +2874,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[292] = 0 - v_[229];
     v_[318] = v_[318] * v_[53] + v_[300] * v_[52] + v_[87] * v_[67] + v_[231] * v_[68];
     v_[65] = v_[65] * v_[28] + v_[6] * v_[30];
-    v_[6] = w_in[10] + v_[65];
+    v_[6] = w_in[4] + v_[65];
     v_[87] = v_[87] * v_[54] + v_[231] * v_[53];
     v_[247] = v_[318] + v_[6] * 0.02075 + v_[87] * -0.184;
     v_[69] = v_[6] * v_[86] + v_[87] * v_[77];
@@ -2938,24 +2938,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                (v_[318] * 0.057838 + (0 - v_[6]) * -0.012652 + v_[314] * -0.001387 + v_[87] * -0.018069) * v_[53] +
                (v_[91] * 0.057838 + v_[6] * -0.001243 + (0 - v_[314]) * -0.008386 + (0 - v_[87]) * -0.001387) * v_[54];
     hes[119] = v_[280] * (-v_[98]) + v_[90] * v_[158] + v_[247] * (-v_[7]) + v_[5] * v_[213] + v_[248];
-    v_[5] = w_in[6] * v_[4];
-    v_[247] = w_in[7] * v_[20] + v_[5] * v_[19];
-    v_[90] = w_in[7] * v_[11] + v_[5] * v_[10];
+    v_[5] = w_in[0] * v_[4];
+    v_[247] = w_in[1] * v_[20] + v_[5] * v_[19];
+    v_[90] = w_in[1] * v_[11] + v_[5] * v_[10];
     v_[280] = v_[247] * v_[30] + v_[90] * v_[42];
-    v_[248] = w_in[7] * v_[10] + v_[5] * v_[9];
-    v_[5] = (w_in[7] * v_[38] + v_[5] * v_[18]) * -1 + v_[248] * -0.304;
+    v_[248] = w_in[1] * v_[10] + v_[5] * v_[9];
+    v_[5] = (w_in[1] * v_[38] + v_[5] * v_[18]) * -1 + v_[248] * -0.304;
     v_[247] = v_[247] * v_[28] + v_[90] * v_[43];
-    v_[90] = w_in[9] + v_[90] * -1;
-    v_[98] = w_in[8] + w_in[6] * v_[0];
+    v_[90] = w_in[3] + v_[90] * -1;
+    v_[98] = w_in[2] + w_in[0] * v_[0];
     v_[158] = v_[98] * v_[31] + v_[248] * v_[28];
     v_[7] = v_[5] * v_[62] + v_[247] * v_[53] + v_[90] * v_[60] + v_[158] * v_[61];
     v_[213] = v_[90] * v_[53] + v_[158] * v_[52];
     v_[65] = v_[280] * v_[77] + v_[7] * v_[76] + v_[213] * v_[81];
     v_[216] = v_[65] * 1.547475;
     v_[7] = v_[280] * v_[79] + v_[7] * v_[77] + v_[213] * v_[78];
-    v_[280] = w_in[11] + v_[213];
+    v_[280] = w_in[5] + v_[213];
     v_[79] = v_[7] * -1.547475 - v_[280] * 0.038686875;
-    v_[98] = w_in[10] + v_[98] * v_[28] + v_[248] * v_[30];
+    v_[98] = w_in[4] + v_[98] * v_[28] + v_[248] * v_[30];
     v_[248] = v_[90] * v_[54] + v_[158] * v_[53];
     v_[78] = v_[98] * v_[86] + v_[248] * v_[77];
     v_[250] = v_[98] * v_[77] + v_[248] * v_[76];
@@ -2974,17 +2974,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
         (v_[280] * 1.5e-05 + v_[78] * 0.000198 + v_[250] * 0.010737) * v_[86] +
         ((0 - v_[280]) * 1.5e-05 + v_[78] * 0.000198 + v_[250] * 0.00605) * v_[86] +
         (v_[248] * 0.038686875 + v_[280] * -0.000829 + (0 - v_[78]) * -0.00146 + (0 - v_[250]) * 0.000198) * v_[77];
-    v_[4] = w_in[6] * v_[4];
-    v_[20] = w_in[7] * v_[20] + v_[4] * v_[19];
-    v_[11] = w_in[7] * v_[11] + v_[4] * v_[10];
-    v_[10] = w_in[7] * v_[10] + v_[4] * v_[9];
-    v_[9] = w_in[9] + v_[11] * -1;
-    v_[0] = w_in[8] + w_in[6] * v_[0];
+    v_[4] = w_in[0] * v_[4];
+    v_[20] = w_in[1] * v_[20] + v_[4] * v_[19];
+    v_[11] = w_in[1] * v_[11] + v_[4] * v_[10];
+    v_[10] = w_in[1] * v_[10] + v_[4] * v_[9];
+    v_[9] = w_in[3] + v_[11] * -1;
+    v_[0] = w_in[2] + w_in[0] * v_[0];
     v_[31] = v_[0] * v_[31] + v_[10] * v_[28];
-    v_[0] = w_in[10] + v_[0] * v_[28] + v_[10] * v_[30];
+    v_[0] = w_in[4] + v_[0] * v_[28] + v_[10] * v_[30];
     v_[54] = v_[9] * v_[54] + v_[31] * v_[53];
     v_[54] = (0 - ((v_[20] * v_[30] + v_[11] * v_[42]) * v_[77] +
-                      (((w_in[7] * v_[38] + v_[4] * v_[18]) * -1 + v_[10] * -0.304) * v_[62] +
+                      (((w_in[1] * v_[38] + v_[4] * v_[18]) * -1 + v_[10] * -0.304) * v_[62] +
                           (v_[20] * v_[28] + v_[11] * v_[43]) * v_[53] + v_[9] * v_[60] + v_[31] * v_[61]) *
                           v_[76] +
                       (v_[9] * v_[53] + v_[31] * v_[52]) * v_[81])) *
-- 
2.43.0


From 6c389029b05472c0d6fdb7e3be110436f1461aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:59 +0000
Subject: [PATCH 108/113] fix: inverse dynamics of a fully actuated floating
 base used an uninitialised base acceleration

---
 ct_rbd/include/ct/rbd/robot/Dynamics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/Dynamics.h b/ct_rbd/include/ct/rbd/robot/Dynamics.h
index 5fa5c65..a3a7d9f 100644
--- a/ct_rbd/include/ct/rbd/robot/Dynamics.h
+++ b/ct_rbd/include/ct/rbd/robot/Dynamics.h
@@ -312,7 +312,7 @@ ENABLE_FLOAT_BASE_IMPL Dynamics<RBD, NEE>::FloatingBaseFullyActuatedID(const RBD
     ForceVector_t& base_w,
     control_vector_t& u)
 {
-    Vector6d_t b_accel;
+    Vector6d_t b_accel = base_a.getVector6d();
 
     kinematics_->robcogen().inverseDynamics().id_fully_actuated(base_w, u, x.basePose().computeGravityB6D(),
         x.baseVelocities().getVector(), b_accel, x.joints().getPositions(), x.joints().getVelocities(),
-- 
2.43.0


From 6a5ea5309c8de9d3507654d303d6e6b2e0f40a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:49 +0000
Subject: [PATCH 109/113] fix: copying a FloatingBaseFDSystem without contact
 model dereferenced a null pointer

---
 ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h b/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
index a17653a..528bb31 100644
--- a/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
+++ b/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
@@ -47,7 +47,9 @@ public:
 
     FloatingBaseFDSystem() : Base(), dynamics_(), eeContactModel_(nullptr) {}
     FloatingBaseFDSystem(const FloatingBaseFDSystem<RBDDynamics, QUAT_INTEGRATION, EE_ARE_CONTROL_INPUTS>& other)
-        : Base(other), dynamics_(other.dynamics_), eeContactModel_(other.eeContactModel_->clone())
+        : Base(other),
+          dynamics_(other.dynamics_),
+          eeContactModel_(other.eeContactModel_ ? other.eeContactModel_->clone() : nullptr)
     {
     }
 
-- 
2.43.0


From 5ce722b59a892f2f4592e22eb7acac69b6a3906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:49 +0000
Subject: [PATCH 110/113] fix: contact forces of inactive end-effectors were
 uninitialised

---
 ct_rbd/include/ct/rbd/physics/EEContactModel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_rbd/include/ct/rbd/physics/EEContactModel.h b/ct_rbd/include/ct/rbd/physics/EEContactModel.h
index e5fb898..4c927c3 100644
--- a/ct_rbd/include/ct/rbd/physics/EEContactModel.h
+++ b/ct_rbd/include/ct/rbd/physics/EEContactModel.h
@@ -147,6 +147,7 @@ public:
     EEForcesLinear computeContactForces(const RBDState<NJOINTS, SCALAR>& state)
     {
         EEForcesLinear eeForces;
+        eeForces.fill(EEForceLinear::Zero());
 
         for (size_t i = 0; i < NUM_EE; i++)
         {
-- 
2.43.0


From 4054104f9cc3468718a8eeb71ca2077c3eb79c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:49 +0000
Subject: [PATCH 111/113] fix: FixBaseFDSystemSymplectic ignored the positions
 and velocities updated by symplectic integrators

---
 ct_rbd/include/ct/rbd/systems/FixBaseFDSystemSymplectic.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystemSymplectic.h b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystemSymplectic.h
index 57eb77e..80a65fd 100644
--- a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystemSymplectic.h
+++ b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystemSymplectic.h
@@ -120,6 +120,7 @@ public:
 
         // full joint state vector
         typename RBDDynamics::JointState_t jState = jointStateFromVector(x);
+        jState.getVelocities() = v.template head<RBDDynamics::NJOINTS>();
 
         // compute he pDot for the actuator part
         computeActuatorPdot<ACT_STATE_DIM>(jState, x, v, controlIn, pDot);
@@ -171,6 +172,7 @@ public:
 
         // extract the current RBD joint state from the state vector // todo make method to get joint state
         typename RBDDynamics::JointState_t jState = jointStateFromVector(x);
+        jState.getPositions() = p.template head<RBDDynamics::NJOINTS>();
 
         computeActuatorVdot<ACT_STATE_DIM>(jState, x, p, controlIn, vDot, control);
 
-- 
2.43.0


From 3e343165124fccf51efe5c0ca93c1750c3d428da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:49 +0000
Subject: [PATCH 112/113] fix: FixBaseFDSystem with actuators and end-effector
 inputs, and consistent actuator states, did not compile

---
 ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
index 1c3e434..a39a834 100644
--- a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
+++ b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
@@ -135,8 +135,7 @@ public:
         control_vector_t& controlOut)
     {
         // get references to the current actuator position, velocity and input
-        const Eigen::Ref<const typename control_vector_t::Base> actControlIn =
-            controlIn.template topRows<BASE::NJOINTS>();
+        const core::ControlVector<BASE::NJOINTS, SCALAR> actControlIn = controlIn.template topRows<BASE::NJOINTS>();
 
         actuator_state_vector_t actStateDerivative;  // todo use vector block for this?
         actuatorDynamics_->computeActuatorDynamics(
@@ -145,7 +144,8 @@ public:
         stateDerivative.template tail<ACTUATOR_STATE_DIM>() = actStateDerivative;
 
         // overwrite control with actuator control output as a function of current robot and actuator states
-        controlOut = actuatorDynamics_->computeControlOutput(robotState.joints(), robotState.actuatorState());
+        controlOut.template topRows<BASE::NJOINTS>() =
+            actuatorDynamics_->computeControlOutput(robotState.joints(), robotState.actuatorState());
     }
 
     //! do nothing if actuators disabled
@@ -181,7 +181,7 @@ public:
     typename std::enable_if<(ACT_STATE_DIM > 0), T>::type computeConsistentActuatorState(
         const JointState<BASE::NJOINTS, SCALAR>& jStateRef)
     {
-        const ct::core::ControlVector<BASE::NJOINTS> torqueRef = computeIDTorques(jStateRef);
+        const ct::core::ControlVector<BASE::NJOINTS> torqueRef = this->computeIDTorques(jStateRef);
         return computeConsistentActuatorState(jStateRef, torqueRef);
     }
 
-- 
2.43.0


From 9c3e2b28c42f3b7f18b8bff61b1ef6916e132f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 113/113] fix: ActuatorDynamicsSymplectic and copies of systems
 using it did not compile

---
 .../include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h b/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
index aba8bd0..ec758db 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
@@ -35,7 +35,7 @@ public:
 
     virtual ~ActuatorDynamicsSymplectic(){};
 
-    virtual ActuatorDynamicsSymplectic<NJOINTS, ACT_STATE_DIMS, SCALAR>* clone() const override = 0;
+    virtual ActuatorDynamicsSymplectic<NJOINTS, ACT_STATE_DIMS, SCALAR>* clone() const = 0;
 
     virtual void computePdot(const JointState<NJOINTS, SCALAR>& robotJointState,
         const act_state_vector_t& x,
-- 
2.43.0

