From cccd8d1adb5305baedf6c9bc8522913a8eec9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:06 +0000
Subject: [PATCH 001/113] fix: Interpolation::findIndex must not cache index -1
 when called on an empty time array

---
 ct_core/include/ct/core/common/Interpolation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_core/include/ct/core/common/Interpolation.h b/ct_core/include/ct/core/common/Interpolation.h
index 98dd000..abf1a4a 100644
--- a/ct_core/include/ct/core/common/Interpolation.h
+++ b/ct_core/include/ct/core/common/Interpolation.h
@@ -118,6 +118,9 @@ public:
     //! find an index corresponding to a certain inquiry time
     int findIndex(const tpl::TimeArray<SCALAR>& timeArray, const SCALAR& enquiryTime)
     {
+        if (timeArray.size() == 0)
+            throw std::runtime_error("Interpolation.h : TimeArray is size 0.");
+
         int index = -1;
 
         index_ = std::min(index_, (int)timeArray.size() - 1);
-- 
2.43.0


From 859ef493c932a52753b67fb4d0594474ac88159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:20 +0000
Subject: [PATCH 002/113] fix: LTI systems: (un)compilable
 controllability/observability tests, observability matrix written out of
 bounds

---
 .../systems/continuous_time/linear/LTISystem.h | 18 +++++++++---------
 .../discrete_time/linear/DiscreteLTISystem.h   | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index d69c064..7a3c7e0 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -127,12 +127,12 @@ public:
 	 */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -158,14 +158,14 @@ public:
 	 * Computes the observability matrix to assess observability. See isObservable() for the full test.
 	 * @param O observability matrix
 	 */
-    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
+    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
+                O.template block<STATE_DIM, STATE_DIM>((i - 1) * STATE_DIM, 0) * A_;
         }
     }
 
@@ -177,10 +177,10 @@ public:
 	 */
     bool isObservable()
     {
-        Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM> O;
+        Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM> O;
         computeObservabilityMatrix(O);
 
-        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>> LUdecomposition(O);
+        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>> LUdecomposition(O);
         return LUdecomposition.rank() == STATE_DIM;
     }
 
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index 36ffa3e..faf5dbd 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -109,12 +109,12 @@ public:
      */
     void computeControllabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * CONTROL_DIM>& CO)
     {
-        CO.block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
+        CO.template block<STATE_DIM, CONTROL_DIM>(0, 0) = B_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            CO.block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
-                A_ * CO.block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
+            CO.template block<STATE_DIM, CONTROL_DIM>(0, i * CONTROL_DIM) =
+                A_ * CO.template block<STATE_DIM, CONTROL_DIM>(0, (i - 1) * CONTROL_DIM);
         }
     }
 
@@ -170,14 +170,14 @@ public:
      * isObservable() for the full test.
      * @param O observability matrix
      */
-    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>& O)
+    void computeObservabilityMatrix(Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>& O)
     {
-        O.block<STATE_DIM, STATE_DIM>(0, 0) = C_;
+        O.template block<STATE_DIM, STATE_DIM>(0, 0) = C_;
 
         for (size_t i = 1; i < STATE_DIM; i++)
         {
-            O.block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
-                O.block<STATE_DIM, STATE_DIM>(0, (i - 1) * STATE_DIM) * A_;
+            O.template block<STATE_DIM, STATE_DIM>(i * STATE_DIM, 0) =
+                O.template block<STATE_DIM, STATE_DIM>((i - 1) * STATE_DIM, 0) * A_;
         }
     }
 
@@ -220,10 +220,10 @@ public:
      */
     bool isObservable()
     {
-        Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM> O;
+        Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM> O;
         computeObservabilityMatrix(O);
 
-        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM, STATE_DIM * STATE_DIM>> LUdecomposition(O);
+        Eigen::FullPivLU<Eigen::Matrix<double, STATE_DIM * STATE_DIM, STATE_DIM>> LUdecomposition(O);
         return LUdecomposition.rank() == STATE_DIM;
     }
 
-- 
2.43.0


From f9008c168121b655ff2aa8f627f718392caf4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:21 +0000
Subject: [PATCH 003/113] fix: DiscreteLTISystem was abstract (getAandB not
 implemented) and could not be instantiated

---
 .../discrete_time/linear/DiscreteLTISystem.h        | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index faf5dbd..78186a1 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -66,6 +66,19 @@ public:
     Eigen::Matrix<double, STATE_DIM, STATE_DIM>& C() { return C_; }
     //! get D matrix
     Eigen::Matrix<double, STATE_DIM, CONTROL_DIM>& D() { return D_; }
+    //! get the (constant) linear system matrices
+    using DiscreteLinearSystem<STATE_DIM, CONTROL_DIM>::getAandB;
+    void getAandB(const StateVector<STATE_DIM>& x,
+        const ControlVector<CONTROL_DIM>& u,
+        const StateVector<STATE_DIM>& x_next,
+        const int n,
+        size_t subSteps,
+        StateMatrix<STATE_DIM>& A,
+        StateControlMatrix<STATE_DIM, CONTROL_DIM>& B) override
+    {
+        A = A_;
+        B = B_;
+    }
     //! computes the system dynamics
     /*!
      * Computes \f$ x_{n+1} = Ax_n + Bu_n \f$
-- 
2.43.0


From b196b7af7af88ba330906592a19bfe6d689d96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:21 +0000
Subject: [PATCH 004/113] fix: SecondOrderSystem damping ratio of the
 mass-spring-damper constructor is d/(2*sqrt(m*k))

---
 .../include/ct/core/systems/continuous_time/SecondOrderSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
index 64e0ec2..64c79fd 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
@@ -113,7 +113,7 @@ public:
         : ControlledSystem<2, 1>(controller),
           w_n_(std::sqrt(k / m)),
           w_n_square_(w_n_ * w_n_),
-          zeta_(d / (2.0 * m * k)),
+          zeta_(d / (2.0 * std::sqrt(m * k))),
           g_dc_(g_dc)
     {
     }
-- 
2.43.0


From e8eed332c6f1230ca9e356321b0aa0aaa1e8db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:21 +0000
Subject: [PATCH 005/113] fix: QuantizationNoise::noisify accessed its rest
 vector one past the end

---
 ct_core/include/ct/core/common/QuantizationNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/QuantizationNoise.h b/ct_core/include/ct/core/common/QuantizationNoise.h
index 5af2170..a8b0856 100644
--- a/ct_core/include/ct/core/common/QuantizationNoise.h
+++ b/ct_core/include/ct/core/common/QuantizationNoise.h
@@ -49,7 +49,7 @@ public:
     void noisify(double& value, size_t index = 0)
     {
         if (index >= quantizationRest_.size())
-            quantizationRest_.resize(index, 0);
+            quantizationRest_.resize(index + 1, 0);
 
         double currentValue = value + quantizationRest_[index];
         double nQuantsDouble = currentValue / quantizationInterval_;
-- 
2.43.0


From 4b7aa7873249fca4e90efbea057c8d7072aa4935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:21 +0000
Subject: [PATCH 006/113] fix: QuantizationNoise overflowed an int for values
 beyond 2^31 quantization intervals

---
 ct_core/include/ct/core/common/QuantizationNoise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/QuantizationNoise.h b/ct_core/include/ct/core/common/QuantizationNoise.h
index a8b0856..a0867e0 100644
--- a/ct_core/include/ct/core/common/QuantizationNoise.h
+++ b/ct_core/include/ct/core/common/QuantizationNoise.h
@@ -53,7 +53,7 @@ public:
 
         double currentValue = value + quantizationRest_[index];
         double nQuantsDouble = currentValue / quantizationInterval_;
-        int nQuants;
+        double nQuants;
 
         switch (quantizationMethod_)
         {
-- 
2.43.0


From 1675b1130b3ee788516b9ace6d44ff41bf8053b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:21 +0000
Subject: [PATCH 007/113] fix: RBFGaussActivation(mu, sigma) had an exponent of
 the wrong sign

---
 ct_core/include/ct/core/common/activations/RBFGaussActivation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
index b5a6e35..6c0e238 100644
--- a/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
+++ b/ct_core/include/ct/core/common/activations/RBFGaussActivation.h
@@ -18,7 +18,7 @@ public:
     RBFGaussActivation() {}
     RBFGaussActivation(const SCALAR mu, const SCALAR sigma) : mu_(mu), sigma_(sigma)
     {
-        sigma2inv_ = SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
+        sigma2inv_ = -SCALAR(1.0) / (SCALAR(2.0) * sigma_ * sigma_);
         factor_ = SCALAR(1.0) / sqrt(SCALAR(2.0) * M_PI * sigma_ * sigma_);
     }
     virtual ~RBFGaussActivation() {}
-- 
2.43.0


From 20c1d1b6044d9e61cd6aac76aa0373c5dffce21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:41 +0000
Subject: [PATCH 008/113] fix: PeriodicActivation constructed from parameters
 left its end time uninitialized

---
 .../include/ct/core/common/activations/PeriodicActivation.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
index 1157cce..d9345f3 100644
--- a/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/PeriodicActivation.hpp
@@ -22,7 +22,8 @@ public:
         : active_percentage_(active_percentage),
           period_(period),
           activation_offset_(activation_offset),
-          period_offset_(period_offset)
+          period_offset_(period_offset),
+          t_end_(std::numeric_limits<double>::max())
     {
     }
     virtual ~PeriodicActivation() {}
-- 
2.43.0


From 5ca10099c35623af622ba51d2ad24f7510acd959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:41 +0000
Subject: [PATCH 009/113] fix: BarrierActivation::loadConfigFile never
 activated the bounds it loaded

---
 .../include/ct/core/common/activations/BarrierActivation.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
index ddd2e60..8c05150 100644
--- a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
@@ -58,6 +58,7 @@ public:
         {
             // if there is no or a wrongly specified upper bound
             ub_ = pt.get<SCALAR>(termName + ".upper_bound");
+            ub_active_ = true;
         } catch (std::exception& e)
         {
             // we set the upper bound inactive
@@ -69,6 +70,7 @@ public:
         {
             // if there is no or a wrongly specified lower bound
             lb_ = pt.get<SCALAR>(termName + ".lower_bound");
+            lb_active_ = true;
         } catch (std::exception& e)
         {
             // we set the lower bound inactive
-- 
2.43.0


From 2d2d4451b3c1a726c7ffcba8687cffd04e5986da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:42 +0000
Subject: [PATCH 010/113] fix: BarrierActivation returned NaN far from an
 inactive bound (0 * inf)

---
 .../ct/core/common/activations/BarrierActivation.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
index 8c05150..f9f5778 100644
--- a/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
+++ b/ct_core/include/ct/core/common/activations/BarrierActivation.hpp
@@ -119,20 +119,20 @@ public:
     //! compute activation multiplier based on scalar input
     virtual SCALAR computeActivation(const SCALAR x) override
     {
-        return (SCALAR)ub_active_ * TRAIT::exp(alpha_ * (x - ub_)) +
-               (SCALAR)lb_active_ * TRAIT::exp(alpha_ * (lb_ - x));
+        return (ub_active_ ? SCALAR(TRAIT::exp(alpha_ * (x - ub_))) : SCALAR(0.0)) +
+               (lb_active_ ? SCALAR(TRAIT::exp(alpha_ * (lb_ - x))) : SCALAR(0.0));
     }
     //! first order derivative of this activation
     virtual SCALAR firstOrderDerivative(const SCALAR x) override
     {
-        return (SCALAR)ub_active_ * alpha_ * TRAIT::exp(alpha_ * (x - ub_)) -
-               (SCALAR)lb_active_ * alpha_ * TRAIT::exp(alpha_ * (lb_ - x));
+        return (ub_active_ ? SCALAR(alpha_ * TRAIT::exp(alpha_ * (x - ub_))) : SCALAR(0.0)) -
+               (lb_active_ ? SCALAR(alpha_ * TRAIT::exp(alpha_ * (lb_ - x))) : SCALAR(0.0));
     }
     //! second order derivative of this activation
     virtual SCALAR secondOrderDerivative(const SCALAR x)
     {
-        return (SCALAR)ub_active_ * alpha_ * alpha_ * TRAIT::exp(alpha_ * (x - ub_)) +
-               (SCALAR)lb_active_ * alpha_ * alpha_ * TRAIT::exp(alpha_ * (lb_ - x));
+        return (ub_active_ ? SCALAR(alpha_ * alpha_ * TRAIT::exp(alpha_ * (x - ub_))) : SCALAR(0.0)) +
+               (lb_active_ ? SCALAR(alpha_ * alpha_ * TRAIT::exp(alpha_ * (lb_ - x))) : SCALAR(0.0));
     }
     //! print to console
     virtual void printInfo()
-- 
2.43.0


From 74b5e94e2810dfe3ba4cc82699cd9dcc564b8357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:19 +0000
Subject: [PATCH 011/113] fix: Integrator::changeIntegrationType silently kept
 the old stepper for an unsupported type

---
 ct_core/include/ct/core/integration/Integrator-impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ct_core/include/ct/core/integration/Integrator-impl.h b/ct_core/include/ct/core/integration/Integrator-impl.h
index 1307886..0d55cda 100644
--- a/ct_core/include/ct/core/integration/Integrator-impl.h
+++ b/ct_core/include/ct/core/integration/Integrator-impl.h
@@ -32,11 +32,17 @@ Integrator<STATE_DIM, SCALAR>::Integrator(const std::shared_ptr<System<STATE_DIM
 template <size_t STATE_DIM, typename SCALAR>
 void Integrator<STATE_DIM, SCALAR>::changeIntegrationType(const IntegrationType& intType)
 {
+    auto previousStepper = integratorStepper_;
+    integratorStepper_.reset();
+
     initializeCTSteppers(intType);
     initializeAdaptiveSteppers(intType);
     initializeODEIntSteppers(intType);
     if (!integratorStepper_)
+    {
+        integratorStepper_ = previousStepper;
         throw std::runtime_error("Unknown integration type");
+    }
 }
 
 
-- 
2.43.0


From b683cd56e5073c4d5660ba9d8eecccf028c461cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:19 +0000
Subject: [PATCH 012/113] fix: Integrator::setApadativeErrorTolerances had no
 effect on the adaptive steppers

---
 .../ct/core/integration/internal/StepperBase.h       |  2 +-
 .../ct/core/integration/internal/SteppersODEInt.h    | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/internal/StepperBase.h b/ct_core/include/ct/core/integration/internal/StepperBase.h
index ba57e3c..ccd9400 100644
--- a/ct_core/include/ct/core/integration/internal/StepperBase.h
+++ b/ct_core/include/ct/core/integration/internal/StepperBase.h
@@ -171,7 +171,7 @@ public:
      * @param[in]  absErrTol  The absolute error tolerance
      * @param[in]  relErrTol  The relative error tolerance
      */
-    void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol)
     {
         absErrTol_ = absErrTol;
         relErrTol_ = relErrTol;
diff --git a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
index 731baa6..10e14b8 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersODEInt.h
@@ -118,6 +118,12 @@ public:
         stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperDense_ = boost::numeric::odeint::make_dense_output(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
@@ -175,6 +181,12 @@ public:
         stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
     }
 
+    virtual void setAdaptiveErrorTolerances(const SCALAR absErrTol, const SCALAR& relErrTol) override
+    {
+        StepperBase<MATRIX, SCALAR>::setAdaptiveErrorTolerances(absErrTol, relErrTol);
+        stepperControlled_ = boost::numeric::odeint::make_controlled(this->absErrTol_, this->relErrTol_, stepper_);
+    }
+
     virtual void integrate_adaptive(const std::function<void(const MATRIX&, MATRIX&, SCALAR)>& rhs,
         MATRIX& state,
         const SCALAR& startTime,
-- 
2.43.0


From 161ce1225472457ce7927c2fe6af4301e083a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:59 +0000
Subject: [PATCH 013/113] fix: CT steppers did not observe the initial state,
 unlike every other stepper

---
 ct_core/include/ct/core/integration/internal/SteppersCT.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_core/include/ct/core/integration/internal/SteppersCT.h b/ct_core/include/ct/core/integration/internal/SteppersCT.h
index 0a3fb74..9a75084 100644
--- a/ct_core/include/ct/core/integration/internal/SteppersCT.h
+++ b/ct_core/include/ct/core/integration/internal/SteppersCT.h
@@ -47,6 +47,7 @@ public:
         SCALAR dt) override
     {
         SCALAR time = startTime;
+        observe(state, time);
 
         for (size_t i = 0; i < numSteps; ++i)
         {
-- 
2.43.0


From 4f960999a010d11bc288b8cefe6957f1c6b9c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:59 +0000
Subject: [PATCH 014/113] fix: Tustin approximation was missing the factor 1/2
 of the trapezoidal rule

---
 .../core/integration/sensitivity/SensitivityApproximation.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index 30ae591..ca4336f 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -150,10 +150,10 @@ public:
 
                 // front derivatives
                 linearSystem_->getDerivatives(Ac_front, Bc_front, x, u, n * settings_.dt_);
-                Ac_front *= settings_.dt_;
+                Ac_front *= 0.5 * settings_.dt_;
 
                 state_matrix_t Ac_back =
-                    settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
+                    0.5 * settings_.dt_ * linearSystem_->getDerivativeState(x_next, u, (n + 1) * settings_.dt_);
 
 
                 //! tustin approximation
-- 
2.43.0


From 2bf0b958e39072ef6e5fc039934327ff6661280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:59 +0000
Subject: [PATCH 015/113] fix: matrix exponential discretization returned
 NaN/inf input matrices for singular A

---
 .../sensitivity/SensitivityApproximation.h         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
index ca4336f..7cf53d4 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityApproximation.h
@@ -227,11 +227,15 @@ private:
         state_control_matrix_t Bc;
         linearSystem_->getDerivatives(Ac, Bc, x_n, u_n, n * settings_.dt_);
 
-        state_matrix_t Adt = settings_.dt_ * Ac;
-
-        A_discr.template topLeftCorner<STATE_DIM, STATE_DIM>() = Adt.exp();
-        B_discr.template topLeftCorner<STATE_DIM, CONTROL_DIM>() =
-            Ac.inverse() * (A_discr - state_matrix_t::Identity()) * Bc;
+        // exponential of the augmented system [Ac Bc; 0 0], which is well defined for singular Ac, too
+        typedef Eigen::Matrix<SCALAR, STATE_DIM + CONTROL_DIM, STATE_DIM + CONTROL_DIM> augmented_matrix_t;
+        augmented_matrix_t ABdt = augmented_matrix_t::Zero();
+        ABdt.template topLeftCorner<STATE_DIM, STATE_DIM>() = settings_.dt_ * Ac;
+        ABdt.template topRightCorner<STATE_DIM, CONTROL_DIM>() = settings_.dt_ * Bc;
+        const augmented_matrix_t ABexp = ABdt.exp();
+
+        A_discr = ABexp.template topLeftCorner<STATE_DIM, STATE_DIM>();
+        B_discr = ABexp.template topRightCorner<STATE_DIM, CONTROL_DIM>();
     }
 
 
-- 
2.43.0


From 2a2a7175869f79f9f2f29dfa109fcfa193bd0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:00 +0000
Subject: [PATCH 016/113] fix: SensitivityIntegrator evaluated the linear
 system at the wrong time for multiple substeps

---
 .../ct/core/integration/sensitivity/SensitivityIntegrator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
index d73e7fc..8a39e6c 100644
--- a/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
+++ b/ct_core/include/ct/core/integration/sensitivity/SensitivityIntegrator.h
@@ -144,7 +144,7 @@ public:
 
         for (size_t i = 0; i < numSteps; ++i)
         {
-            stepper_->do_step(dFdxDot_, AB, k * dt_, dt_);
+            stepper_->do_step(dFdxDot_, AB, (k * numSteps + i) * dt_, dt_);
         }
 
         A = AB.template leftCols<STATE_DIM>();
@@ -196,8 +196,8 @@ public:
 
         if (!timeVarying_)
         {
-            Aconst_ = linearSystem_->getDerivativeState(x, u, n * dt_);
-            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * dt_);
+            Aconst_ = linearSystem_->getDerivativeState(x, u, n * numSteps * dt_);
+            Bconst_ = linearSystem_->getDerivativeControl(x, u, n * numSteps * dt_);
         }
 
         integrateSensitivity(n, numSteps, A, B);
-- 
2.43.0


From 663c35abea871484cf872e3780366d1fa9e61dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:00 +0000
Subject: [PATCH 017/113] fix: IntegratorSymplectic recorded substeps with the
 state after and the time before the step, and never notified per-step event
 handlers

---
 .../ct/core/integration/IntegratorSymplectic-impl.h       | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 7137914..801f903 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -48,10 +48,12 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     {
         xCached_ = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
+        // the substep starts at (state, time), as for the non-symplectic integrators
+        observer_.observeInternal(state, time);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
         time += dt;
+        observer_.observe(state, time);
         stateTrajectory.push_back(state);
         timeTrajectory.push_back(time);
     }
@@ -72,10 +74,12 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     {
         xCached_ = state;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
+        // the substep starts at (state, time), as for the non-symplectic integrators
+        observer_.observeInternal(state, time);
         state.head(POS_DIM) = xPair.first;
         state.tail(VEL_DIM) = xPair.second;
-        observer_.observeInternal(state, time);
         time += dt;
+        observer_.observe(state, time);
     }
 }
 
-- 
2.43.0


From c9c81365a039e451e03368fd2600d3a891555efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 018/113] fix: symplectic integration evaluated the controller
 at t=0 for all steps and did not update the last control action

---
 .../integration/IntegratorSymplectic-impl.h   |  6 ++++--
 .../core/integration/IntegratorSymplectic.h   |  1 +
 .../continuous_time/SymplecticSystem.h        | 20 +++++++++----------
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
index 801f903..2a102b4 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic-impl.h
@@ -47,6 +47,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     for (size_t i = 0; i < numSteps; ++i)
     {
         xCached_ = state;
+        tCached_ = time;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
         // the substep starts at (state, time), as for the non-symplectic integrators
         observer_.observeInternal(state, time);
@@ -73,6 +74,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::integ
     for (size_t i = 0; i < numSteps; ++i)
     {
         xCached_ = state;
+        tCached_ = time;
         stepper_.do_step(std::make_pair(systemFunctionPosition_, systemFunctionVelocity_), xPair, time, dt);
         // the substep starts at (state, time), as for the non-symplectic integrators
         observer_.observeInternal(state, time);
@@ -97,7 +99,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::setup
         const StateVector<POS_DIM, SCALAR>& vState(static_cast<const StateVector<POS_DIM, SCALAR>&>(v));
         StateVector<POS_DIM, SCALAR>& dxdtState(static_cast<StateVector<POS_DIM, SCALAR>&>(dxdt));
         xCached_.template bottomRows<VEL_DIM>() = v;
-        systemSymplectic_->computePdot(xCached_, vState, dxdtState);
+        systemSymplectic_->computePdot(xCached_, vState, dxdtState, tCached_);
     };
 
     systemFunctionVelocity_ = [this](
@@ -105,7 +107,7 @@ void IntegratorSymplectic<POS_DIM, VEL_DIM, CONTROL_DIM, Stepper, SCALAR>::setup
         const StateVector<VEL_DIM, SCALAR>& xState(static_cast<const StateVector<VEL_DIM, SCALAR>&>(x));
         StateVector<VEL_DIM, SCALAR>& dvdtState(static_cast<StateVector<VEL_DIM, SCALAR>&>(dvdt));
         xCached_.template topRows<POS_DIM>() = x;
-        systemSymplectic_->computeVdot(xCached_, xState, dvdtState);
+        systemSymplectic_->computeVdot(xCached_, xState, dvdtState, tCached_);
     };
 }
 }
diff --git a/ct_core/include/ct/core/integration/IntegratorSymplectic.h b/ct_core/include/ct/core/integration/IntegratorSymplectic.h
index c63a03f..59119ce 100644
--- a/ct_core/include/ct/core/integration/IntegratorSymplectic.h
+++ b/ct_core/include/ct/core/integration/IntegratorSymplectic.h
@@ -103,6 +103,7 @@ private:
 	 */
     void setupSystem();
     StateVector<POS_DIM + VEL_DIM, SCALAR> xCached_;  //! The cached state. This will be used for the system function
+    SCALAR tCached_;  //! time at the beginning of the current step
 
     std::function<void(const Eigen::Matrix<SCALAR, POS_DIM, 1>&, Eigen::Matrix<SCALAR, POS_DIM, 1>&)>
         systemFunctionPosition_;  //! the position system function
diff --git a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
index 5233ea0..8a5231f 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SymplecticSystem.h
@@ -89,15 +89,15 @@ public:
 	 */
     void computePdot(const StateVector<POS_DIM + VEL_DIM, SCALAR>& x,
         const StateVector<VEL_DIM, SCALAR>& v,
-        StateVector<POS_DIM, SCALAR>& pDot)
+        StateVector<POS_DIM, SCALAR>& pDot,
+        const time_t& t = time_t(0.0))
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, t, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computePdot(x, v, controlAction, pDot);
+        computePdot(x, v, this->controlAction_, pDot);
     }
 
     /**
@@ -109,15 +109,15 @@ public:
 	 */
     void computeVdot(const StateVector<POS_DIM + VEL_DIM, SCALAR>& x,
         const StateVector<POS_DIM, SCALAR>& p,
-        StateVector<VEL_DIM, SCALAR>& vDot)
+        StateVector<VEL_DIM, SCALAR>& vDot,
+        const time_t& t = time_t(0.0))
     {
-        ControlVector<CONTROL_DIM, SCALAR> controlAction;
         if (this->controller_)
-            this->controller_->computeControl(x, 0.0, controlAction);
+            this->controller_->computeControl(x, t, this->controlAction_);
         else
-            controlAction.setZero();
+            this->controlAction_.setZero();
 
-        computeVdot(x, p, controlAction, vDot);
+        computeVdot(x, p, this->controlAction_, vDot);
     }
 
 
-- 
2.43.0


From de497b8bbd40003cb3e8cf0e5264f909d4c4ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:35 +0000
Subject: [PATCH 019/113] fix: ControlSimulator integrated the remainder of a
 control interval with a step in units of sim_dt instead of seconds

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 156f305..be8b17a 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -115,7 +115,7 @@ protected:
             {
                 integrator.integrate_n_steps(temp_x, sim_time, int(control_dt_ / sim_dt_), sim_dt_);
                 if (residue > 1e-6)
-                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue);
+                    integrator.integrate_n_steps(temp_x, sim_time + int(control_dt_ / sim_dt_) * sim_dt_, 1, residue * sim_dt_);
 
                 if (std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - wall_time).count() >=
                     control_dt_)
-- 
2.43.0


From 4d842a0f77573b5e24ab9f80ec40d72dee0e9571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:35 +0000
Subject: [PATCH 020/113] fix: ControlSimulator::simulate passed a dangling
 reference to its (possibly temporary) integration type to the simulation
 thread

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index be8b17a..846f9c6 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -81,7 +81,7 @@ public:
         stop_ = false;
         sim_start_time_ = std::chrono::high_resolution_clock::now();
         x_ = x0_;
-        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, std::ref(intType));
+        sys_thread_ = std::thread(&ControlSimulator::simulateSystem, this, duration, intType);
         control_thread_ = std::thread(&ControlSimulator::simulateController, this, duration);
     }
 
-- 
2.43.0


From 182af52fad6652726e08c4b6fe987e32f916c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:51 +0000
Subject: [PATCH 021/113] fix: ControlSimulator's copy constructor did not
 compile (system assigned to a controller pointer)

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 846f9c6..215079d 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -55,11 +55,11 @@ public:
 
     //! copy constructor
     ControlSimulator(const ControlSimulator& arg)
-        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(arg.stop_)
+        : sim_dt_(arg.sim_dt_), control_dt_(arg.control_dt_), x0_(arg.x0_), stop_(arg.stop_.load()), verbose_(arg.verbose_)
     {
         if (!arg.system_)
             return;
-        system_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.system_->clone());
+        system_ = std::shared_ptr<CONTROLLED_SYSTEM>(arg.system_->clone());
         if (arg.controller_)
         {
             controller_ = std::shared_ptr<Controller<STATE_DIM, CONTROL_DIM, SCALAR>>(arg.controller_->clone());
-- 
2.43.0


From f66fe0cace7014857ef737ea6ad84f89177c9841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:51 +0000
Subject: [PATCH 022/113] fix: copies of a DiscreteControlledSystem shared the
 controller of the original (copy constructor took a ControlledSystem)

---
 .../ct/core/systems/discrete_time/DiscreteControlledSystem.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
index 81c216c..cb90870 100644
--- a/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/DiscreteControlledSystem.h
@@ -68,7 +68,7 @@ public:
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(type), controller_(controller){};
 
     //! copy constructor
-    DiscreteControlledSystem(const ControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
+    DiscreteControlledSystem(const DiscreteControlledSystem<STATE_DIM, CONTROL_DIM, SCALAR>& arg)
         : DiscreteSystem<STATE_DIM, CONTROL_DIM, SCALAR>(arg)
     {
         if (arg.controller_)
-- 
2.43.0


From 0f2512076a010b348567d431d2205ff4d0a6bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:51 +0000
Subject: [PATCH 023/113] fix: copying a SystemDiscretizer dereferenced its own
 null system

---
 .../systems/discrete_time/SystemDiscretizer-impl.h     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
index 2aae2ae..2aa969a 100644
--- a/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
+++ b/ct_core/include/ct/core/systems/discrete_time/SystemDiscretizer-impl.h
@@ -56,9 +56,15 @@ SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::~SystemDiscreti
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
 SystemDiscretizer<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR>::SystemDiscretizer(const SystemDiscretizer& arg)
-    : dt_(arg.dt_), K_sim_(arg.K_sim_), dt_sim_(arg.dt_sim_), integratorType_(arg.integratorType_)
+    : Base(arg),
+      dt_(arg.dt_),
+      K_sim_(arg.K_sim_),
+      dt_sim_(arg.dt_sim_),
+      integratorType_(arg.integratorType_),
+      cont_constant_controller_(new ConstantController<STATE_DIM, CONTROL_DIM, SCALAR>())
 {
-    changeContinuousTimeSystem(ContinuousSystemPtr(cont_time_system_->clone()));
+    if (arg.cont_time_system_)
+        changeContinuousTimeSystem(arg.cont_time_system_);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR>
-- 
2.43.0


From bf1e0b60fbbbfbda0e4a6caac4648dcdf77f390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:03 +0000
Subject: [PATCH 024/113] fix: ControlledSystem constructed without controller
 left its last control action uninitialized

---
 .../include/ct/core/systems/continuous_time/ControlledSystem.h   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h b/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h
index 86eaec3..6a420fa 100644
--- a/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/ControlledSystem.h
@@ -59,6 +59,7 @@ public:
     ControlledSystem(const SYSTEM_TYPE& type = SYSTEM_TYPE::GENERAL)
         : System<STATE_DIM, SCALAR>(type), controller_(nullptr)
     {
+        controlAction_.setZero();
     }
 
     //! constructor
-- 
2.43.0


From d5d21a1e446b85e631b7c8954bb3c4cf3d6d4572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:03 +0000
Subject: [PATCH 025/113] fix: KillIntegrationEventHandler's flag, meant to be
 set from another thread, was a plain bool (data race)

---
 .../integration/EventHandlers/KillIntegrationEventHandler.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
index da97fa9..e7f5f1b 100644
--- a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
+++ b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
@@ -5,6 +5,7 @@ Licensed under the BSD-2 license (see LICENSE file in main directory)
 
 #pragma once
 
+#include <atomic>
 #include <ct/core/integration/EventHandler.h>
 
 namespace ct {
@@ -53,7 +54,7 @@ public:
     //! resets kill flag to false
     virtual void reset() override { resetEvent(); };
 private:
-    bool killIntegration_;  //! kill flag
+    std::atomic<bool> killIntegration_;  //! kill flag
 };
 
 }  // namespace core
-- 
2.43.0


From 09ea8082c2704d9a14e8b14a8e14a3e0d9a8e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:00 +0000
Subject: [PATCH 026/113] fix: KillIntegrationEventHandler could not be
 instantiated (its overrides did not match the EventHandler interface)

---
 .../integration/EventHandlers/KillIntegrationEventHandler.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
index e7f5f1b..9787919 100644
--- a/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
+++ b/ct_core/include/ct/core/integration/EventHandlers/KillIntegrationEventHandler.h
@@ -23,7 +23,7 @@ template <size_t STATE_DIM>
 class KillIntegrationEventHandler : public EventHandler<STATE_DIM>
 {
 public:
-    typedef Eigen::Matrix<double, STATE_DIM, 1> State_T;
+    typedef ct::core::StateVector<STATE_DIM> State_T;
 
     //! default constructor
     /*!
-- 
2.43.0


From 5d065518cb2c422c8f91b320d2d7d39f96b9726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:08 +0000
Subject: [PATCH 027/113] fix: adaptive integration multiplied absolute and
 relative error tolerance instead of adding them

---
 ct_core/include/ct/core/integration/eigenIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/integration/eigenIntegration.h b/ct_core/include/ct/core/integration/eigenIntegration.h
index 6bd13d5..2325892 100644
--- a/ct_core/include/ct/core/integration/eigenIntegration.h
+++ b/ct_core/include/ct/core/integration/eigenIntegration.h
@@ -40,7 +40,7 @@ inline Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtC
     const MatrixBase<D>& m)
 {
     Matrix<typename internal::traits<D>::Scalar, internal::traits<D>::RowsAtCompileTime, 1> result = m;
-    result *= s;
+    result.array() += s;
     return result;
 }
 
-- 
2.43.0


From 6bebe49cde93a68d9edeb58f1de20af3c783d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:04 +0000
Subject: [PATCH 028/113] fix: DerivativesNumDiff wrote into an unsized
 Jacobian when dimensions are dynamic

---
 ct_core/include/ct/core/math/DerivativesNumDiff.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_core/include/ct/core/math/DerivativesNumDiff.h b/ct_core/include/ct/core/math/DerivativesNumDiff.h
index a20eee3..0491616 100644
--- a/ct_core/include/ct/core/math/DerivativesNumDiff.h
+++ b/ct_core/include/ct/core/math/DerivativesNumDiff.h
@@ -90,6 +90,9 @@ public:
             // get evaluation of f(x,u)
             OUT_TYPE y_perturbed = f_(x_perturbed);
 
+            if (i == 0)
+                jac.resize(y_perturbed.rows(), x.rows());  // no-op for fixed-size types
+
             if (doubleSidedDerivative_)
             {
                 volatile double x_mh = x(i) - h;
-- 
2.43.0


From c61a0de62614dfce4c7954743cafe0f082356a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 029/113] fix: DerivativesNumDiff used the template keyword on
 a non-template member (rejected by clang)

---
 ct_core/include/ct/core/math/DerivativesNumDiff.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/math/DerivativesNumDiff.h b/ct_core/include/ct/core/math/DerivativesNumDiff.h
index 0491616..07202a7 100644
--- a/ct_core/include/ct/core/math/DerivativesNumDiff.h
+++ b/ct_core/include/ct/core/math/DerivativesNumDiff.h
@@ -102,11 +102,11 @@ public:
                 x_perturbed(i) = x_mh;
                 OUT_TYPE y_perturbed_low = f_(x_perturbed);
 
-                jac.template col(i) = (y_perturbed - y_perturbed_low) / (dxp + dxm);
+                jac.col(i) = (y_perturbed - y_perturbed_low) / (dxp + dxm);
             }
             else
             {
-                jac.template col(i) = (y_perturbed - y_ref) / dxp;
+                jac.col(i) = (y_perturbed - y_ref) / dxp;
             }
         }
 
-- 
2.43.0


From e98976937c131e56eecdb7f2e901bdd27e36ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:25 +0000
Subject: [PATCH 030/113] fix: default sparse constraint Jacobians were
 column-major while their sparsity pattern is row-major

---
 .../ct/optcon/constraint/term/ConstraintBase-impl.h       | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
index 9d85769..5ccc23a 100644
--- a/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/term/ConstraintBase-impl.h
@@ -103,7 +103,9 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparse(const state_
 {
     MatrixXs jacState = jacobianState(x, u, t);
 
-    VectorXs jac(Eigen::Map<VectorXs>(jacState.data(), jacState.rows() * jacState.cols()));
+    // the sparsity pattern of a dense block is row-major
+    const MatrixXs jacStateTransposed = jacState.transpose();
+    VectorXs jac(Eigen::Map<const VectorXs>(jacStateTransposed.data(), jacState.rows() * jacState.cols()));
 
     return jac;
 }
@@ -116,7 +118,9 @@ ConstraintBase<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianInputSparse(const state_
 {
     MatrixXs jacInput = jacobianInput(x, u, t);
 
-    VectorXs jac(Eigen::Map<VectorXs>(jacInput.data(), jacInput.rows() * jacInput.cols()));
+    // the sparsity pattern of a dense block is row-major
+    const MatrixXs jacInputTransposed = jacInput.transpose();
+    VectorXs jac(Eigen::Map<const VectorXs>(jacInputTransposed.data(), jacInput.rows() * jacInput.cols()));
     return jac;
 }
 
-- 
2.43.0


From 0aca3fc6f74e22f135be6ae2614cea917a245301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:25 +0000
Subject: [PATCH 031/113] fix: terminal state Jacobians of the analytical
 constraint container checked the intermediate initialization flag

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 237c492..11cbe99 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -190,7 +190,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::VectorXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateSparseTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
@@ -211,7 +211,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 typename ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::MatrixXs
 ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::jacobianStateTerminal()
 {
-    checkIntermediateConstraints();
+    checkTerminalConstraints();
 
     size_t count = 0;
     for (auto constraint : constraintsTerminal_)
-- 
2.43.0


From e06219ed6491a23727b885885c0f712b9b279ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:38 +0000
Subject: [PATCH 032/113] fix: ConstraintContainerAnalytical ignored the state,
 control and time given to its constructor

---
 .../ct/optcon/constraint/ConstraintContainerAnalytical-impl.h    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
index 11cbe99..e227891 100644
--- a/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/ConstraintContainerAnalytical-impl.h
@@ -18,6 +18,7 @@ ConstraintContainerAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::ConstraintContain
     const input_vector_t& u,
     const SCALAR& t)
 {
+    this->setCurrentStateAndControl(x, u, t);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From fe4ff71eadaa58768ea1790e916d6b58ec682d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:39 +0000
Subject: [PATCH 033/113] fix: switched constraint container evaluated terminal
 constraints at a stale state outside the final phase

---
 .../optcon/constraint/SwitchedLinearConstraintContainer-impl.h   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index 992e6c3..bdb8a28 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -218,6 +218,7 @@ void SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::update()
     auto mode = continuousModeSequence_.getPhaseFromTime(this->t_);
     activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.at(mode);
     activeLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
+    terminalLinearConstraintContainer_->setCurrentStateAndControl(this->x_, this->u_, this->t_);
 
     this->lowerBoundsIntermediate_ = activeLinearConstraintContainer_->getLowerBoundsIntermediate();
     this->upperBoundsIntermediate_ = activeLinearConstraintContainer_->getUpperBoundsIntermediate();
-- 
2.43.0


From 8879521d122e3361e4d91f5e5794613262990502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:39 +0000
Subject: [PATCH 034/113] fix: switched constraint container (and every copy of
 it) started with the first container instead of the active phase's one

---
 .../constraint/SwitchedLinearConstraintContainer-impl.h     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
index bdb8a28..5b8b4f0 100644
--- a/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
+++ b/ct_optcon/include/ct/optcon/constraint/SwitchedLinearConstraintContainer-impl.h
@@ -14,7 +14,8 @@ SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::SwitchedLinea
     const ModeSequence_t& continuousModeSequence)
     : switchedLinearConstraintContainers_(switchedLinearConstraintContainers),
       continuousModeSequence_(continuousModeSequence),
-      activeLinearConstraintContainer_(switchedLinearConstraintContainers.front()),
+      activeLinearConstraintContainer_(
+          switchedLinearConstraintContainers.at(continuousModeSequence.getPhaseFromTime(this->t_))),
       terminalLinearConstraintContainer_(switchedLinearConstraintContainers.at(continuousModeSequence.getFinalPhase()))
 {
 }
@@ -32,7 +33,8 @@ SwitchedLinearConstraintContainer<STATE_DIM, CONTROL_DIM, SCALAR>::SwitchedLinea
         switchedLinearConstraintContainers_.emplace_back(linearConstraintContainer->clone());
     }
 
-    activeLinearConstraintContainer_ = switchedLinearConstraintContainers_.front();
+    activeLinearConstraintContainer_ =
+        switchedLinearConstraintContainers_.at(continuousModeSequence_.getPhaseFromTime(this->t_));
     terminalLinearConstraintContainer_ =
         switchedLinearConstraintContainers_.at(continuousModeSequence_.getFinalPhase());
 }
-- 
2.43.0


From b67aa58096318f8ec661c2be8a4092dc8bde4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 035/113] fix: intermediate cost of CostFunctionAnalytical
 applied the time activation of each term twice

---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 3b79d02..9c2be86 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -317,7 +317,7 @@ SCALAR CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::evaluateIntermedia
         {
             continue;
         }
-        y += it->computeActivation(this->t_) * it->eval(this->x_, this->u_, this->t_);
+        y += it->eval(this->x_, this->u_, this->t_);
     }
 
     return y;
-- 
2.43.0


From 530ca694466450a6ca0bcb2623e99f2d149be7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 036/113] fix: numerical cost derivatives left the cost
 function at a perturbed point and applied the time shift twice

---
 .../ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
index 9c2be86..df208f6 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadratic-impl.hpp
@@ -179,6 +179,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    t_local -= this->t_shift_;  // setCurrentStateAndControl() adds the time shift again
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < STATE_DIM; ++i)
@@ -214,6 +215,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::stateDerivativeIntermedia
         }
     }
 
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
     return dFdx;
 }
 
@@ -226,6 +228,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
     control_vector_t u_local;
     SCALAR t_local;
     this->getCurrentStateAndControl(x_local, u_local, t_local);
+    t_local -= this->t_shift_;  // setCurrentStateAndControl() adds the time shift again
     SCALAR dxdt_ref = this->evaluateIntermediate();
 
     for (size_t i = 0; i < CONTROL_DIM; ++i)
@@ -262,6 +265,7 @@ CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>::controlDerivativeIntermed
         }
     }
 
+    this->setCurrentStateAndControl(x_local, u_local, t_local);
     return dFdu;
 }
 
-- 
2.43.0


From 127878c741435e74d7fbd1f7ec86d0ca1c4313a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 037/113] fix: copies of CostFunctionQuadraticSimple lost the
 current state, control, time and time shift

---
 .../optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index d85f5d0..7393241 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -42,7 +42,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::~CostFunctionQuadra
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadraticSimple(
     const CostFunctionQuadraticSimple& arg)
-    : x_deviation_(arg.x_deviation_),
+    : CostFunctionQuadratic<STATE_DIM, CONTROL_DIM, SCALAR>(arg),
+      x_deviation_(arg.x_deviation_),
       x_nominal_(arg.x_nominal_),
       Q_(arg.Q_),
       u_deviation_(arg.u_deviation_),
@@ -68,7 +69,7 @@ void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::setCurrentStat
 {
     this->x_ = x;
     this->u_ = u;
-    this->t_ = t;
+    this->t_ = t + this->t_shift_;
 
     this->x_deviation_ = x - x_nominal_;
     this->u_deviation_ = u - u_nominal_;
-- 
2.43.0


From fcf8592f062814d5456fe6510eeb87a62147055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 038/113] fix: CostFunctionQuadraticSimple ignored reference
 control updates and evaluated against the previous reference state

---
 .../CostFunctionQuadraticSimple-impl.hpp             | 12 ++++++++++--
 .../costfunction/CostFunctionQuadraticSimple.hpp     |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index 7393241..42217e6 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -30,8 +30,8 @@ CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::CostFunctionQuadrat
     const state_matrix_t& Q_final)
     : x_nominal_(x_nominal), Q_(Q), u_nominal_(u_nominal), R_(R), x_final_(x_final), Q_final_(Q_final)
 {
-    x_deviation_.setZero();
-    u_deviation_.setZero();
+    x_deviation_ = this->x_ - x_nominal_;
+    u_deviation_ = this->u_ - u_nominal_;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
@@ -144,6 +144,14 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceState(const state_vector_t& x_ref)
 {
     x_nominal_ = x_ref;
+    x_deviation_ = this->x_ - x_nominal_;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
+void CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updateReferenceControl(const control_vector_t& u_ref)
+{
+    u_nominal_ = u_ref;
+    u_deviation_ = this->u_ - u_nominal_;
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
index 2b472d2..6c2f629 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple.hpp
@@ -86,6 +86,8 @@ public:
 
     virtual void updateReferenceState(const state_vector_t& x_ref) override;
 
+    virtual void updateReferenceControl(const control_vector_t& u_ref) override;
+
     virtual void updateFinalState(const state_vector_t& x_final) override;
 
 protected:
-- 
2.43.0


From be6667c7c10a7ce9b54c133230280345b5bc78dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:24 +0000
Subject: [PATCH 039/113] fix: default-constructed (hence file-loaded)
 TermLinear had an uninitialized constant

---
 .../include/ct/optcon/costfunction/term/TermLinear-impl.hpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
index dfd971d..58bca5a 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermLinear-impl.hpp
@@ -30,8 +30,10 @@ TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::clone() const
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
-TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermLinear()
+TermLinear<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermLinear() : c_(SCALAR_EVAL(0.0))
 {
+    a_.setZero();
+    b_.setZero();
 }
 
 
-- 
2.43.0


From 43142c254078c9e21c7931d023e1ad1060708fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:24 +0000
Subject: [PATCH 040/113] fix: cost terms with a reference (mixed,
 quadratic-multiplicative, smooth-abs) ignored reference state and/or control
 updates

---
 .../optcon/costfunction/term/TermMixed-impl.hpp   |  8 ++++++++
 .../ct/optcon/costfunction/term/TermMixed.hpp     |  2 ++
 .../costfunction/term/TermQuadMult-impl.hpp       | 14 ++++++++++++++
 .../ct/optcon/costfunction/term/TermQuadMult.hpp  |  4 ++++
 .../costfunction/term/TermSmoothAbs-impl.hpp      | 15 +++++++++++++++
 .../ct/optcon/costfunction/term/TermSmoothAbs.hpp |  4 ++++
 6 files changed, 47 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index 8d1df09..67102a7 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -167,5 +167,13 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceStat
 {
     x_ref_ = newRefState;
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
index d9b3bd5..aeb7203 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed.hpp
@@ -85,6 +85,8 @@ public:
 
     void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
 
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
index 21f347f..607a5f8 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult-impl.hpp
@@ -185,5 +185,19 @@ void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(c
     }
 }
 
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermQuadMult<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
index b884402..2dd6a2f 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadMult.hpp
@@ -85,6 +85,10 @@ public:
 
     void loadConfigFile(const std::string& filename, const std::string& termName, bool verbose = false) override;
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 
 protected:
     template <typename SC>
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
index a78b9e6..4aaf5ac 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs-impl.hpp
@@ -158,5 +158,20 @@ void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
         std::cout << "\nRead alpha^2 as " << alphaSquared_ << std::endl;
     }
 }
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceState(
+    const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState)
+{
+    x_ref_ = newRefState;
+}
+
+template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
+void TermSmoothAbs<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::updateReferenceControl(
+    const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl)
+{
+    u_ref_ = newRefControl;
+}
+
 }  // namespace optcon
 }  // namespace ct
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
index c938096..be6bb5e 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermSmoothAbs.hpp
@@ -80,6 +80,10 @@ public:
         const std::string& termName,
         bool verbose = false) override;  // virtual function for data loading
 
+    void updateReferenceState(const Eigen::Matrix<SCALAR_EVAL, STATE_DIM, 1>& newRefState) override;
+
+    void updateReferenceControl(const Eigen::Matrix<SCALAR_EVAL, CONTROL_DIM, 1>& newRefControl) override;
+
 protected:
     template <typename SC>
     SC evalLocal(const Eigen::Matrix<SC, STATE_DIM, 1>& x, const Eigen::Matrix<SC, CONTROL_DIM, 1>& u, const SC& t);
-- 
2.43.0


From a1bc2cd85eb7ce11a9d451369f0cc4616b2806fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:24 +0000
Subject: [PATCH 041/113] fix: quadratic and mixed cost terms never read their
 name from file (wrong property tree path)

---
 .../include/ct/optcon/costfunction/term/TermMixed-impl.hpp      | 2 +-
 .../include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
index 67102a7..6a26ff7 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermMixed-impl.hpp
@@ -148,7 +148,7 @@ void TermMixed<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(cons
     } catch (...)
     {
     }
-    this->name_ = pt.get<std::string>(termName + ".name.", termName);
+    this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "P", P_, termName);
     loadMatrixCF(filename, "x_des", x_ref_, termName);
diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
index 827d088..582db55 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermQuadratic-impl.hpp
@@ -203,7 +203,7 @@ void TermQuadratic<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFile(
     } catch (...)
     {
     }
-    this->name_ = pt.get<std::string>(termName + ".name.", termName);
+    this->name_ = pt.get<std::string>(termName + ".name", termName);
 
     loadMatrixCF(filename, "Q", Q_, termName);
     loadMatrixCF(filename, "R", R_, termName);
-- 
2.43.0


From ca0b20bd9d20a002560b959b0ab321c87e1ea335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:24 +0000
Subject: [PATCH 042/113] fix: CostFunctionAnalytical read the term names from
 file but did not assign them

---
 .../ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp
index 1fc8c6a..f55f6b8 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionAnalytical-impl.hpp
@@ -86,6 +86,8 @@ void CostFunctionAnalytical<STATE_DIM, CONTROL_DIM, SCALAR>::loadFromConfigFile(
         else
         {
             addTerm(filename, currentTerm, currentTermType, term, this, verbose);
+            if (pt.get_child_optional(currentTerm + ".name"))
+                term->setName(termName);
         }
         currentTerm = "term" + std::to_string(++i);
     } while (pt.find(currentTerm) != pt.not_found());
-- 
2.43.0


From 1d8202f2ecec3402b9bbbfed99ee654d961ba89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:24 +0000
Subject: [PATCH 043/113] fix: loading a cost term with an unknown activation
 kind dereferenced a null pointer

---
 ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
index aa9f83b..da98679 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermBase-impl.hpp
@@ -160,13 +160,13 @@ void TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadTimeActivation(c
         boost::algorithm::to_lower(activationKind);
         std::shared_ptr<ct::core::tpl::ActivationBase<SCALAR_EVAL>> c_i;
         CT_LOADABLE_ACTIVATIONS(SCALAR_EVAL);
-        c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
         if (!c_i)
         {
             throw std::runtime_error("Activation type \"" + activationKind + "\" not supported");
         }
         else
         {
+            c_i->loadConfigFile(filename, termName + ".time_activation", verbose);
             c_i_ = c_i;
             if (verbose)
                 c_i_->printInfo();
-- 
2.43.0


From 38f0ee9d3b4324f509c040aa14e0958b105e1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:24 +0000
Subject: [PATCH 044/113] fix: TermStateBarrier evaluated an empty list of
 barriers (out of bounds) and its copies lost name and activation

---
 .../ct/optcon/costfunction/term/TermStateBarrier-impl.hpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
index 8728a9c..55eedd2 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier-impl.hpp
@@ -14,17 +14,19 @@ TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier(
     const state_vector_t& alpha)
     : ub_(ub), lb_(lb), alpha_(alpha)
 {
+    initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier()
     : ub_(state_vector_t::Zero()), lb_(state_vector_t::Zero()), alpha_(state_vector_t::Zero())
 {
+    initialize();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR_EVAL, typename SCALAR>
 TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::TermStateBarrier(const TermStateBarrier& arg)
-    : ub_(arg.ub_), lb_(arg.lb_), alpha_(arg.alpha_)
+    : TermBase<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>(arg), ub_(arg.ub_), lb_(arg.lb_), alpha_(arg.alpha_)
 {
     initialize();
 }
@@ -93,6 +95,7 @@ void TermStateBarrier<STATE_DIM, CONTROL_DIM, SCALAR_EVAL, SCALAR>::loadConfigFi
     alpha_ = Alpha.diagonal();
     ub_ = Ub.diagonal();
     lb_ = Lb.diagonal();
+    initialize();
 
     if (verbose)
     {
-- 
2.43.0


From 5eee50be897cda789bead609ccca24ddf30322c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:36 +0000
Subject: [PATCH 045/113] fix: TermStateBarrier could not be instantiated
 (barriers with the trait selector as trait)

---
 .../include/ct/optcon/costfunction/term/TermStateBarrier.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
index fac128b..158d399 100644
--- a/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/term/TermStateBarrier.hpp
@@ -68,7 +68,7 @@ protected:
     state_vector_t ub_;
     state_vector_t lb_;
 
-    std::vector<ct::core::tpl::BarrierActivation<SCALAR, ct::core::tpl::TraitSelector<SCALAR>>> barriers_;
+    std::vector<ct::core::tpl::BarrierActivation<SCALAR>> barriers_;
 };
 
 
-- 
2.43.0


From 7bb70a473cb3123ab60f86d2ff1d20c5f4333e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:03 +0000
Subject: [PATCH 046/113] fix: NLOC line search discarded the defects of the
 current trajectory when it rejected all step sizes

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 9ec54b6..e6d6c85 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -1049,8 +1049,6 @@ bool NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
                       (e_box_norm_ + e_gen_norm_) * settings_.meritFunctionRhoConstraints;
         lowestCostPrevious = lowestCost_;
 
-        resetDefects();
-
 
         if (settings_.lineSearchSettings.debugPrint)
         {
-- 
2.43.0


From 77f06152291691cd4d1c93d5946a709af13b834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:03 +0000
Subject: [PATCH 047/113] fix: NLOC accessed stages beyond the horizon when a
 shot covers the entire horizon or more

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 4 ++--
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp   | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index e6d6c85..796a08e 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -559,7 +559,7 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     StateVectorArray& d) const
 {
     //! compute the index where the next shot starts (respect total number of stages)
-    int k_next = std::min(K_, (int)k + settings_.K_shot);
+    int k_next = std::min(K_, (int)k + getNumStepsPerShot());
 
     if (k_next < K_)
     {
@@ -1659,7 +1659,7 @@ int NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::g
     if (settings_.isSingleShooting())
         return K_;
     else
-        return settings_.K_shot;
+        return std::min(K_, settings_.K_shot);  // the horizon may be shorter than a shot
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 45f183f..47239b2 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -220,6 +220,9 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
 	 */
+    if (lastIndex < firstIndex)
+        return;  // empty range, e.g. if the horizon is covered by a single shot
+
     if (lastIndex == firstIndex)
     {
 #ifdef DEBUG_PRINT_MP
@@ -316,6 +319,9 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 	 * In special cases, this function may be called for a single index, e.g. for the unconstrained GNMS real-time iteration scheme.
 	 * Then, don't wake up workers, but do single-threaded computation for that single index, and return.
 	 */
+    if (lastIndex < firstIndex)
+        return;  // empty range, e.g. if the horizon is covered by a single shot
+
     if (lastIndex == firstIndex)
     {
 #ifdef DEBUG_PRINT_MP
-- 
2.43.0


From 64028ca76cb8a959b72c88713378852b3b5f42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:03 +0000
Subject: [PATCH 048/113] fix: NLOC solver kept the old time stamps when
 reconfigured with a different time step

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 796a08e..1986542 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -427,6 +427,8 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 
     settings_ = settings;
 
+    t_ = TimeArray(settings_.dt, K_ + 1, 0.0);  // the time step may have changed
+
     reset();
 
     configured_ = true;
-- 
2.43.0


From 250893c66f232b61ddd26e9ab9397d4e3e314fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:03 +0000
Subject: [PATCH 049/113] fix: GNRiccatiSolver(N) compared the new size with an
 uninitialized member

---
 ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 8f90f0c..6a63e6e 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -19,7 +19,7 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N)
+GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(int N) : N_(-1)
 {
     changeNumberOfStages(N);
 }
-- 
2.43.0


From aaca330118916bcd6bb66ccf9537648b69641bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 050/113] fix: multi-threaded NLOC line search let a shorter
 accepted step replace a longer one

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 47239b2..71035ed 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -513,7 +513,8 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         bool stepAccepted =
             this->acceptStep(alpha, intermediateCost, finalCost, defectNorm, e_box_norm, e_gen_norm, lowestCostPrevious_, cost);
 
-        if (stepAccepted)
+        // only a longer step than the best one so far replaces it (threads finish in any order)
+        if (stepAccepted && alphaExp < alphaExpBest_)
         {
             // make sure we do not alter an existing result
             if (alphaBestFound_)
-- 
2.43.0


From 4f63ac5d494f918041b99eef06e7c7c528a719fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:10 +0000
Subject: [PATCH 051/113] fix: multi-threaded NLOC backend lost wake-ups, ran
 stale tasks and let stragglers race with the next phase

---
 .../ct/optcon/nloc/NLOCBackendMP-impl.hpp     | 113 +++++-------------
 .../include/ct/optcon/nloc/NLOCBackendMP.hpp  |  18 +--
 2 files changed, 38 insertions(+), 93 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
index 71035ed..7f71484 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP-impl.hpp
@@ -46,8 +46,12 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::st
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::shutdownRoutine()
 {
-    workersActive_ = false;
-    workerTask_ = SHUTDOWN;
+    {
+        std::lock_guard<std::mutex> lock(workerWakeUpMutex_);
+        workersActive_ = false;
+        workerTask_ = SHUTDOWN;
+        taskCount_++;
+    }
     workerWakeUpCondition_.notify_all();
 
 #ifdef DEBUG_PRINT_MP
@@ -75,52 +79,22 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
 
     // local variables
     int workerTask_local = IDLE;
-    size_t uniqueProcessID = 0;
-    size_t iteration_local = this->iteration_;
-    size_t lqpCounter_local = this->lqpCounter_;
-
+    size_t taskCount_local = 0;
 
     while (workersActive_)
     {
-        workerTask_local = workerTask_.load();
-        iteration_local = this->iteration_;
-        lqpCounter_local = this->lqpCounter_;
-
-#ifdef DEBUG_PRINT_MP
-        printString("[Thread " + std::to_string(threadId) + "]: previous procId: " + std::to_string(uniqueProcessID) +
-                    ", current procId: " +
-                    std::to_string(generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local)));
-#endif
-
-
-        /*!
-         * We want to put the worker to sleep if
-         * - the workerTask_ is IDLE
-         * - or we are finished but workerTask_ is not yet reset, thus the process ID is still the same
-         * */
-        if (workerTask_local == IDLE ||
-            uniqueProcessID == generateUniqueProcessID(iteration_local, (int)workerTask_local, lqpCounter_local))
         {
+            // sleep until there is a task which this worker has not taken part in yet
 #ifdef DEBUG_PRINT_MP
             printString("[Thread " + std::to_string(threadId) + "]: going to sleep !");
 #endif
-
-            // sleep until the state is not IDLE any more and we have a different process ID than before
             std::unique_lock<std::mutex> waitLock(workerWakeUpMutex_);
-            while (workerTask_ == IDLE || (uniqueProcessID == generateUniqueProcessID(this->iteration_,
-                                                                  (int)workerTask_.load(), this->lqpCounter_)))
-            {
-                workerWakeUpCondition_.wait(waitLock);
-            }
-            waitLock.unlock();
-
+            workerWakeUpCondition_.wait(waitLock, [&] { return taskCount_ != taskCount_local; });
+            taskCount_local = taskCount_;
             workerTask_local = workerTask_.load();
-            iteration_local = this->iteration_;
-            lqpCounter_local = this->lqpCounter_;
-
 #ifdef DEBUG_PRINT_MP
             printString("[Thread " + std::to_string(threadId) + "]: woke up !");
-#endif  // DEBUG_PRINT_MP
+#endif
         }
 
         if (!workersActive_)
@@ -140,7 +114,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now busy with LINE_SEARCH !");
 #endif  // DEBUG_PRINT_MP
                 lineSearchWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, LINE_SEARCH, lqpCounter_local);
                 break;
             }
             case ROLLOUT_SHOTS:
@@ -149,7 +122,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing shot rollouts !");
 #endif  // DEBUG_PRINT_MP
                 rolloutShotWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, ROLLOUT_SHOTS, lqpCounter_local);
                 break;
             }
             case COMPUTE_LQ_PROBLEM:
@@ -158,7 +130,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 printString("[Thread " + std::to_string(threadId) + "]: now doing LQ approximation !");
 #endif  // DEBUG_PRINT_MP
                 computeLQProblemWorker(threadId);
-                uniqueProcessID = generateUniqueProcessID(iteration_local, COMPUTE_LQ_PROBLEM, lqpCounter_local);
                 break;
             }
             case SHUTDOWN:
@@ -182,6 +153,13 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::th
                 break;
             }
         }
+
+        // report that this worker has finished its part of the task
+        {
+            std::lock_guard<std::mutex> lock(workerWakeUpMutex_);
+            workersBusy_--;
+        }
+        workersDoneCondition_.notify_one();
     }
 
 #ifdef DEBUG_PRINT_MP
@@ -200,6 +178,8 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::la
 
     workersActive_ = true;
     workerTask_ = IDLE;
+    taskCount_ = 0;
+    workersBusy_ = 0;
 
     for (int i = 0; i < (int)this->settings_.nThreads; i++)
     {
@@ -244,24 +224,16 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 #endif  //DEBUG_PRINT_MP
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Waking up workers to do LQ approximation.");
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = COMPUTE_LQ_PROBLEM;
-    workerWakeUpCondition_.notify_all();
-
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Will sleep now until done with LQ approximation.");
 #endif  //DEBUG_PRINT_MP
-
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runTask(COMPUTE_LQ_PROBLEM);
 #ifdef DEBUG_PRINT_MP
     printString("[MP]: Woke up again, should have computed LQ approximation now.");
 #endif  //DEBUG_PRINT_MP
@@ -289,9 +261,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
                             std::to_string(KMax_) + " and KMin_ is " + std::to_string(KMin_));
 #endif
 
-            //kCompleted_++;
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -305,8 +274,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::co
 
         if (this->generalConstraints_[threadId] != nullptr)
             this->computeLinearizedConstraints(threadId, KMax_ - k);  // linearize constraints backwards
-
-        kCompleted_++;
     }
 }
 
@@ -346,7 +313,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
 
     kTaken_ = 0;
-    kCompleted_ = 0;
     KMax_ = lastIndex;
     KMin_ = firstIndex;
 
@@ -354,17 +320,10 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers to do shot rollouts." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = ROLLOUT_SHOTS;
-    workerWakeUpCondition_.notify_all();
-
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Will sleep now until we have rolled out all shots." << std::endl;
 #endif  //DEBUG_PRINT_MP
-
-    std::unique_lock<std::mutex> waitLock(kCompletedMutex_);
-    kCompletedCondition_.wait(waitLock, [this] { return kCompleted_.load() > KMax_ - KMin_; });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runTask(ROLLOUT_SHOTS);
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have rolled out all shots now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -385,8 +344,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
         if (k > KMax_ - KMin_)
         {
-            if (kCompleted_.load() > KMax_ - KMin_)
-                kCompletedCondition_.notify_all();
             return;
         }
 
@@ -405,8 +362,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::ro
 
             this->computeSingleDefect(kShot, this->x_, this->xShot_, this->d_);
         }
-
-        kCompleted_++;
     }
 }
 
@@ -427,16 +382,10 @@ SCALAR NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Waking up workers." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    workerTask_ = LINE_SEARCH;
-    workerWakeUpCondition_.notify_all();
-
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Will sleep now until done line search." << std::endl;
 #endif  //DEBUG_PRINT_MP
-    std::unique_lock<std::mutex> waitLock(alphaBestFoundMutex_);
-    alphaBestFoundCondition_.wait(waitLock, [this] { return alphaBestFound_.load(); });
-    waitLock.unlock();
-    workerTask_ = IDLE;
+    runTask(LINE_SEARCH);
 #ifdef DEBUG_PRINT_MP
     std::cout << "[MP]: Woke up again, should have results now." << std::endl;
 #endif  //DEBUG_PRINT_MP
@@ -584,7 +533,6 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
         if (allPreviousAlphasProcessed)
         {
             alphaBestFound_ = true;
-            alphaBestFoundCondition_.notify_all();
         }
 
         lineSearchResultMutex_.unlock();
@@ -592,14 +540,19 @@ void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::li
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-size_t NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::generateUniqueProcessID(
-    const size_t& iterateNo,
-    const int workerState,
-    const size_t resetCount)
+void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::runTask(int task)
 {
-    return (10e12 * (resetCount + 1) + 10e6 * (workerState + 1) + iterateNo + 1);
+    std::unique_lock<std::mutex> lock(workerWakeUpMutex_);
+    workerTask_ = task;
+    workersBusy_ = workerThreads_.size();
+    taskCount_++;
+    workerWakeUpCondition_.notify_all();
+
+    workersDoneCondition_.wait(lock, [this] { return workersBusy_ == 0; });
+    workerTask_ = IDLE;
 }
 
+
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
 void NLOCBackendMP<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::printString(const std::string& text)
 {
diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
index 8d2d405..a3ecded 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendMP.hpp
@@ -97,11 +97,8 @@ private:
     //! rolls out a shot and computes the defect
     void rolloutShotWorker(size_t threadId);
 
-    /*! heuristic that generates a unique id for a process, such that we can manage the tasks.
-	 * Generates a unique identifiers for task, iteration:
-	 * @todo replace by proper hash
-	 * */
-    size_t generateUniqueProcessID(const size_t& iterateNo, const int workerState, const size_t resetCount);
+    //! let all workers take part in a task and return once every one of them has finished
+    void runTask(int task);
 
     //! wrapper method for nice debug printing
     void printString(const std::string& text);
@@ -113,15 +110,11 @@ private:
     std::mutex workerWakeUpMutex_;
     std::condition_variable workerWakeUpCondition_;
 
-    std::mutex kCompletedMutex_;
-    std::condition_variable kCompletedCondition_;
-
-    std::mutex kCompletedMutexCost_;
-    std::condition_variable kCompletedConditionCost_;
+    std::condition_variable workersDoneCondition_;
+    size_t taskCount_;    //! number of tasks issued so far, protected by workerWakeUpMutex_
+    size_t workersBusy_;  //! workers that did not finish the current task, protected by workerWakeUpMutex_
 
     std::mutex lineSearchResultMutex_;
-    std::mutex alphaBestFoundMutex_;
-    std::condition_variable alphaBestFoundCondition_;
 
     std::atomic_size_t alphaTaken_;
     size_t alphaMax_;
@@ -131,7 +124,6 @@ private:
     std::vector<size_t> alphaProcessed_;
 
     std::atomic_size_t kTaken_;
-    std::atomic_size_t kCompleted_;
 
     size_t KMax_;
     size_t KMin_;
-- 
2.43.0


From 63a68e0ed1020d82cdc6eb45edacd58dbce0bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:42 +0000
Subject: [PATCH 052/113] fix: NLOC solver kept the trajectory and defects of
 the old system after changeNonlinearSystem()

---
 ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
index 1986542..bf14604 100644
--- a/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
+++ b/ct_optcon/include/ct/optcon/nloc/NLOCBackendBase-impl.hpp
@@ -271,6 +271,7 @@ void NLOCBackendBase<STATE_DIM, CONTROL_DIM, P_DIM, V_DIM, SCALAR, CONTINUOUS>::
     const typename OptConProblem_t::DynamicsPtr_t& dyn)
 {
     systemInterface_->changeNonlinearSystem(dyn);
+    reset();  // since the dynamics changed, we have to start fresh, i.e. with a rollout
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t P_DIM, size_t V_DIM, typename SCALAR, bool CONTINUOUS>
-- 
2.43.0


From e1980b6e1a4b5c672edcef938fce7afdd97661e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:28 +0000
Subject: [PATCH 053/113] fix: GNRiccatiSolver computed wrong feedback gains
 for single-input systems with fixed Hessian correction (selfadjoint product
 with a row vector)

---
 ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 6a63e6e..7126dfc 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -220,7 +220,7 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
         Hi_inverse_[k] = -Hi_[k].template selfadjointView<Eigen::Lower>().llt().solve(ControlMatrix::Identity());
 
         // calculate FB gain update
-        this->L_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * G_[k];
+        this->L_[k].noalias() = Hi_inverse_[k] * G_[k];
 
         // calculate FF update
         this->lv_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * gv_[k];
-- 
2.43.0


From 2ae7563172450b2b10c20488bffbd0f90eca5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:28 +0000
Subject: [PATCH 054/113] fix: GNRiccatiSolver constructed with a problem
 accessed unallocated stage arrays

---
 ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 7126dfc..5341336 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -15,6 +15,8 @@ GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::GNRiccatiSolver(const std::shar
 {
     Eigen::initParallel();
     Eigen::setNbThreads(settings_.nThreadsEigen);
+    if (lqocProblem)
+        setProblemImpl(lqocProblem);
 }
 
 
-- 
2.43.0


From a36a7cab7819d7b397c31245fd51d1e4029ab5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:34 +0000
Subject: [PATCH 055/113] fix: GNRiccatiSolver compared the regularized inverse
 with an inverse it had not computed yet

---
 .../include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 5341336..656eb1b 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -187,6 +187,8 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
         else
             Hi_[k] = H_[k];
 
+        Hi_inverse_[k] = -Hi_[k].template selfadjointView<Eigen::Lower>().llt().solve(ControlMatrix::Identity());
+
         if (settings_.recordSmallestEigenvalue)
         {
             // compute eigenvalues with eigenvectors enabled
@@ -219,8 +221,6 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
             }
         }
 
-        Hi_inverse_[k] = -Hi_[k].template selfadjointView<Eigen::Lower>().llt().solve(ControlMatrix::Identity());
-
         // calculate FB gain update
         this->L_[k].noalias() = Hi_inverse_[k] * G_[k];
 
-- 
2.43.0


From 77022634576ba7a9bb9d1f585db5837391db4f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:52 +0000
Subject: [PATCH 056/113] fix: GNRiccatiSolver computed wrong gains for scalar
 states with several inputs (selfadjoint product with a vector)

---
 .../include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
index 656eb1b..c93cb2a 100644
--- a/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
+++ b/ct_optcon/include/ct/optcon/solver/lqp/GNRiccatiSolver-impl.hpp
@@ -170,15 +170,15 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
 
     gv_[k] = p.rv_[k];
     gv_[k].noalias() += p.B_[k].transpose() * sv_[k + 1];
-    gv_[k].noalias() += p.B_[k].transpose() * S_[k + 1].template selfadjointView<Eigen::Lower>() * p.b_[k];
+    gv_[k].noalias() += p.B_[k].transpose() * S_[k + 1] * p.b_[k];
 
     G_[k] = p.P_[k];
     //G_[k].noalias() += B_[k].transpose() * S_[k+1] * A_[k];
-    G_[k].noalias() += p.B_[k].transpose() * S_[k + 1].template selfadjointView<Eigen::Lower>() * p.A_[k];
+    G_[k].noalias() += p.B_[k].transpose() * S_[k + 1] * p.A_[k];
 
     H_[k] = p.R_[k];
     //H_[k].noalias() += B_[k].transpose() * S_[k+1] * B_[k];
-    H_[k].noalias() += p.B_[k].transpose() * S_[k + 1].template selfadjointView<Eigen::Lower>() * p.B_[k];
+    H_[k].noalias() += p.B_[k].transpose() * S_[k + 1] * p.B_[k];
 
     if (settings_.fixedHessianCorrection)
     {
@@ -225,7 +225,7 @@ void GNRiccatiSolver<STATE_DIM, CONTROL_DIM, SCALAR>::designController(size_t k)
         this->L_[k].noalias() = Hi_inverse_[k] * G_[k];
 
         // calculate FF update
-        this->lv_[k].noalias() = Hi_inverse_[k].template selfadjointView<Eigen::Lower>() * gv_[k];
+        this->lv_[k].noalias() = Hi_inverse_[k] * gv_[k];
     }
     else
     {
-- 
2.43.0


From 2dceda99e4b571df7a58d9ace2efd97e32f5a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:52 +0000
Subject: [PATCH 057/113] fix: FHDTLQR linearized time-varying systems at time
 zero for every stage

---
 ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
index 73f626d..a901f5a 100644
--- a/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/FHDTLQR-impl.hpp
@@ -65,8 +65,8 @@ void FHDTLQR<STATE_DIM, CONTROL_DIM, SCALAR>::linearizeModel(const state_vector_
 
     for (int i = 0; i < N; i++)
     {
-        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i]);
-        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i]);
+        A[i] = state_matrix_t::Identity() + dt * derivatives->getDerivativeState(x_trajectory[i], u_trajectory[i], i * dt);
+        B[i] = dt * derivatives->getDerivativeControl(x_trajectory[i], u_trajectory[i], i * dt);
     }
 }
 
-- 
2.43.0


From 88ba145114575ce1d05c90e452b176b15e1593de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:32 +0000
Subject: [PATCH 058/113] fix: DARE and FHDTLQR failed when the input Hessian
 has repeated eigenvalues (eigenvectors of the general eigensolver are not
 orthogonal)

---
 .../ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp   | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp b/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp
index d5f2de3..9269853 100644
--- a/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp
+++ b/ct_optcon/include/ct/optcon/lqr/riccati/DynamicRiccatiEquation.hpp
@@ -78,11 +78,9 @@ public:
         H_n = (H_n + H_n.transpose()).eval() / 2.0;
 
         // compute eigenvalues with eigenvectors enabled
-        eigenvalueSolver_.compute(H_n, true);
-        const control_matrix_t& V = eigenvalueSolver_.eigenvectors().real();
-        const control_vector_t& lambda = eigenvalueSolver_.eigenvalues().real();
-        assert(eigenvalueSolver_.eigenvectors().imag().norm() < 1e-7 && "Eigenvectors not real");
-        assert(eigenvalueSolver_.eigenvalues().imag().norm() < 1e-7 && "Eigenvalues is not real");
+        eigenvalueSolver_.compute(H_n, Eigen::ComputeEigenvectors);
+        const control_matrix_t& V = eigenvalueSolver_.eigenvectors();
+        const control_vector_t& lambda = eigenvalueSolver_.eigenvalues();
         // Corrected Eigenvalue Matrix
         control_matrix_t D = control_matrix_t::Zero();
         // make D positive semi-definite (as described in IV. B.)
@@ -111,7 +109,7 @@ public:
 
 private:
     SCALAR epsilon_;
-    Eigen::EigenSolver<control_matrix_t> eigenvalueSolver_;
+    Eigen::SelfAdjointEigenSolver<control_matrix_t> eigenvalueSolver_;
 };
 
 
-- 
2.43.0


From a5b5ba5c298fbaa240827e9e8d1619db115c8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:26 +0000
Subject: [PATCH 059/113] fix: ExtendedKalmanFilter evaluated time-varying
 measurement models at time zero

---
 ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
index 743c12b..d99261c 100644
--- a/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/ExtendedKalmanFilter-impl.h
@@ -64,7 +64,7 @@ auto ExtendedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update(co
         P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + dHdw * (R_)*dHdw.transpose()).inverse();
 
     // STEP 3 - state estimate correction
-    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_));
+    this->x_est_ += K * (y - this->h_->computeMeasurement(this->x_est_, t));
 
     // STEP 4 - covariance matrix correction
     P_ -= (K * dHdx * P_).eval();
-- 
2.43.0


From 85b5a3b13d60618411a68dbfefb3b1d3500dbea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:26 +0000
Subject: [PATCH 060/113] fix: SteadyStateKalmanFilter could not be
 instantiated (missing time step in calls to the system model)

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index a0d1c6c..3a82558 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -38,8 +38,8 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::predic
     const ct::core::Time& dt,
     const ct::core::Time& t) -> const state_vector_t&
 {
-    A_ = this->f_->computeDerivativeState(this->x_est_, u, t);
-    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, t);
+    A_ = this->f_->computeDerivativeState(this->x_est_, u, dt, t);
+    this->x_est_ = this->f_->computeDynamics(this->x_est_, u, dt, t);
     return this->x_est_;
 }
 
-- 
2.43.0


From 91862414b47e6320510718b8a094272493cd19ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:48 +0000
Subject: [PATCH 061/113] fix: SteadyStateKalmanFilter applied the predictor
 gain in the measurement update (estimates diverge for unstable systems)

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index 3a82558..f4e1c0e 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -61,7 +61,10 @@ auto SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::update
         throw;
     }
 
-    this->x_est_ -= K.transpose() * (y - this->h_->computeMeasurement(this->x_est_, t));
+    // the Riccati feedback is the gain of the one-step predictor (A * P * C^T * S^-1), the update requires P * C^T * S^-1
+    const Eigen::Matrix<SCALAR, STATE_DIM, OUTPUT_DIM> gain =
+        P_ * dHdx.transpose() * (dHdx * P_ * dHdx.transpose() + R_).inverse();
+    this->x_est_ += gain * (y - this->h_->computeMeasurement(this->x_est_, t));
     return this->x_est_;
 }
 
-- 
2.43.0


From e2183d9a62d27bb6fd90d174b179d817b450db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:49 +0000
Subject: [PATCH 062/113] fix: SteadyStateKalmanFilter settings constructor
 left the covariance uninitialized

---
 .../include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
index f4e1c0e..9cafc08 100644
--- a/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/SteadyStateKalmanFilter-impl.h
@@ -31,6 +31,7 @@ SteadyStateKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::SteadyState
       R_(sskf_settings.R),
       maxDAREIterations_(sskf_settings.maxDAREIterations)
 {
+    P_.setZero();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
-- 
2.43.0


From 85f1b15c1240e3e52f1fc83d680b33e132da553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:49 +0000
Subject: [PATCH 063/113] fix: UnscentedKalmanFilter never computed its sigma
 point weights

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index 2e5dfb5..b2284f1 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -62,6 +62,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
     const ct::core::StateMatrix<STATE_DIM, SCALAR>& P0)
     : Base(f, h, x0), alpha_(alpha), beta_(beta), kappa_(kappa), P_(P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
@@ -75,6 +76,7 @@ UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::UnscentedKalm
       kappa_(ukf_settings.kappa),
       P_(ukf_settings.P0)
 {
+    computeWeights();
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
-- 
2.43.0


From b9df3dd3ff432d3c95f77144e2da1c829dfebb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:49 +0000
Subject: [PATCH 064/113] fix: UnscentedKalmanFilter could not be instantiated
 unless state and output have the same dimension

---
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h | 2 +-
 ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
index b2284f1..c7d8903 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter-impl.h
@@ -266,7 +266,7 @@ void UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computeS
 template <size_t STATE_DIM, size_t CONTROL_DIM, size_t OUTPUT_DIM, typename SCALAR>
 template <size_t DIM>
 auto UnscentedKalmanFilter<STATE_DIM, CONTROL_DIM, OUTPUT_DIM, SCALAR>::computePredictionFromSigmaPoints(
-    const SigmaPoints<DIM>& sigmaPoints) -> state_vector_t
+    const SigmaPoints<DIM>& sigmaPoints) -> Eigen::Matrix<SCALAR, DIM, 1>
 {
     // Use efficient matrix x vector computation
     return sigmaPoints * sigmaWeights_m_;
diff --git a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
index bffac4c..05f525d 100644
--- a/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
+++ b/ct_optcon/include/ct/optcon/filter/UnscentedKalmanFilter.h
@@ -149,7 +149,7 @@ public:
 
     //! Make a prediction based on sigma points.
     template <size_t DIM>
-    state_vector_t computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
+    Eigen::Matrix<SCALAR, DIM, 1> computePredictionFromSigmaPoints(const SigmaPoints<DIM>& sigmaPoints);
 
 private:
     state_matrix_t P_;                                          //! Covariance matrix.
-- 
2.43.0


From 6c64516cc994cd3894f771d5c11c1edc8b31016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:49 +0000
Subject: [PATCH 065/113] fix: UnscentedKalmanFilterSettings loaded its
 real-valued parameters as booleans

---
 ct_optcon/include/ct/optcon/filter/FilterSettings.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 596b149..26247e2 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -213,9 +213,9 @@ struct UnscentedKalmanFilterSettings
         boost::property_tree::read_info(filename, pt);
 
         ct::core::loadMatrix(filename, "x0", x0, ns);
-        alpha = pt.get<bool>(ns + ".alpha");
-        beta = pt.get<bool>(ns + ".beta");
-        kappa = pt.get<bool>(ns + ".kappa");
+        alpha = pt.get<SCALAR>(ns + ".alpha");
+        beta = pt.get<SCALAR>(ns + ".beta");
+        kappa = pt.get<SCALAR>(ns + ".kappa");
         ct::core::loadMatrix(filename, "P0", P0, ns);
 
         if (verbose)
-- 
2.43.0


From 498a3c82312da129e8d3485f012f5d65da6a8d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:49 +0000
Subject: [PATCH 066/113] fix: InputDisturbedSystem copy constructor copied
 from itself

---
 ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
index c73e369..605225d 100644
--- a/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/InputDisturbedSystem-impl.h
@@ -18,7 +18,7 @@ InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 InputDisturbedSystem<STATE_DIM, CONTROL_DIM, SCALAR>::InputDisturbedSystem(const InputDisturbedSystem& other)
-    : Base(*this), system_(other.system_->clone())
+    : Base(other), system_(other.system_->clone())
 {
 }
 
-- 
2.43.0


From 664aba3bd0743660a7223e65a2f9604ce36f91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:49 +0000
Subject: [PATCH 067/113] fix: copying a DisturbedSystemController without
 nominal controller dereferenced a null pointer

---
 .../include/ct/optcon/filter/DisturbedSystemController-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
index c4b6c1d..6a3fdd1 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
@@ -18,7 +18,7 @@ DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSy
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
 DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::DisturbedSystemController(
     const DisturbedSystemController& other)
-    : controller_(other.controller_->clone())
+    : controller_(other.controller_ ? other.controller_->clone() : nullptr)
 {
 }
 
-- 
2.43.0


From 2952e766f84b581f40fd7ac2c459de4016fa5943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:49 +0000
Subject: [PATCH 068/113] fix: CTSystemModel linearized at the previous time
 step due to truncation

---
 ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
index d566c98..c0becd7 100644
--- a/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/CTSystemModel-impl.h
@@ -51,7 +51,7 @@ auto CTSystemModel<STATE_DIM, CONTROL_DIM, SCALAR>::computeDerivativeState(const
 
     sensApprox_->setTimeDiscretization(dt);
 
-    sensApprox_->getAandB(state, u, state, int(t / dt), 1, A, Btemp);
+    sensApprox_->getAandB(state, u, state, static_cast<int>(std::round(t / dt)), 1, A, Btemp);
     return A;
 }
 
-- 
2.43.0


From 68677b841480c83e2f7ad2f3d681d6cd7c29ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:02 +0000
Subject: [PATCH 069/113] fix: DisturbedSystem::setController dereferenced a
 null pointer unless the system was constructed with a controller

---
 ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
index 720a3da..6e812e4 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystem-impl.h
@@ -29,8 +29,12 @@ template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR
 void DisturbedSystem<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::setController(
     const std::shared_ptr<ct::core::Controller<STATE_DIM, CONTROL_DIM, SCALAR>> controller)
 {
-    std::dynamic_pointer_cast<DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>>(this->controller_)
-        ->setController(controller);
+    using DistController_t = DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>;
+    auto distController = std::dynamic_pointer_cast<DistController_t>(this->controller_);
+    if (distController)
+        distController->setController(controller);
+    else
+        this->controller_ = std::shared_ptr<DistController_t>(new DistController_t(controller));
 }
 
 }  // namespace optcon
-- 
2.43.0


From 70778d51464f17d28e645d87530ff3ce25f52435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:22 +0000
Subject: [PATCH 070/113] fix: MPC time keeper read a delay timer that was
 never started when delay measurement is off

---
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 0f93e6b..28bb70e 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -214,15 +214,21 @@ public:
     {
         if (mpc_settings_.useExternalTiming_)
         {
-            ext_timer_.stop(externalTime);
-            lastMeasuredDelay_ = ext_timer_.getElapsedTime();
+            if (mpc_settings_.measureDelay_)
+            {
+                ext_timer_.stop(externalTime);
+                lastMeasuredDelay_ = ext_timer_.getElapsedTime();
+            }
             // measure how much time passed since last successful solve()
             ext_lastSolveTimer_.start(externalTime);
         }
         else
         {
-            timer_.stop();
-            lastMeasuredDelay_ = timer_.getElapsedTime();
+            if (mpc_settings_.measureDelay_)
+            {
+                timer_.stop();
+                lastMeasuredDelay_ = timer_.getElapsedTime();
+            }
             // measure how much time passed since last successful solve()
             lastSolveTimer_.start();
         }
-- 
2.43.0


From 1ba8bad65d0f857445cd33f2c91a324d9eed3afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:22 +0000
Subject: [PATCH 071/113] fix: MPC::setTimeHorizonStrategy did not reach the
 time keeper, which kept using the old strategy

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h      | 1 +
 ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index fabc657..711d050 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -85,6 +85,7 @@ template <typename OPTCON_SOLVER>
 void MPC<OPTCON_SOLVER>::setTimeHorizonStrategy(std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy)
 {
     timeHorizonStrategy_ = timeHorizonStrategy;
+    timeKeeper_.setTimeHorizonStrategy(timeHorizonStrategy);
 }
 
 
diff --git a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
index 28bb70e..6f53e12 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcTimeKeeper.h
@@ -196,6 +196,11 @@ public:
 	 * 	the new settings to be handed over
 	 */
     void updateSettings(const mpc_settings& settings) { mpc_settings_ = settings; }
+    //! replace the time horizon strategy
+    void setTimeHorizonStrategy(std::shared_ptr<MpcTimeHorizon<SCALAR>> timeHorizonStrategy)
+    {
+        timeHorizonStrategy_ = timeHorizonStrategy;
+    }
     //! start measuring time elapsed during planning / solving the optimal control problem
     void startDelayMeasurement(const SCALAR& externalTime)
     {
-- 
2.43.0


From 4be76b58b2230c64f92d4c9729c47b331cf27b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:36 +0000
Subject: [PATCH 072/113] fix: MPC forward integration used the already shifted
 warm-start policy instead of the policy of the last run

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 6 +++++-
 ct_optcon/include/ct/optcon/mpc/MPC.h      | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 711d050..737706e 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -95,6 +95,7 @@ void MPC<OPTCON_SOLVER>::setInitialGuess(const Policy_t& initGuess)
     solver_.setInitialGuess(initGuess);
     policyHandler_->setPolicy(initGuess);
     currentPolicy_ = initGuess;
+    previousPolicy_ = initGuess;
 }
 
 
@@ -128,7 +129,7 @@ void MPC<OPTCON_SOLVER>::doForwardIntegration(const Scalar_t& t_forward_start,
         else
         {
             // ... or with the controller obtained from the solver (solution of last mpc-run).
-            std::shared_ptr<Policy_t> prevController(new Policy_t(currentPolicy_));
+            std::shared_ptr<Policy_t> prevController(new Policy_t(previousPolicy_));
             integrateForward(t_forward_start, t_forward_stop, x_start, prevController);
         }
     }
@@ -157,6 +158,9 @@ void MPC<OPTCON_SOLVER>::prepareIteration(const Scalar_t& extTime)
     solver_.changeTimeHorizon(newTimeHorizon);
 
 
+    // keep the policy of the last run, it is required for the forward integration of the state
+    previousPolicy_ = currentPolicy_;
+
     // Calculate new initial guess / warm-starting policy
     policyHandler_->designWarmStartingPolicy(t_forward_stop_, newTimeHorizon, currentPolicy_);
 
diff --git a/ct_optcon/include/ct/optcon/mpc/MPC.h b/ct_optcon/include/ct/optcon/mpc/MPC.h
index 6399a2f..1ce5d63 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC.h
@@ -242,6 +242,9 @@ private:
     //! currently optimal policy, initial guess respectively
     Policy_t currentPolicy_;
 
+    //! policy obtained in the last run, before it was modified for warm-starting
+    Policy_t previousPolicy_;
+
     //! time horizon strategy, e.g. receding horizon optimal control
     std::shared_ptr<tpl::MpcTimeHorizon<Scalar_t>> timeHorizonStrategy_;
 
-- 
2.43.0


From fc9495d4c9be7d801cd9fb506c59d305f1c1ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:36 +0000
Subject: [PATCH 073/113] fix: default PolicyHandler::truncateSolutionFront
 left the truncated time uninitialised

---
 .../include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
index 614f659..f02bea7 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/PolicyHandler-impl.h
@@ -31,6 +31,7 @@ void PolicyHandler<POLICY, STATE_DIM, CONTROL_DIM, SCALAR>::truncateSolutionFron
     POLICY& policy,
     SCALAR& effectivelyTruncated)
 {
+    effectivelyTruncated = 0.0;
 }
 
 template <typename POLICY, size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From cd555ff7d73a68bf5b9512f472c97e29c02b1b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:49 +0000
Subject: [PATCH 074/113] fix: MPC warm start appended stages at time dt
 instead of after the end of the policy

---
 .../default/StateFeedbackPolicyHandler-impl.h             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
index 352d866..ecbb8c0 100644
--- a/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h
@@ -62,12 +62,12 @@ void StateFeedbackPolicyHandler<STATE_DIM, CONTROL_DIM, SCALAR>::designWarmStart
     if (Kn_new > currentSize)
     {
         //extend at back with constant value taken from last element
-        bool timeIsRelative = true;
+        const bool timeIsAbsolute = false;
         for (int i = 0; i < Kn_new - currentSize; i++)
         {
-            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsRelative);
-            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsRelative);
-            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsRelative);
+            FeedbackTraj.push_back(FeedbackTraj.back(), dt_, timeIsAbsolute);
+            FeedForwardTraj.push_back(FeedForwardTraj.back(), dt_, timeIsAbsolute);
+            StateRefTraj.push_back(StateRefTraj.back(), dt_, timeIsAbsolute);
         }
     }
     else if (Kn_new < currentSize)
-- 
2.43.0


From e31f2806358b90ff1d4a88b3777f835b899a7c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:49 +0000
Subject: [PATCH 075/113] fix: MPC::updateSettings copied a temporary
 integrator whose observer refers to the destroyed object

---
 ct_optcon/include/ct/optcon/mpc/MPC-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
index 737706e..376c8eb 100644
--- a/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
+++ b/ct_optcon/include/ct/optcon/mpc/MPC-impl.h
@@ -293,7 +293,7 @@ void MPC<OPTCON_SOLVER>::updateSettings(const mpc_settings& settings)
     checkSettings(settings);
 
     if (settings.stateForwardIntegratorType_ != mpc_settings_.stateForwardIntegratorType_)
-        forwardIntegrator_ = ct::core::Integrator<STATE_DIM, Scalar_t>(dynamics_, settings.stateForwardIntegratorType_);
+        forwardIntegrator_.changeIntegrationType(settings.stateForwardIntegratorType_);
 
     mpc_settings_ = settings;
     timeKeeper_.updateSettings(settings);
-- 
2.43.0


From 2c42666282ac2654bbeb944b96eefa4e967ffa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:27 +0000
Subject: [PATCH 076/113] fix: DMS did not count the input Jacobian entries of
 general constraints and wrote out of bounds

---
 .../ct/optcon/dms/constraints/ConstraintDiscretizer.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
index 04940e9..e801f02 100644
--- a/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
+++ b/ct_optcon/include/ct/optcon/dms/constraints/ConstraintDiscretizer.h
@@ -110,8 +110,10 @@ public:
         discreteLowerBound_.resize(constraintsCount_);
         discreteUpperBound_.resize(constraintsCount_);
 
-        nonZeroJacCountIntermediate_ += (N_ + 1) * generalConstraints->getJacobianStateNonZeroCountIntermediate();
-        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal();
+        nonZeroJacCountIntermediate_ += (N_ + 1) * (generalConstraints->getJacobianStateNonZeroCountIntermediate() +
+                                                       generalConstraints->getJacobianInputNonZeroCountIntermediate());
+        nonZeroJacCountTerminal_ += generalConstraints->getJacobianStateNonZeroCountTerminal() +
+                                    generalConstraints->getJacobianInputNonZeroCountTerminal();
         nonZeroJacCount_ = nonZeroJacCountIntermediate_ + nonZeroJacCountTerminal_;
 
         discreteJac_.resize(nonZeroJacCount_);
-- 
2.43.0


From 48a071c9b3ce016a238e4531edee26595ce026b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:27 +0000
Subject: [PATCH 077/113] fix: DmsProblem::changeInitialState left the initial
 state constraint at the old state

---
 ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 2fbf7d1..95a9610 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -256,7 +256,8 @@ public:
 	 */
     void changeInitialState(const state_vector_t& x0)
     {
-        // constraints_->changeInitialConstraint(x0);
+        std::static_pointer_cast<ConstraintsContainerDms<STATE_DIM, CONTROL_DIM, SCALAR>>(this->constraints_)
+            ->changeInitialConstraint(x0);
         optVariablesDms_->changeInitialState(x0);
     }
 
-- 
2.43.0


From 1ff24674f12767b4847ad6f423437552ef9dd050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:27 +0000
Subject: [PATCH 078/113] fix: DMS piecewise linear cost weights read the time
 grid out of bounds for the last node

---
 .../ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 7bd7a0a..2bb149b 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -141,7 +141,7 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::updatePhi()
             for (size_t i = 1; i < settings_.N_; i++)
                 phi_(i) = SCALAR(0.5) * (timeGrid_->getShotEndTime(i) - timeGrid_->getShotStartTime(i - 1));
 
-            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_));
+            phi_(settings_.N_) = SCALAR(0.5) * (timeGrid_->getShotDuration(settings_.N_ - 1));
             break;
         }
         default:
-- 
2.43.0


From 76665b5e9beecf80782aa11236336c82ad9ddef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:27 +0000
Subject: [PATCH 079/113] fix: DMS linear spline read out of bounds when
 evaluated at the last node

---
 .../ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h b/ct_optcon/include/ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h
index c9540c5..f860cfa 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/spline/Linear/LinearSpliner.h
@@ -41,6 +41,10 @@ public:
     // evaluate spline and return vector at interpolation time
     vector_t evalSpline(const SCALAR time, const size_t shotIdx) override
     {
+        // there is no shot starting at the last node
+        if (shotIdx + 1 == nodes_.size())
+            return nodes_[shotIdx];
+
         Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> result;
         result.resize(T::DIM);
 
-- 
2.43.0


From 1d6a21c2787825eb05c79b1797b919add2a050b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:27 +0000
Subject: [PATCH 080/113] fix: OptVectorDms::setInitGuess used an integer
 division and did not interpolate the states

---
 .../ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
index 39ce2d7..69181be 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/implementation/OptVectorDms-impl.h
@@ -110,7 +110,7 @@ void OptVectorDms<STATE_DIM, CONTROL_DIM, SCALAR>::setInitGuess(const state_vect
                 break;
             }
             case 1:
-                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (i / (numPairs_ - 1));
+                this->xInit_.segment(s_index, STATE_DIM) = x0 + (x_f - x0) * (SCALAR(i) / SCALAR(numPairs_ - 1));
                 break;
         }
         this->xInit_.segment(q_index, CONTROL_DIM) = u0;
-- 
2.43.0


From d97486a41bf2616208e41860186ee20076b63bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:55 +0000
Subject: [PATCH 081/113] fix: DmsProblem::changeTimeHorizon did not update the
 integration of the shots and the cost weights

---
 .../include/ct/optcon/dms/dms_core/DmsProblem.h    |  8 +++++++-
 .../include/ct/optcon/dms/dms_core/ShotContainer.h | 14 ++++++++++++++
 .../dms_core/cost_evaluator/CostEvaluatorSimple.h  |  4 ++--
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
index 95a9610..d27abc8 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsProblem.h
@@ -248,7 +248,13 @@ public:
 	 *
 	 * @param[in]  tf    The new time horizon
 	 */
-    void changeTimeHorizon(const SCALAR tf) { timeGrid_->changeTimeHorizon(tf); }
+    void changeTimeHorizon(const SCALAR tf)
+    {
+        timeGrid_->changeTimeHorizon(tf);
+
+        for (auto shotContainer : shotContainers_)
+            shotContainer->updateTimeGrid();
+    }
     /**
 	 * @brief      Updates the initial state
 	 *
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
index b9fceb6..f0bd3f7 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/ShotContainer.h
@@ -201,6 +201,20 @@ public:
         }
     }
 
+    /**
+	 * @brief      Updates the start time and the integration steps after a change of the time grid
+	 */
+    void updateTimeGrid()
+    {
+        tStart_ = timeGrid_->getShotStartTime(shotNr_);
+        nSteps_ = timeGrid_->getShotDuration(shotNr_) / settings_.dt_sim_ + 0.5;
+        integrationCount_ = 0;
+        costIntegrationCount_ = 0;
+        sensIntegrationCount_ = 0;
+        costSensIntegrationCount_ = 0;
+        reset();
+    }
+
     void reset()
     {
         integratorCT_->clearStates();
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 2bb149b..80dcf95 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -84,7 +84,7 @@ private:
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
 {
-    // updatePhi();
+    updatePhi();
     SCALAR cost = SCALAR(0.0);
 
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
@@ -105,7 +105,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t grad_length,
     Eigen::Map<Eigen::Matrix<SCALAR, Eigen::Dynamic, 1>>& grad)
 {
-    // updatePhi();
+    updatePhi();
     grad.setZero();
     for (size_t i = 0; i < settings_.N_ + 1; ++i)
     {
-- 
2.43.0


From eb0ea4cbc01b27dbc8cf45686fe9f76e973f069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:55 +0000
Subject: [PATCH 082/113] fix: OptVector left the initial guess uninitialised
 and the constraint multipliers unsized

---
 ct_optcon/include/ct/optcon/nlp/OptVector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ct_optcon/include/ct/optcon/nlp/OptVector.h b/ct_optcon/include/ct/optcon/nlp/OptVector.h
index c0c26df..12b84ae 100644
--- a/ct_optcon/include/ct/optcon/nlp/OptVector.h
+++ b/ct_optcon/include/ct/optcon/nlp/OptVector.h
@@ -41,6 +41,7 @@ public:
         x_.resize(n);
         x_.setZero();
         xInit_.resize(n);
+        xInit_.setZero();
         xLb_.resize(n);
         xUb_.resize(n);
         xLb_.setConstant(std::numeric_limits<SCALAR>::lowest());
@@ -67,6 +68,8 @@ public:
         zMul_.setZero();
         zState_.resize(m + 1);
         zState_.setZero();
+        lambda_.resize(m);
+        lambda_.setZero();
     }
 
     void reset() { updateCount_ = 0; }
-- 
2.43.0


From f1c15ace3b71bbebd2b7a847bdef16b15648137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:19 +0000
Subject: [PATCH 083/113] fix: DmsSolver ignored costs, dynamics and
 constraints changed after construction

---
 .../ct/optcon/dms/dms_core/DmsSolver.h        | 62 ++++++++++++++-----
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/DmsSolver.h b/ct_optcon/include/ct/optcon/dms/dms_core/DmsSolver.h
index d09b396..f91dc70 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/DmsSolver.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/DmsSolver.h
@@ -91,25 +91,12 @@ public:
 	 * @param[in]  settingsDms  The dms settings
 	 */
     DmsSolver(const ContinuousOptConProblem<STATE_DIM, CONTROL_DIM, SCALAR> problem, DmsSettings settingsDms)
-        : nlpSolver_(nullptr), settings_(settingsDms)
+        : nlpSolver_(nullptr), settings_(settingsDms), problemChanged_(false)
     {
         // Create system, linearsystem and costfunction instances
         this->setProblem(problem);
 
-        dmsProblem_ =
-            std::shared_ptr<DmsProblem<STATE_DIM, CONTROL_DIM, SCALAR>>(new DmsProblem<STATE_DIM, CONTROL_DIM, SCALAR>(
-                settingsDms, this->systems_, this->linearSystems_, this->costFunctions_, this->inputBoxConstraints_,
-                this->stateBoxConstraints_, this->generalConstraints_, x0_));
-
-        // SNOPT only works for the double type
-        if (settingsDms.solverSettings_.solverType_ == NlpSolverType::SNOPT)
-            nlpSolver_ = std::shared_ptr<SnoptSolver>(new SnoptSolver(dmsProblem_, settingsDms.solverSettings_));
-        else if (settingsDms.solverSettings_.solverType_ == NlpSolverType::IPOPT)
-            nlpSolver_ = std::shared_ptr<IpoptSolver>(new IpoptSolver(dmsProblem_, settingsDms.solverSettings_));
-        else
-            std::cout << "Unknown solver type... Exiting" << std::endl;
-
-        configure(settingsDms);
+        createProblem();
     }
 
 
@@ -127,6 +114,13 @@ public:
 
     bool solve() override
     {
+        if (problemChanged_)
+        {
+            createProblem();
+            if (initialGuess_.xSolution_.size() > 0)
+                setInitialGuess(initialGuess_);
+        }
+
         if (!nlpSolver_->isInitialized())
             nlpSolver_->configure(settings_.solverSettings_);
 
@@ -156,6 +150,7 @@ public:
     void setInitialGuess(const Policy_t& initialGuess) override
     {
         dmsProblem_->setInitialGuess(initialGuess.xSolution_, initialGuess.uSolution_);
+        initialGuess_ = initialGuess;
     }
 
     SCALAR getTimeHorizon() const override { return dmsProblem_->getTimeHorizon(); }
@@ -175,6 +170,7 @@ public:
 
     void changeCostFunction(const typename Base::OptConProblem_t::CostFunctionPtr_t& cf) override
     {
+        problemChanged_ = true;
         this->getCostFunctionInstances().resize(settings_.N_);
         if (cf)
             for (size_t i = 0; i < settings_.N_; i++)
@@ -183,6 +179,7 @@ public:
 
     void changeNonlinearSystem(const typename Base::OptConProblem_t::DynamicsPtr_t& dyn) override
     {
+        problemChanged_ = true;
         this->getNonlinearSystemsInstances().resize(settings_.N_);
 
         if (dyn)
@@ -192,6 +189,7 @@ public:
 
     void changeLinearSystem(const typename Base::OptConProblem_t::LinearPtr_t& lin) override
     {
+        problemChanged_ = true;
         this->getLinearSystemsInstances().resize(settings_.N_);
 
         if (lin)
@@ -201,18 +199,24 @@ public:
 
     void changeInputBoxConstraints(const typename Base::OptConProblem_t::ConstraintPtr_t con) override
     {
+        problemChanged_ = true;
+        this->getInputBoxConstraintsInstances().clear();
         this->getInputBoxConstraintsInstances().push_back(
             typename Base::OptConProblem_t::ConstraintPtr_t(con->clone()));
     }
 
     void changeStateBoxConstraints(const typename Base::OptConProblem_t::ConstraintPtr_t con) override
     {
+        problemChanged_ = true;
+        this->getStateBoxConstraintsInstances().clear();
         this->getStateBoxConstraintsInstances().push_back(
             typename Base::OptConProblem_t::ConstraintPtr_t(con->clone()));
     }
 
     void changeGeneralConstraints(const typename Base::OptConProblem_t::ConstraintPtr_t con) override
     {
+        problemChanged_ = true;
+        this->getGeneralConstraintsInstances().clear();
         this->getGeneralConstraintsInstances().push_back(typename Base::OptConProblem_t::ConstraintPtr_t(con->clone()));
     }
 
@@ -272,11 +276,37 @@ public:
 
 
 private:
+    /**
+	 * @brief      Creates the dms problem and the nlp solver from the current problem data
+	 */
+    void createProblem()
+    {
+        problemChanged_ = false;
+
+        dmsProblem_ =
+            std::shared_ptr<DmsProblem<STATE_DIM, CONTROL_DIM, SCALAR>>(new DmsProblem<STATE_DIM, CONTROL_DIM, SCALAR>(
+                settings_, this->systems_, this->linearSystems_, this->costFunctions_, this->inputBoxConstraints_,
+                this->stateBoxConstraints_, this->generalConstraints_, x0_));
+
+        // SNOPT only works for the double type
+        if (settings_.solverSettings_.solverType_ == NlpSolverType::SNOPT)
+            nlpSolver_ = std::shared_ptr<SnoptSolver>(new SnoptSolver(dmsProblem_, settings_.solverSettings_));
+        else if (settings_.solverSettings_.solverType_ == NlpSolverType::IPOPT)
+            nlpSolver_ = std::shared_ptr<IpoptSolver>(new IpoptSolver(dmsProblem_, settings_.solverSettings_));
+        else
+            std::cout << "Unknown solver type... Exiting" << std::endl;
+
+        configure(settings_);
+    }
+
     std::shared_ptr<DmsProblem<STATE_DIM, CONTROL_DIM, SCALAR>> dmsProblem_; /*!<The dms problem*/
     std::shared_ptr<tpl::NlpSolver<SCALAR>> nlpSolver_; /*!<The nlp solver for solving the dmsproblem*/
     DmsSettings settings_;                              /*!<The dms settings*/
 
-    Policy_t policy_; /*!<The solution container*/
+    bool problemChanged_;                               /*!<Problem data changed since the dms problem was created*/
+
+    Policy_t policy_;       /*!<The solution container*/
+    Policy_t initialGuess_; /*!<The last initial guess*/
 
     state_vector_t x0_; /*!<The initial state for the optimization*/
     SCALAR tf_;         /*!<The timehorizon of the problem*/
-- 
2.43.0


From 5edd38840757302e5cd1231860844d8c48d2e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:10 +0000
Subject: [PATCH 084/113] fix: DMS evaluated the terminal cost at time zero
 instead of the end of the horizon

---
 .../optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h  | 6 ++++--
 .../dms/dms_core/cost_evaluator/CostEvaluatorSimple.h       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
index 782ff57..4bfe2cb 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorFull.h
@@ -80,7 +80,8 @@ public:
         for (auto shotContainer : shotContainers_)
             cost += shotContainer->getCostIntegrated();
 
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+            shotContainers_.back()->getIntegrationTimeFinal());
         cost += costFct_->evaluateTerminal();
         return cost;
     }
@@ -134,7 +135,8 @@ public:
         }
 
         /* gradient of terminal cost */
-        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+        costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero(),
+            shotContainers_.back()->getIntegrationTimeFinal());
         grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) +=
             costFct_->stateDerivativeTerminal();  // * dXdSi.back();
     }
diff --git a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
index 80dcf95..4c785c4 100644
--- a/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
+++ b/ct_optcon/include/ct/optcon/dms/dms_core/cost_evaluator/CostEvaluatorSimple.h
@@ -94,7 +94,8 @@ SCALAR CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::eval()
         cost += phi_(i) * costFct_->evaluateIntermediate();
     }
 
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(
+        w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), timeGrid_->getShotStartTime(settings_.N_));
     cost += costFct_->evaluateTerminal();
     assert(cost == cost);
     return cost;
@@ -116,7 +117,8 @@ void CostEvaluatorSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evalGradient(size_t gr
     }
 
     /* gradient of terminal cost */
-    costFct_->setCurrentStateAndControl(w_->getOptimizedState(settings_.N_), control_vector_t::Zero());
+    costFct_->setCurrentStateAndControl(
+        w_->getOptimizedState(settings_.N_), control_vector_t::Zero(), timeGrid_->getShotStartTime(settings_.N_));
     grad.segment(w_->getStateIndex(settings_.N_), STATE_DIM) += costFct_->stateDerivativeTerminal();
 }
 
-- 
2.43.0


From f8ce4906231dba4027ff03badf0377744cb223fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:48 +0000
Subject: [PATCH 085/113] fix: default-constructed ControlSimulator left its
 flags and step sizes uninitialised

---
 ct_core/include/ct/core/simulation/ControlSimulator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/simulation/ControlSimulator.h b/ct_core/include/ct/core/simulation/ControlSimulator.h
index 215079d..2ab99b0 100644
--- a/ct_core/include/ct/core/simulation/ControlSimulator.h
+++ b/ct_core/include/ct/core/simulation/ControlSimulator.h
@@ -37,7 +37,7 @@ public:
     using SCALAR = typename CONTROLLED_SYSTEM::SCALAR;
 
     //! default constructor
-    ControlSimulator() = default;
+    ControlSimulator() : sim_dt_(0), control_dt_(0), stop_(false), verbose_(false) {}
     //! constructor
     ControlSimulator(Time sim_dt,
         Time control_dt,
-- 
2.43.0


From 2671159db6ee07a6dd1948bf36cce77d3b3dc280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 086/113] fix: loadMpcSettings ignored the MPC mode

---
 ct_optcon/include/ct/optcon/mpc/MpcSettings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/mpc/MpcSettings.h b/ct_optcon/include/ct/optcon/mpc/MpcSettings.h
index df6426e..fe1879f 100644
--- a/ct_optcon/include/ct/optcon/mpc/MpcSettings.h
+++ b/ct_optcon/include/ct/optcon/mpc/MpcSettings.h
@@ -164,6 +164,7 @@ inline void loadMpcSettings(const std::string& filename, mpc_settings& settings)
     settings.postTruncation_ = pt.get<bool>("mpc.postTruncation");
     settings.delayMeasurementMultiplier_ = pt.get<double>("mpc.delayMeasurementMultiplier");
     settings.useExternalTiming_ = pt.get<bool>("mpc.useExternalTiming");
+    settings.mpc_mode = (MPC_MODE)pt.get<int>("mpc.mpc_mode", (int)settings.mpc_mode);
 }
 
 
-- 
2.43.0


From 285b25421e7ed7420da05b939df5a7f67a0a7507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 087/113] fix: IpoptSettings::load looked up
 print_frequency_iter under a misspelled key

---
 ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h b/ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h
index 68d49a4..d06363b 100644
--- a/ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h
+++ b/ct_optcon/include/ct/optcon/nlp/solver/NlpSolverSettings.h
@@ -226,7 +226,7 @@ public:
         setParameterIfExists(pt, linear_scaling_on_demand_, "linear_scaling_on_demand", ns);
         setParameterIfExists(pt, nlp_scaling_method_, "nlp_scaling_method", ns);
         setParameterIfExists(pt, print_user_options_, "print_user_options", ns);
-        setParameterIfExists(pt, print_frequency_iter_, "print_frequency_iter_", ns);
+        setParameterIfExists(pt, print_frequency_iter_, "print_frequency_iter", ns);
         setParameterIfExists(pt, printInfoString_, "printInfoString", ns);
         setParameterIfExists(pt, derivativeTestTol_, "derivativeTestTol", ns);
         setParameterIfExists(pt, derivativeTestPerturbation_, "derivativeTestPerturbation", ns);
-- 
2.43.0


From 8eb030badd62124f2124c68f94ef53a160fe6941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 088/113] fix: NLOptConSettings::load ignored discretization,
 algorithm and solver of files without integrator

---
 .../ct/optcon/solver/NLOptConSettings.hpp        | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
index fd6918b..f156587 100644
--- a/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
+++ b/ct_optcon/include/ct/optcon/solver/NLOptConSettings.hpp
@@ -548,7 +548,12 @@ public:
 
                 exit(-1);
             }
+        } catch (...)
+        {
+        }
 
+        try
+        {
             std::string discretizationStr = pt.get<std::string>(ns + ".discretization");
             if (stringToDiscretization.find(discretizationStr) != stringToDiscretization.end())
             {
@@ -565,7 +570,12 @@ public:
 
                 exit(-1);
             }
+        } catch (...)
+        {
+        }
 
+        try
+        {
             std::string nlocp_algorithmStr = pt.get<std::string>(ns + ".nlocp_algorithm");
             if (stringToNlocAlgorithm.find(nlocp_algorithmStr) != stringToNlocAlgorithm.end())
             {
@@ -583,8 +593,12 @@ public:
 
                 exit(-1);
             }
+        } catch (...)
+        {
+        }
 
-
+        try
+        {
             std::string locp_solverStr = pt.get<std::string>(ns + ".locp_solver");
             if (stringToLqocSolver.find(locp_solverStr) != stringToLqocSolver.end())
             {
-- 
2.43.0


From 4fcff98e63996b81c6fca14daa39ae3464e1bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 089/113] fix: filter settings read matrices and scalars from
 different namespaces

---
 .../include/ct/optcon/filter/FilterSettings.h | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/ct_optcon/include/ct/optcon/filter/FilterSettings.h b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
index 26247e2..8acf606 100644
--- a/ct_optcon/include/ct/optcon/filter/FilterSettings.h
+++ b/ct_optcon/include/ct/optcon/filter/FilterSettings.h
@@ -51,11 +51,12 @@ struct StateObserverSettings
 
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
+        const std::string prefix = ns.empty() ? "" : ns + ".";
 
-        ct::core::loadMatrix(filename, "C", C, ns);
-        ct::core::loadMatrix(filename, "Q", Q, ns);
-        ct::core::loadMatrix(filename, "R", R, ns);
-        ct::core::loadMatrix(filename, "dFdv", dFdv, ns);
+        ct::core::loadMatrix(filename, "C", C, prefix);
+        ct::core::loadMatrix(filename, "Q", Q, prefix);
+        ct::core::loadMatrix(filename, "R", R, prefix);
+        ct::core::loadMatrix(filename, "dFdv", dFdv, prefix);
 
         if (verbose)
         {
@@ -111,9 +112,10 @@ struct SteadyStateKalmanFilterSettings
 
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
+        const std::string prefix = ns.empty() ? "" : ns + ".";
 
-        maxDAREIterations = pt.get<size_t>(ns + ".maxDAREIterations", 1000);
-        ct::core::loadMatrix(filename, "x0", x0, ns);
+        maxDAREIterations = pt.get<size_t>(prefix + "maxDAREIterations", 1000);
+        ct::core::loadMatrix(filename, "x0", x0, prefix);
 
         if (verbose)
         {
@@ -158,9 +160,10 @@ struct ExtendedKalmanFilterSettings
 
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
+        const std::string prefix = ns.empty() ? "" : ns + ".";
 
-        ct::core::loadMatrix(filename, "x0", x0, ns);
-        ct::core::loadMatrix(filename, "P0", P0, ns);
+        ct::core::loadMatrix(filename, "x0", x0, prefix);
+        ct::core::loadMatrix(filename, "P0", P0, prefix);
 
         if (verbose)
         {
@@ -211,12 +214,13 @@ struct UnscentedKalmanFilterSettings
 
         boost::property_tree::ptree pt;
         boost::property_tree::read_info(filename, pt);
+        const std::string prefix = ns.empty() ? "" : ns + ".";
 
-        ct::core::loadMatrix(filename, "x0", x0, ns);
-        alpha = pt.get<SCALAR>(ns + ".alpha");
-        beta = pt.get<SCALAR>(ns + ".beta");
-        kappa = pt.get<SCALAR>(ns + ".kappa");
-        ct::core::loadMatrix(filename, "P0", P0, ns);
+        ct::core::loadMatrix(filename, "x0", x0, prefix);
+        alpha = pt.get<SCALAR>(prefix + "alpha");
+        beta = pt.get<SCALAR>(prefix + "beta");
+        kappa = pt.get<SCALAR>(prefix + "kappa");
+        ct::core::loadMatrix(filename, "P0", P0, prefix);
 
         if (verbose)
         {
-- 
2.43.0


From 0199ad6c99ea987e3a1b45ac39e5d79cd9f7d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:52 +0000
Subject: [PATCH 090/113] fix: SimpleArmTrajectoryGenerator could stop before
 the last joint reached its target

---
 ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h b/ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h
index 8a6ac9d..adf36c0 100644
--- a/ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h
+++ b/ct_rbd/include/ct/rbd/common/SimpleArmTrajectoryGenerator.h
@@ -60,7 +60,7 @@ public:
         }
 
         SCALAR time_horizon = *std::max_element(planned_joint_times.begin(), planned_joint_times.end());
-        size_t num_traj_points = round(time_horizon / sampling_time) + 1;
+        size_t num_traj_points = ceil(time_horizon / sampling_time) + 1;
 
         if (verbose)
         {
-- 
2.43.0


From 599fdab271bedeae4f7854989bcaeadbcb83a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:52 +0000
Subject: [PATCH 091/113] fix: per-joint constructors of
 SecondOrderActuatorDynamics did not compile

---
 .../robot/actuator/SecondOrderActuatorDynamics-impl.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
index 3a02d0b..d054513 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
@@ -27,10 +27,10 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n or zeta is not correct size");
 
-    oscillators_.resize(NJOINTS);
+    oscillators_.reserve(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] =
-            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i]));
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i])));
 }
 
 template <size_t NJOINTS, typename SCALAR>
@@ -41,9 +41,10 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     if ((w_n.size() != NJOINTS) || (zeta.size() != NJOINTS) || (g_dc.size() != NJOINTS))
         throw std::runtime_error("SecondOrderActuatorDynamics: w_n, zeta or g_dc is not correct size");
 
-    oscillators_.resize(NJOINTS);
+    oscillators_.reserve(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
-        oscillators_[i] = ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]);
+        oscillators_.push_back(
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)g_dc[i]));
 }
 
 template <size_t NJOINTS, typename SCALAR>
-- 
2.43.0


From cfe4d382ff732228e2fab05da3d178b0b7dc5d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:21 +0000
Subject: [PATCH 092/113] fix: JointPositionPIDController::setAllPIDGains
 discarded the sampling time and the limits

---
 .../rbd/robot/control/JointPositionPIDController-impl.h  | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h b/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
index 7dbd3dc..c45a927 100644
--- a/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
@@ -80,13 +80,12 @@ void JointPositionPIDController<NJOINTS>::setDesiredPosition(double desiredPosit
 template <size_t NJOINTS>
 void JointPositionPIDController<NJOINTS>::setAllPIDGains(double kp, double ki, double kd)
 {
-    PIDController::parameters_t parameters;
-    parameters.k_p = kp;
-    parameters.k_i = ki;
-    parameters.k_d = kd;
-
     for (size_t i = 0; i < NJOINTS; i++)
     {
+        PIDController::parameters_t parameters = jointControllers_[i].Parameters();
+        parameters.k_p = kp;
+        parameters.k_i = ki;
+        parameters.k_d = kd;
         jointControllers_[i].changeParameters(parameters);
     }
 }
-- 
2.43.0


From ad2d91343e2fa4ee43d0c903ac224de51633da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:21 +0000
Subject: [PATCH 093/113] fix: JointPositionPIDController could not be cloned

---
 .../ct/rbd/robot/control/JointPositionPIDController-impl.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h b/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
index c45a927..012c180 100644
--- a/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/control/JointPositionPIDController-impl.h
@@ -11,7 +11,7 @@ namespace rbd {
 template <size_t NJOINTS>
 JointPositionPIDController<NJOINTS>* JointPositionPIDController<NJOINTS>::clone() const
 {
-    throw std::runtime_error("RBD: JointPositionPIDController.h, clone() not implemented");
+    return new JointPositionPIDController<NJOINTS>(*this);
 }
 
 template <size_t NJOINTS>
-- 
2.43.0


From af66cbaadb2d6c4675450c2ce172516ad6f7dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:21 +0000
Subject: [PATCH 094/113] fix: JointState comparison operators did not compile

---
 ct_rbd/include/ct/rbd/state/JointState.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/state/JointState.h b/ct_rbd/include/ct/rbd/state/JointState.h
index 2beb6e4..9fcd192 100644
--- a/ct_rbd/include/ct/rbd/state/JointState.h
+++ b/ct_rbd/include/ct/rbd/state/JointState.h
@@ -59,12 +59,12 @@ public:
 
     inline bool operator<(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() < rhs.array()).isConstant(1);
+        return (state_.array() < rhs.state_.array()).isConstant(1);
     }
 
     inline bool operator>(const JointState<NJOINTS, SCALAR>& rhs) const
     {
-        return (this->array() > rhs.array()).isConstant(1);
+        return (state_.array() > rhs.state_.array()).isConstant(1);
     }
 
     bool isApprox(const JointState<NJOINTS, SCALAR>& rhs, const SCALAR& tol = 1e-10)
-- 
2.43.0


From 8661976f8aea54cd966ca0122bb175da0eae6f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:26 +0000
Subject: [PATCH 095/113] fix: SecondOrderActuatorDynamics with unit
 amplification amplified by w_n^2

---
 .../ct/core/systems/continuous_time/SecondOrderSystem.h       | 2 +-
 .../ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h  | 4 ++--
 .../ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
index 64c79fd..27c757e 100644
--- a/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/SecondOrderSystem.h
@@ -76,7 +76,7 @@ public:
 	 *
 	 * @param w_n eigenfrequency
 	 * @param zeta damping ratio
-	 * @param g_dc DC gain on input, set to \f$ w_n^2 \f$ to achieve amplification 1
+	 * @param g_dc DC gain on input, 1 for unit amplification
 	 * @param controller controller (optional)
 	 */
     SecondOrderSystem(SCALAR w_n,
diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
index d054513..de5e03f 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics-impl.h
@@ -10,7 +10,7 @@ namespace rbd {
 
 template <size_t NJOINTS, typename SCALAR>
 SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(double w_n, double zeta)
-    : oscillators_(NJOINTS, ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n, (SCALAR)zeta, (SCALAR)(w_n * w_n)))
+    : oscillators_(NJOINTS, ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n, (SCALAR)zeta, SCALAR(1.0)))
 {
 }
 
@@ -30,7 +30,7 @@ SecondOrderActuatorDynamics<NJOINTS, SCALAR>::SecondOrderActuatorDynamics(std::v
     oscillators_.reserve(NJOINTS);
     for (size_t i = 0; i < NJOINTS; i++)
         oscillators_.push_back(
-            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], (SCALAR)(w_n[i] * w_n[i])));
+            ct::core::tpl::SecondOrderSystem<SCALAR>((SCALAR)w_n[i], (SCALAR)zeta[i], SCALAR(1.0)));
 }
 
 template <size_t NJOINTS, typename SCALAR>
diff --git a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h
index d8c1ea1..1ad64af 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/SecondOrderActuatorDynamics.h
@@ -26,13 +26,13 @@ public:
     //! constructor assuming unit amplification
     SecondOrderActuatorDynamics(double w_n, double zeta);
 
-    //! constructor assuming custom amplification, set g_dc = w_n*w_n
+    //! constructor assuming custom amplification g_dc
     SecondOrderActuatorDynamics(double w_n, double zeta, double g_dc);
 
     //! constructor assuming unit amplification
     SecondOrderActuatorDynamics(std::vector<double> w_n, std::vector<double> zeta);
 
-    //! constructor assuming custom amplification, set g_dc = w_n*w_n
+    //! constructor assuming custom amplification g_dc
     SecondOrderActuatorDynamics(std::vector<double> w_n, std::vector<double> zeta, std::vector<double> g_dc);
 
     //! destructor
-- 
2.43.0


From db771cde5f370a02601d22ae93a3840108a65d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:26 +0000
Subject: [PATCH 096/113] fix: copies and clones of LTI systems lost their
 controller

---
 .../include/ct/core/systems/continuous_time/linear/LTISystem.h | 2 +-
 .../ct/core/systems/discrete_time/linear/DiscreteLTISystem.h   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
index 7a3c7e0..816b1ca 100644
--- a/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
+++ b/ct_core/include/ct/core/systems/continuous_time/linear/LTISystem.h
@@ -57,7 +57,7 @@ public:
     }
 
     //! copy constructor
-    LTISystem(const LTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    LTISystem(const LTISystem& arg) : LinearSystem<STATE_DIM, CONTROL_DIM>(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
     //! deep clone
     LTISystem<STATE_DIM, CONTROL_DIM>* clone() const override { return new LTISystem<STATE_DIM, CONTROL_DIM>(*this); }
     virtual ~LTISystem() {}
diff --git a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
index 78186a1..09b79e9 100644
--- a/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
+++ b/ct_core/include/ct/core/systems/discrete_time/linear/DiscreteLTISystem.h
@@ -51,7 +51,8 @@ public:
     }
 
     //! copy constructor
-    DiscreteLTISystem(const DiscreteLTISystem& arg) : A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
+    DiscreteLTISystem(const DiscreteLTISystem& arg)
+        : DiscreteLinearSystem<STATE_DIM, CONTROL_DIM>(arg), A_(arg.A_), B_(arg.B_), C_(arg.C_), D_(arg.D_) {}
     //! deep clone
     DiscreteLTISystem<STATE_DIM, CONTROL_DIM>* clone() const override
     {
-- 
2.43.0


From 5cbd17cef4d8327179412dbbd7f5c54a83b052bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:26 +0000
Subject: [PATCH 097/113] fix: DisturbedSystemController printed every control
 through std::cout, racing between clones

---
 .../include/ct/optcon/filter/DisturbedSystemController-impl.h    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
index 6a3fdd1..11f4c80 100644
--- a/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
+++ b/ct_optcon/include/ct/optcon/filter/DisturbedSystemController-impl.h
@@ -40,7 +40,6 @@ void DisturbedSystemController<STATE_DIM, DIST_DIM, CONTROL_DIM, SCALAR>::comput
 
     controller_->computeControl(state.template head<STATE_DIM>(), t, controlAction);
 
-    std::cout << "DisturbedSystemController computed control: " << controlAction.transpose() << std::endl;
 }
 
 template <size_t STATE_DIM, size_t DIST_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From ff49617554211da098807c87aebca0dee630a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:08 +0000
Subject: [PATCH 098/113] fix: floating-base inverse dynamics of HyQ did not
 compile

---
 .../HyQ/generated/inverse_dynamics.impl.h     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h b/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h
index c5972c6..65e4d31 100644
--- a/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h
+++ b/ct_models/include/ct/models/HyQ/generated/inverse_dynamics.impl.h
@@ -255,40 +255,40 @@ void iit::HyQ::dyn::tpl::InverseDynamics<TRAIT>::id(
     trunk_a = - trunk_Ic.inverse() * trunk_f;
     
     LF_hipassembly_a = xm->fr_LF_hipassembly_X_fr_trunk * trunk_a;
-    jForces(LF_HAA) = (LF_hipassembly_Ic.row(iit::rbd::AZ) * LF_hipassembly_a + LF_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(LF_HAA) = (LF_hipassembly_Ic.row(iit::rbd::AZ) * LF_hipassembly_a)(0) + LF_hipassembly_f(iit::rbd::AZ);
     
     LF_upperleg_a = xm->fr_LF_upperleg_X_fr_LF_hipassembly * LF_hipassembly_a;
-    jForces(LF_HFE) = (LF_upperleg_Ic.row(iit::rbd::AZ) * LF_upperleg_a + LF_upperleg_f(iit::rbd::AZ))(0);
+    jForces(LF_HFE) = (LF_upperleg_Ic.row(iit::rbd::AZ) * LF_upperleg_a)(0) + LF_upperleg_f(iit::rbd::AZ);
     
     LF_lowerleg_a = xm->fr_LF_lowerleg_X_fr_LF_upperleg * LF_upperleg_a;
-    jForces(LF_KFE) = (LF_lowerleg_Ic.row(iit::rbd::AZ) * LF_lowerleg_a + LF_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(LF_KFE) = (LF_lowerleg_Ic.row(iit::rbd::AZ) * LF_lowerleg_a)(0) + LF_lowerleg_f(iit::rbd::AZ);
     
     RF_hipassembly_a = xm->fr_RF_hipassembly_X_fr_trunk * trunk_a;
-    jForces(RF_HAA) = (RF_hipassembly_Ic.row(iit::rbd::AZ) * RF_hipassembly_a + RF_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(RF_HAA) = (RF_hipassembly_Ic.row(iit::rbd::AZ) * RF_hipassembly_a)(0) + RF_hipassembly_f(iit::rbd::AZ);
     
     RF_upperleg_a = xm->fr_RF_upperleg_X_fr_RF_hipassembly * RF_hipassembly_a;
-    jForces(RF_HFE) = (RF_upperleg_Ic.row(iit::rbd::AZ) * RF_upperleg_a + RF_upperleg_f(iit::rbd::AZ))(0);
+    jForces(RF_HFE) = (RF_upperleg_Ic.row(iit::rbd::AZ) * RF_upperleg_a)(0) + RF_upperleg_f(iit::rbd::AZ);
     
     RF_lowerleg_a = xm->fr_RF_lowerleg_X_fr_RF_upperleg * RF_upperleg_a;
-    jForces(RF_KFE) = (RF_lowerleg_Ic.row(iit::rbd::AZ) * RF_lowerleg_a + RF_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(RF_KFE) = (RF_lowerleg_Ic.row(iit::rbd::AZ) * RF_lowerleg_a)(0) + RF_lowerleg_f(iit::rbd::AZ);
     
     LH_hipassembly_a = xm->fr_LH_hipassembly_X_fr_trunk * trunk_a;
-    jForces(LH_HAA) = (LH_hipassembly_Ic.row(iit::rbd::AZ) * LH_hipassembly_a + LH_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(LH_HAA) = (LH_hipassembly_Ic.row(iit::rbd::AZ) * LH_hipassembly_a)(0) + LH_hipassembly_f(iit::rbd::AZ);
     
     LH_upperleg_a = xm->fr_LH_upperleg_X_fr_LH_hipassembly * LH_hipassembly_a;
-    jForces(LH_HFE) = (LH_upperleg_Ic.row(iit::rbd::AZ) * LH_upperleg_a + LH_upperleg_f(iit::rbd::AZ))(0);
+    jForces(LH_HFE) = (LH_upperleg_Ic.row(iit::rbd::AZ) * LH_upperleg_a)(0) + LH_upperleg_f(iit::rbd::AZ);
     
     LH_lowerleg_a = xm->fr_LH_lowerleg_X_fr_LH_upperleg * LH_upperleg_a;
-    jForces(LH_KFE) = (LH_lowerleg_Ic.row(iit::rbd::AZ) * LH_lowerleg_a + LH_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(LH_KFE) = (LH_lowerleg_Ic.row(iit::rbd::AZ) * LH_lowerleg_a)(0) + LH_lowerleg_f(iit::rbd::AZ);
     
     RH_hipassembly_a = xm->fr_RH_hipassembly_X_fr_trunk * trunk_a;
-    jForces(RH_HAA) = (RH_hipassembly_Ic.row(iit::rbd::AZ) * RH_hipassembly_a + RH_hipassembly_f(iit::rbd::AZ))(0);
+    jForces(RH_HAA) = (RH_hipassembly_Ic.row(iit::rbd::AZ) * RH_hipassembly_a)(0) + RH_hipassembly_f(iit::rbd::AZ);
     
     RH_upperleg_a = xm->fr_RH_upperleg_X_fr_RH_hipassembly * RH_hipassembly_a;
-    jForces(RH_HFE) = (RH_upperleg_Ic.row(iit::rbd::AZ) * RH_upperleg_a + RH_upperleg_f(iit::rbd::AZ))(0);
+    jForces(RH_HFE) = (RH_upperleg_Ic.row(iit::rbd::AZ) * RH_upperleg_a)(0) + RH_upperleg_f(iit::rbd::AZ);
     
     RH_lowerleg_a = xm->fr_RH_lowerleg_X_fr_RH_upperleg * RH_upperleg_a;
-    jForces(RH_KFE) = (RH_lowerleg_Ic.row(iit::rbd::AZ) * RH_lowerleg_a + RH_lowerleg_f(iit::rbd::AZ))(0);
+    jForces(RH_KFE) = (RH_lowerleg_Ic.row(iit::rbd::AZ) * RH_lowerleg_a)(0) + RH_lowerleg_f(iit::rbd::AZ);
     
 
     trunk_a += g;
-- 
2.43.0


From 910fd18ef6abaa14e407d3b0a5d9eb9f55c8b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 099/113] fix: QuadrotorLinear did not compile (return types
 not covariant with LinearSystem)

---
 ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
index 32c2283..5a7bd46 100644
--- a/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
+++ b/ct_models/include/ct/models/Quadrotor/QuadrotorLinear.hpp
@@ -18,8 +18,8 @@ public:
     typedef ct::core::StateVector<quadrotor::nStates> state_vector_t;
     typedef ct::core::ControlVector<quadrotor::nControls> control_vector_t;
 
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nStates> state_matrix_t;
-    typedef Eigen::Matrix<double, quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
+    typedef ct::core::StateMatrix<quadrotor::nStates> state_matrix_t;
+    typedef ct::core::StateControlMatrix<quadrotor::nStates, quadrotor::nControls> state_control_matrix_t;
 
 
     QuadrotorLinear* clone() const override { return new QuadrotorLinear(*this); }
-- 
2.43.0


From 245a735b18af572edb10dfc211626ab38b83b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:17 +0000
Subject: [PATCH 100/113] fix: generated Hessian code confused state inputs
 with weights

---
 .../ct/core/internal/autodiff/CGHelpers.h     |   2 +-
 .../HyA/codegen/HyAInverseDynHessian.cpp      | 776 +++++++++---------
 2 files changed, 389 insertions(+), 389 deletions(-)

diff --git a/ct_core/include/ct/core/internal/autodiff/CGHelpers.h b/ct_core/include/ct/core/internal/autodiff/CGHelpers.h
index fbaefbf..9f22aef 100644
--- a/ct_core/include/ct/core/internal/autodiff/CGHelpers.h
+++ b/ct_core/include/ct/core/internal/autodiff/CGHelpers.h
@@ -217,7 +217,7 @@ public:
         CppAD::cg::LanguageC<double> langC("double", 4);
         langC.setIgnoreZeroDepAssign(ignoreZero);
         CppAD::cg::LangCDefaultVariableNameGenerator<double> nameGenTmp(jacName, inputName, tempName);
-        CppAD::cg::LangCDefaultHessianVarNameGenerator<double> nameGen(&nameGenTmp, "w_in", m);
+        CppAD::cg::LangCDefaultHessianVarNameGenerator<double> nameGen(&nameGenTmp, "w_in", n);
 
         std::ostringstream code;
         codeHandler.generateCode(code, langC, hes, nameGen);
diff --git a/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp b/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp
index dd4c7ff..385b5d3 100644
--- a/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp
+++ b/ct_models/include/ct/models/HyA/codegen/HyAInverseDynHessian.cpp
@@ -14,29 +14,29 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     double* hes = hessian_.data();
 
     v_[0] = sin(x_in[1]);
-    v_[1] = v_[0] * w_in[0];
+    v_[1] = v_[0] * x_in[6];
     v_[2] = 0 - v_[1];
-    v_[3] = v_[2] * w_in[1];
+    v_[3] = v_[2] * x_in[7];
     v_[4] = cos(x_in[1]);
-    v_[5] = v_[4] * w_in[0];
-    v_[6] = v_[5] * w_in[1];
+    v_[5] = v_[4] * x_in[6];
+    v_[6] = v_[5] * x_in[7];
     v_[7] = 9.81 * v_[0];
-    v_[8] = w_in[1] * w_in[1];
+    v_[8] = x_in[7] * x_in[7];
     v_[9] = cos(x_in[2]);
     v_[10] = sin(x_in[2]);
     v_[11] = 0 - v_[9];
-    v_[12] = v_[10] * v_[5] + v_[11] * w_in[1];
+    v_[12] = v_[10] * v_[5] + v_[11] * x_in[7];
     v_[13] = 0 - v_[12];
-    v_[14] = v_[9] * v_[3] + v_[13] * w_in[2];
-    v_[15] = v_[9] * v_[5] + v_[10] * w_in[1];
-    v_[16] = v_[10] * v_[3] + v_[15] * w_in[2];
+    v_[14] = v_[9] * v_[3] + v_[13] * x_in[8];
+    v_[15] = v_[9] * v_[5] + v_[10] * x_in[7];
+    v_[16] = v_[10] * v_[3] + v_[15] * x_in[8];
     v_[17] = 9.81 * v_[4];
     v_[18] = 0.112 * v_[9];
     v_[19] = -0.112 * v_[10];
     v_[20] = 0.112 * v_[9];
-    v_[21] = v_[19] * v_[5] + v_[20] * w_in[1];
-    v_[22] = v_[10] * v_[17] + v_[18] * v_[3] + v_[21] * w_in[2];
-    v_[23] = v_[1] + w_in[2];
+    v_[21] = v_[19] * v_[5] + v_[20] * x_in[7];
+    v_[22] = v_[10] * v_[17] + v_[18] * v_[3] + v_[21] * x_in[8];
+    v_[23] = v_[1] + x_in[8];
     v_[24] = 0 - v_[23] * v_[21];
     v_[25] = v_[15] * v_[23];
     v_[26] = v_[23] * v_[23];
@@ -47,20 +47,20 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[31] = 0 - v_[30];
     v_[32] = v_[30] * v_[15] + v_[28] * v_[23];
     v_[33] = 0 - v_[32];
-    v_[34] = v_[31] * v_[6] + v_[28] * v_[14] + v_[33] * w_in[3];
+    v_[34] = v_[31] * v_[6] + v_[28] * v_[14] + v_[33] * x_in[9];
     v_[35] = v_[28] * v_[15] + v_[31] * v_[23];
-    v_[36] = v_[28] * v_[6] + v_[30] * v_[14] + v_[35] * w_in[3];
+    v_[36] = v_[28] * v_[6] + v_[30] * v_[14] + v_[35] * x_in[9];
     v_[37] = -0.304 * v_[14] + -1 * v_[22];
     v_[38] = 0.112 * v_[10];
-    v_[39] = v_[18] * v_[5] + v_[38] * w_in[1];
+    v_[39] = v_[18] * v_[5] + v_[38] * x_in[7];
     v_[40] = 0 - v_[39];
-    v_[41] = v_[9] * v_[17] + v_[19] * v_[3] + v_[40] * w_in[2];
+    v_[41] = v_[9] * v_[17] + v_[19] * v_[3] + v_[40] * x_in[8];
     v_[42] = -0.304 * v_[30];
     v_[43] = -0.304 * v_[28];
     v_[44] = v_[43] * v_[12] + v_[28] * v_[21];
-    v_[45] = v_[28] * v_[7] + v_[30] * v_[41] + v_[42] * v_[16] + v_[44] * w_in[3];
+    v_[45] = v_[28] * v_[7] + v_[30] * v_[41] + v_[42] * v_[16] + v_[44] * x_in[9];
     v_[46] = -0.304 * v_[15] + -1 * v_[39];
-    v_[47] = -1 * v_[12] + w_in[3];
+    v_[47] = -1 * v_[12] + x_in[9];
     v_[48] = v_[35] * v_[46] - v_[47] * v_[44];
     v_[49] = v_[35] * v_[47];
     v_[50] = v_[47] * v_[47];
@@ -70,21 +70,21 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[54] = 0 - v_[52];
     v_[55] = v_[53] * v_[35] + v_[54] * v_[47];
     v_[56] = 0 - v_[55];
-    v_[57] = v_[53] * v_[29] + v_[52] * v_[34] + v_[56] * w_in[4];
+    v_[57] = v_[53] * v_[29] + v_[52] * v_[34] + v_[56] * x_in[10];
     v_[58] = v_[52] * v_[35] + v_[53] * v_[47];
-    v_[59] = v_[54] * v_[29] + v_[53] * v_[34] + v_[58] * w_in[4];
+    v_[59] = v_[54] * v_[29] + v_[53] * v_[34] + v_[58] * x_in[10];
     v_[60] = 0.112 * v_[53];
     v_[61] = 0.112 * v_[52];
     v_[62] = 0 - v_[52];
     v_[63] = 0 - v_[30];
     v_[64] = v_[42] * v_[12] + v_[30] * v_[21];
     v_[65] = 0 - v_[64];
-    v_[66] = v_[63] * v_[7] + v_[28] * v_[41] + v_[43] * v_[16] + v_[65] * w_in[3];
+    v_[66] = v_[63] * v_[7] + v_[28] * v_[41] + v_[43] * v_[16] + v_[65] * x_in[9];
     v_[67] = 0.112 * v_[52];
     v_[68] = -0.112 * v_[53];
     v_[69] = v_[67] * v_[47] + v_[68] * v_[35] + v_[53] * v_[46] + v_[52] * v_[44];
-    v_[70] = v_[60] * v_[29] + v_[61] * v_[34] + v_[62] * v_[37] + v_[53] * v_[66] + v_[69] * w_in[4];
-    v_[71] = v_[32] + w_in[4];
+    v_[70] = v_[60] * v_[29] + v_[61] * v_[34] + v_[62] * v_[37] + v_[53] * v_[66] + v_[69] * x_in[10];
+    v_[71] = v_[32] + x_in[10];
     v_[72] = v_[58] * v_[64] - v_[71] * v_[69];
     v_[73] = v_[58] * v_[71];
     v_[74] = v_[71] * v_[71];
@@ -97,25 +97,25 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[81] = 0.184 * v_[76] - 0.02075 * v_[77];
     v_[82] = v_[77] * v_[64] + v_[76] * v_[80] + v_[81] * v_[58];
     v_[83] = 0 - v_[82];
-    v_[84] = v_[79] * v_[45] + v_[77] * v_[70] + v_[78] * v_[57] + v_[83] * w_in[5];
+    v_[84] = v_[79] * v_[45] + v_[77] * v_[70] + v_[78] * v_[57] + v_[83] * x_in[11];
     v_[85] = v_[76] * v_[55] + v_[77] * v_[71];
     v_[86] = 0 - v_[76];
     v_[87] = v_[77] * v_[55] + v_[86] * v_[71];
     v_[88] = v_[85] * v_[87];
     v_[89] = 0.02075 * v_[71] + -0.184 * v_[55] + v_[69];
     v_[90] = v_[85] * v_[89];
-    v_[91] = v_[58] + w_in[5];
+    v_[91] = v_[58] + x_in[11];
     v_[92] = v_[91] * v_[82];
     v_[93] = 1.547475 * v_[84] + 0.038686875 * v_[57] + 0.038686875 * v_[88] + -1.547475 * (v_[90] - v_[92]);
     v_[94] = v_[79] * v_[64] + v_[77] * v_[80] + v_[78] * v_[58];
     v_[95] = v_[91] * v_[91];
     v_[96] = v_[87] * v_[87];
     v_[97] = 1.547475 * (v_[87] * v_[89] - v_[91] * v_[94]) +
-             1.547475 * (v_[77] * v_[45] + v_[76] * v_[70] + v_[81] * v_[57] + v_[94] * w_in[5]) -
+             1.547475 * (v_[77] * v_[45] + v_[76] * v_[70] + v_[81] * v_[57] + v_[94] * x_in[11]) -
              0.038686875 * (v_[95] + v_[96]);
     v_[98] = 0 - v_[85];
-    v_[99] = v_[86] * v_[36] + v_[77] * v_[59] + v_[98] * w_in[5];
-    v_[100] = v_[77] * v_[36] + v_[76] * v_[59] + v_[87] * w_in[5];
+    v_[99] = v_[86] * v_[36] + v_[77] * v_[59] + v_[98] * x_in[11];
+    v_[100] = v_[77] * v_[36] + v_[76] * v_[59] + v_[87] * x_in[11];
     v_[101] = v_[85] * v_[91];
     v_[102] = v_[87] * v_[91];
     v_[103] = v_[85] * v_[85];
@@ -127,7 +127,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
              0.038686875 * (v_[92] - v_[90]) + -0.000829 * v_[101] - 1.5e-05 * v_[102] - 0.000198 * (v_[96] - v_[103]) -
              -0.008386 * v_[104] - -0.001243 * v_[105];
     v_[90] = 0 - v_[80];
-    v_[84] = v_[67] * v_[29] + v_[68] * v_[34] + v_[53] * v_[37] + v_[52] * v_[66] + v_[90] * w_in[4];
+    v_[84] = v_[67] * v_[29] + v_[68] * v_[34] + v_[53] * v_[37] + v_[52] * v_[66] + v_[90] * x_in[10];
     v_[106] = v_[55] * v_[64] - v_[71] * v_[80];
     v_[107] = 0.02075 * v_[36] + -0.184 * v_[59] + v_[84];
     v_[108] = v_[85] * v_[94] - v_[87] * v_[82];
@@ -194,22 +194,22 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               0.01438086 * (v_[26] + v_[27]);
     v_[84] = -0.01438086 * v_[6] + 0.647967112 * v_[14] + 2.327 * v_[22] + 2.327 * v_[24] + 0.647967112 * v_[104] +
              0.01438086 * v_[73] + -1 * v_[84] - -0.0055615274403 * (v_[26] + v_[75]);
-    v_[26] = v_[1] * w_in[1];
+    v_[26] = v_[1] * x_in[7];
     v_[88] = v_[1] * v_[5];
-    v_[95] = w_in[6] * v_[4];
-    v_[96] = w_in[7] * v_[38] + v_[95] * v_[18];
-    v_[99] = w_in[7] * v_[10] + v_[95] * v_[9];
+    v_[95] = w_in[0] * v_[4];
+    v_[96] = w_in[1] * v_[38] + v_[95] * v_[18];
+    v_[99] = w_in[1] * v_[10] + v_[95] * v_[9];
     v_[101] = v_[96] * -1 + v_[99] * -0.304;
-    v_[51] = w_in[7] * v_[20] + v_[95] * v_[19];
-    v_[49] = w_in[7] * v_[11] + v_[95] * v_[10];
+    v_[51] = w_in[1] * v_[20] + v_[95] * v_[19];
+    v_[49] = w_in[1] * v_[11] + v_[95] * v_[10];
     v_[48] = v_[51] * v_[28] + v_[49] * v_[43];
-    v_[50] = w_in[9] + v_[49] * -1;
-    v_[113] = w_in[6] * v_[0];
-    v_[114] = w_in[8] + v_[113];
+    v_[50] = w_in[3] + v_[49] * -1;
+    v_[113] = w_in[0] * v_[0];
+    v_[114] = w_in[2] + v_[113];
     v_[115] = v_[114] * v_[31] + v_[99] * v_[28];
     v_[116] = v_[101] * v_[53] + v_[48] * v_[52] + v_[50] * v_[67] + v_[115] * v_[68];
     v_[117] = v_[114] * v_[28] + v_[99] * v_[30];
-    v_[118] = w_in[10] + v_[117];
+    v_[118] = w_in[4] + v_[117];
     v_[119] = v_[50] * v_[54] + v_[115] * v_[53];
     v_[120] = v_[116] + v_[118] * 0.02075 + v_[119] * -0.184;
     v_[121] = v_[118] * v_[86] + v_[119] * v_[77];
@@ -219,7 +219,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[125] = v_[101] * v_[62] + v_[48] * v_[53] + v_[50] * v_[60] + v_[115] * v_[61];
     v_[126] = v_[50] * v_[53] + v_[115] * v_[52];
     v_[127] = v_[124] * v_[79] + v_[125] * v_[77] + v_[126] * v_[78];
-    v_[128] = w_in[11] + v_[126];
+    v_[128] = w_in[5] + v_[126];
     v_[129] = v_[127] * 1.547475 + v_[128] * 0.038686875;
     v_[130] = v_[124] * v_[77] + v_[125] * v_[76] + v_[126] * v_[81];
     v_[131] = v_[130] * 1.547475;
@@ -240,36 +240,36 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[143] = v_[125] * 2.1032 + v_[126] * 0.057838;
     v_[144] = 0 - v_[143];
     v_[145] = v_[124] * 2.1032;
-    v_[146] = v_[142] + v_[144] * v_[71] + v_[145] * v_[55] + v_[132] * w_in[4];
+    v_[146] = v_[142] + v_[144] * v_[71] + v_[145] * v_[55] + v_[132] * x_in[10];
     v_[147] = 0 - v_[138];
     v_[148] = v_[120] * 1.547475 + (0 - v_[121]) * 0.038686875;
-    v_[149] = v_[147] * v_[91] + v_[148] * v_[85] + v_[131] * w_in[5];
+    v_[149] = v_[147] * v_[91] + v_[148] * v_[85] + v_[131] * x_in[11];
     v_[140] = 0 - v_[139] + v_[140];
     v_[139] = 0 - v_[148];
-    v_[150] = v_[140] * v_[91] + v_[139] * v_[87] - v_[129] * w_in[5];
+    v_[150] = v_[140] * v_[91] + v_[139] * v_[87] - v_[129] * x_in[11];
     v_[151] = v_[116] * -2.1032 + v_[119] * 0.057838;
     v_[152] = 0 - v_[151];
     v_[153] = 0 - v_[145];
-    v_[154] = v_[149] * v_[77] + v_[150] * v_[76] + v_[152] * v_[71] + v_[153] * v_[58] - v_[123] * w_in[4];
+    v_[154] = v_[149] * v_[77] + v_[150] * v_[76] + v_[152] * v_[71] + v_[153] * v_[58] - v_[123] * x_in[10];
     v_[155] = v_[124] * 1.7423722 + (0 - v_[50]) * -0.008711861 + v_[115] * 1.52322944854339e-09;
     v_[156] = 0 - v_[155];
     v_[157] = v_[101] * 1.7423722 + (0 - v_[115]) * 0.160298259823722 + v_[117] * -0.008711861;
-    v_[158] = v_[146] * v_[52] + v_[154] * v_[53] + v_[156] * v_[47] + v_[157] * v_[32] + v_[134] * w_in[3];
+    v_[158] = v_[146] * v_[52] + v_[154] * v_[53] + v_[156] * v_[47] + v_[157] * v_[32] + v_[134] * x_in[9];
     v_[159] = v_[48] * -1.7423722;
     v_[160] = v_[50] * 0.160298259823722;
     v_[161] = v_[117] * 1.52322944854339e-09;
     v_[162] = 0 - v_[159] + v_[160] - v_[161];
     v_[163] = 0 - v_[157];
     v_[164] = v_[149] * v_[79] + v_[150] * v_[77] + v_[143] * v_[58] + v_[151] * v_[55] + v_[162] * v_[47] +
-              v_[163] * v_[35] - v_[133] * w_in[3];
+              v_[163] * v_[35] - v_[133] * x_in[9];
     v_[165] = 0 - (v_[96] * 2.327 + (0 - v_[114]) * 0.01438086 + v_[99] * 0.647967112);
     v_[166] = (0 - v_[99]) * -0.0055615274403 + v_[49] * 0.01438086;
-    v_[167] = v_[158] * v_[28] + v_[164] * v_[30] + v_[165] * v_[23] + v_[166] * v_[12] + v_[137] * w_in[2];
+    v_[167] = v_[158] * v_[28] + v_[164] * v_[30] + v_[165] * v_[23] + v_[166] * v_[12] + v_[137] * x_in[8];
     v_[161] = v_[159] - v_[160] + v_[161];
     v_[160] = v_[146] * v_[53] + v_[154] * v_[62] + v_[155] * v_[35] + v_[161] * v_[32];
     v_[159] = v_[114] * -0.0055615274403 - (v_[51] * -2.327 + v_[49] * 0.647967112);
     v_[168] = 0 - v_[166];
-    v_[169] = v_[160] * -1 + v_[159] * v_[23] + v_[168] * v_[15] - v_[135] * w_in[2];
+    v_[169] = v_[160] * -1 + v_[159] * v_[23] + v_[168] * v_[15] - v_[135] * x_in[8];
     v_[170] = v_[118] * v_[77] + v_[119] * v_[76];
     v_[171] = (0 - v_[128]) * 1.5e-05 + v_[121] * 0.000198 + v_[170] * 0.00605;
     v_[172] = v_[120] * 0.038686875 + v_[128] * -0.000829 + (0 - v_[121]) * -0.00146 + (0 - v_[170]) * 0.000198;
@@ -289,22 +289,22 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[126] * -0.001387 + v_[119] * 0.019432;
     v_[183] = v_[147] * v_[94] + v_[140] * v_[82] + v_[171] * v_[87] + v_[172] * v_[85] + v_[175] * v_[91] +
               v_[175] * v_[91] + v_[149] * v_[78] + v_[150] * v_[81] + v_[143] * v_[64] + v_[153] * v_[80] +
-              v_[176] * v_[71] + v_[177] * v_[55] + v_[181] * v_[58] + v_[181] * v_[58] + v_[116] * w_in[4];
+              v_[176] * v_[71] + v_[177] * v_[55] + v_[181] * v_[58] + v_[181] * v_[58] + v_[116] * x_in[10];
     v_[184] = v_[127] * 0.038686875 + v_[128] * -0.00751 + (0 - v_[121]) * -0.000829 + v_[170] * 1.5e-05;
     v_[185] = (0 - v_[128]) * 0.000198;
     v_[174] = v_[130] + v_[185] - v_[174];
     v_[130] = v_[138] * v_[89] + v_[139] * v_[82] + v_[171] * v_[91] + v_[184] * v_[85] + v_[174] * v_[87] +
-              v_[174] * v_[87] + v_[182] * w_in[5];
+              v_[174] * v_[87] + v_[182] * x_in[11];
     v_[185] = 0 - v_[185] - v_[173];
     v_[173] = v_[141] * v_[89] + v_[148] * v_[94] + v_[172] * v_[91] + v_[184] * v_[87] + v_[185] * v_[85] +
-              v_[185] * v_[85] - v_[120] * w_in[5];
+              v_[185] * v_[85] - v_[120] * x_in[11];
     v_[186] = v_[125] * 0.057838 + v_[118] * -0.001243 + (0 - v_[126]) * -0.008386 + (0 - v_[119]) * -0.001387;
     v_[187] = v_[126] * -0.012652;
     v_[179] = v_[178] - v_[179] - v_[187];
     v_[170] = v_[127] * 0.038686875 + v_[128] * 0.009277 + v_[121] * -0.000829 + v_[170] * 1.5e-05 + v_[129] * v_[78] +
               v_[131] * v_[81] + v_[125] * 0.057838 + v_[118] * -0.001243 + v_[126] * 0.029115 + v_[119] * -0.001387;
     v_[128] = v_[142] * -0.184 + v_[130] * v_[77] + v_[173] * v_[76] + v_[151] * v_[64] + v_[145] * v_[69] +
-              v_[186] * v_[71] + v_[177] * v_[58] + v_[179] * v_[55] + v_[179] * v_[55] - v_[170] * w_in[4];
+              v_[186] * v_[71] + v_[177] * v_[58] + v_[179] * v_[55] + v_[179] * v_[55] - v_[170] * x_in[10];
     v_[127] = v_[101] * -0.008711861 + v_[48] * 1.52322944854339e-09 + (0 - v_[50]) * -0.00021200017 +
               v_[115] * 0.0036857284 + v_[117] * 0.077424;
     v_[121] = v_[48] * 0.160298259823722 + v_[124] * -0.008711861 + v_[50] * -0.06337651 +
@@ -319,7 +319,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[115] * 0.0036857284 + v_[117] * 0.081661;
     v_[192] = v_[146] * v_[68] + v_[154] * v_[61] + v_[183] * v_[52] + v_[128] * v_[53] + v_[155] * v_[46] +
               v_[163] * v_[64] + v_[127] * v_[47] + v_[121] * v_[32] + v_[191] * v_[35] + v_[191] * v_[35] +
-              v_[122] * w_in[3];
+              v_[122] * x_in[9];
     v_[187] = v_[187] + v_[180];
     v_[180] = v_[101] * 0.160298259823722 + v_[124] * 1.52322944854339e-09 + v_[50] * -0.0022920002 +
               (0 - v_[115]) * 0.01404749 + (0 - v_[117]) * 0.0036857284;
@@ -331,7 +331,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[142] = v_[142] * 0.02075 + v_[130] * v_[86] + v_[173] * v_[77] + v_[144] * v_[69] + v_[152] * v_[80] +
               v_[176] * v_[58] + v_[186] * v_[55] + v_[187] * v_[71] + v_[187] * v_[71] + v_[161] * v_[46] +
               v_[157] * v_[44] + v_[180] * v_[47] + v_[121] * v_[35] + v_[189] * v_[32] + v_[189] * v_[32] -
-              v_[178] * w_in[3];
+              v_[178] * x_in[9];
     v_[195] = v_[51] * 0.647967112 + (0 - v_[114]) * -0.011715295 + v_[99] * 5.399998e-05 + v_[49] * -0.199538951;
     v_[196] = v_[51] * -0.0055615274403 + v_[96] * 0.01438086 + v_[114] * 0.00750500000000001 +
               (0 - v_[99]) * -0.0037997814 + v_[49] * -0.011715295;
@@ -345,7 +345,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   -1 +
               v_[51] * -0.647967112 + v_[114] * -0.011715295 + v_[99] * 5.399998e-05 + v_[49] * 0.20236395;
     v_[160] = v_[160] * -0.304 + v_[192] * v_[28] + v_[142] * v_[30] + v_[168] * v_[39] + v_[195] * v_[23] +
-              v_[196] * v_[12] + v_[200] * v_[15] + v_[200] * v_[15] + v_[117] * w_in[2];
+              v_[196] * v_[12] + v_[200] * v_[15] + v_[200] * v_[15] + v_[117] * x_in[8];
     v_[194] = v_[193] + v_[188] + v_[194] + v_[190];
     v_[193] =
         v_[96] * 0.647967112 + v_[114] * -0.0037997814 + (0 - v_[99]) * -0.192033951 + (0 - v_[49]) * 5.399998e-05;
@@ -359,33 +359,33 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[162] * v_[64] + v_[127] * v_[35] + v_[180] * v_[32] + v_[194] * v_[47] + v_[194] * v_[47]) *
                   -1 +
               v_[166] * v_[21] + v_[193] * v_[23] + v_[196] * v_[15] + v_[198] * v_[12] + v_[198] * v_[12] -
-              v_[136] * w_in[2];
-    v_[202] = w_in[7] * 0.046852534 + (0 - v_[95]) * -0.002752 + v_[113] * -0.022851627;
-    v_[203] = (0 - w_in[7]) * 0.0055279857;
+              v_[136] * x_in[8];
+    v_[202] = w_in[1] * 0.046852534 + (0 - v_[95]) * -0.002752 + v_[113] * -0.022851627;
+    v_[203] = (0 - w_in[1]) * 0.0055279857;
     v_[204] = v_[203] - (0 - v_[113]) * -0.002752;
     v_[96] = v_[178] * v_[31] + v_[122] * v_[28] + v_[51] * -0.0055615274403 + v_[96] * -0.01438086 +
-             v_[114] * 0.010329999 + v_[99] * -0.0037997814 + v_[49] * -0.011715295 + w_in[7] * -0.022851627 +
-             v_[95] * 0.0055279857 + v_[113] * 0.039002996 + (0 - w_in[7]) * -0.022851627 + v_[95] * 0.0055279857 +
+             v_[114] * 0.010329999 + v_[99] * -0.0037997814 + v_[49] * -0.011715295 + w_in[1] * -0.022851627 +
+             v_[95] * 0.0055279857 + v_[113] * 0.039002996 + (0 - w_in[1]) * -0.022851627 + v_[95] * 0.0055279857 +
              v_[113] * -0.034462002;
     v_[205] = v_[167] * v_[19] + v_[169] * v_[18] + v_[160] * v_[9] + v_[201] * v_[10] + v_[202] * v_[1] +
-              v_[204] * v_[5] + v_[204] * v_[5] + v_[96] * w_in[1];
+              v_[204] * v_[5] + v_[204] * v_[5] + v_[96] * x_in[7];
     v_[206] = cos(x_in[1]);
-    v_[207] = v_[206] * w_in[0];
+    v_[207] = v_[206] * x_in[6];
     v_[208] = -v_[207];
-    v_[209] = v_[208] * w_in[1];
+    v_[209] = v_[208] * x_in[7];
     v_[210] = sin(x_in[1]);
     v_[211] = 0 - v_[210];
-    v_[212] = v_[211] * w_in[0];
-    v_[213] = v_[212] * w_in[1];
+    v_[212] = v_[211] * x_in[6];
+    v_[213] = v_[212] * x_in[7];
     v_[214] = 9.81 * v_[206];
     v_[215] = v_[10] * v_[212];
     v_[216] = -v_[215];
-    v_[217] = v_[9] * v_[209] + v_[216] * w_in[2];
+    v_[217] = v_[9] * v_[209] + v_[216] * x_in[8];
     v_[218] = v_[9] * v_[212];
-    v_[219] = v_[10] * v_[209] + v_[218] * w_in[2];
+    v_[219] = v_[10] * v_[209] + v_[218] * x_in[8];
     v_[220] = 9.81 * v_[211];
     v_[221] = v_[19] * v_[212];
-    v_[222] = v_[10] * v_[220] + v_[18] * v_[209] + v_[221] * w_in[2];
+    v_[222] = v_[10] * v_[220] + v_[18] * v_[209] + v_[221] * x_in[8];
     v_[223] = -(v_[207] * v_[21] + v_[23] * v_[221]);
     v_[224] = v_[218] * v_[23] + v_[15] * v_[207];
     v_[225] = v_[207] * v_[23] + v_[23] * v_[207];
@@ -393,15 +393,15 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[227] = -1 * v_[219];
     v_[228] = v_[30] * v_[218] + v_[28] * v_[207];
     v_[229] = -v_[228];
-    v_[230] = v_[31] * v_[213] + v_[28] * v_[217] + v_[229] * w_in[3];
+    v_[230] = v_[31] * v_[213] + v_[28] * v_[217] + v_[229] * x_in[9];
     v_[231] = v_[28] * v_[218] + v_[31] * v_[207];
-    v_[232] = v_[28] * v_[213] + v_[30] * v_[217] + v_[231] * w_in[3];
+    v_[232] = v_[28] * v_[213] + v_[30] * v_[217] + v_[231] * x_in[9];
     v_[233] = -0.304 * v_[217] + -1 * v_[222];
     v_[234] = v_[18] * v_[212];
     v_[235] = -v_[234];
-    v_[236] = v_[9] * v_[220] + v_[19] * v_[209] + v_[235] * w_in[2];
+    v_[236] = v_[9] * v_[220] + v_[19] * v_[209] + v_[235] * x_in[8];
     v_[237] = v_[43] * v_[215] + v_[28] * v_[221];
-    v_[238] = v_[28] * v_[214] + v_[30] * v_[236] + v_[42] * v_[219] + v_[237] * w_in[3];
+    v_[238] = v_[28] * v_[214] + v_[30] * v_[236] + v_[42] * v_[219] + v_[237] * x_in[9];
     v_[239] = -0.304 * v_[218] + -1 * v_[234];
     v_[240] = -1 * v_[215];
     v_[241] = v_[231] * v_[46] + v_[35] * v_[239] - (v_[240] * v_[44] + v_[47] * v_[237]);
@@ -410,14 +410,14 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[244] = v_[228] * v_[32] + v_[32] * v_[228];
     v_[245] = v_[53] * v_[231] + v_[54] * v_[240];
     v_[246] = -v_[245];
-    v_[247] = v_[53] * v_[227] + v_[52] * v_[230] + v_[246] * w_in[4];
+    v_[247] = v_[53] * v_[227] + v_[52] * v_[230] + v_[246] * x_in[10];
     v_[248] = v_[52] * v_[231] + v_[53] * v_[240];
-    v_[249] = v_[54] * v_[227] + v_[53] * v_[230] + v_[248] * w_in[4];
+    v_[249] = v_[54] * v_[227] + v_[53] * v_[230] + v_[248] * x_in[10];
     v_[250] = v_[42] * v_[215] + v_[30] * v_[221];
     v_[251] = -v_[250];
-    v_[252] = v_[63] * v_[214] + v_[28] * v_[236] + v_[43] * v_[219] + v_[251] * w_in[3];
+    v_[252] = v_[63] * v_[214] + v_[28] * v_[236] + v_[43] * v_[219] + v_[251] * x_in[9];
     v_[253] = v_[67] * v_[240] + v_[68] * v_[231] + v_[53] * v_[239] + v_[52] * v_[237];
-    v_[254] = v_[60] * v_[227] + v_[61] * v_[230] + v_[62] * v_[233] + v_[53] * v_[252] + v_[253] * w_in[4];
+    v_[254] = v_[60] * v_[227] + v_[61] * v_[230] + v_[62] * v_[233] + v_[53] * v_[252] + v_[253] * x_in[10];
     v_[255] = v_[248] * v_[64] + v_[58] * v_[250] - (v_[228] * v_[69] + v_[71] * v_[253]);
     v_[256] = v_[248] * v_[71] + v_[58] * v_[228];
     v_[257] = v_[228] * v_[71] + v_[71] * v_[228];
@@ -425,7 +425,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[259] = v_[60] * v_[240] + v_[61] * v_[231] + v_[62] * v_[239] + v_[53] * v_[237];
     v_[260] = v_[77] * v_[250] + v_[76] * v_[259] + v_[81] * v_[248];
     v_[261] = -v_[260];
-    v_[262] = v_[79] * v_[238] + v_[77] * v_[254] + v_[78] * v_[247] + v_[261] * w_in[5];
+    v_[262] = v_[79] * v_[238] + v_[77] * v_[254] + v_[78] * v_[247] + v_[261] * x_in[11];
     v_[263] = v_[76] * v_[245] + v_[77] * v_[228];
     v_[264] = v_[77] * v_[245] + v_[86] * v_[228];
     v_[265] = v_[263] * v_[87] + v_[85] * v_[264];
@@ -437,11 +437,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[271] = v_[248] * v_[91] + v_[91] * v_[248];
     v_[272] = v_[264] * v_[87] + v_[87] * v_[264];
     v_[273] = 1.547475 * (v_[264] * v_[89] + v_[87] * v_[266] - (v_[248] * v_[94] + v_[91] * v_[270])) +
-              1.547475 * (v_[77] * v_[238] + v_[76] * v_[254] + v_[81] * v_[247] + v_[270] * w_in[5]) -
+              1.547475 * (v_[77] * v_[238] + v_[76] * v_[254] + v_[81] * v_[247] + v_[270] * x_in[11]) -
               0.038686875 * (v_[271] + v_[272]);
     v_[274] = -v_[263];
-    v_[275] = v_[86] * v_[232] + v_[77] * v_[249] + v_[274] * w_in[5];
-    v_[276] = v_[77] * v_[232] + v_[76] * v_[249] + v_[264] * w_in[5];
+    v_[275] = v_[86] * v_[232] + v_[77] * v_[249] + v_[274] * x_in[11];
+    v_[276] = v_[77] * v_[232] + v_[76] * v_[249] + v_[264] * x_in[11];
     v_[277] = v_[263] * v_[91] + v_[85] * v_[248];
     v_[278] = v_[264] * v_[91] + v_[87] * v_[248];
     v_[279] = v_[263] * v_[85] + v_[85] * v_[263];
@@ -453,7 +453,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               -0.00751 * v_[265] + 0.038686875 * (v_[268] - v_[267]) + -0.000829 * v_[277] - 1.5e-05 * v_[278] -
               0.000198 * (v_[272] - v_[279]) - -0.008386 * v_[280] - -0.001243 * v_[281];
     v_[267] = -v_[259];
-    v_[262] = v_[67] * v_[227] + v_[68] * v_[230] + v_[53] * v_[233] + v_[52] * v_[252] + v_[267] * w_in[4];
+    v_[262] = v_[67] * v_[227] + v_[68] * v_[230] + v_[53] * v_[233] + v_[52] * v_[252] + v_[267] * x_in[10];
     v_[282] = v_[245] * v_[64] + v_[55] * v_[250] - (v_[228] * v_[80] + v_[71] * v_[259]);
     v_[283] = 0.02075 * v_[232] + -0.184 * v_[249] + v_[262];
     v_[284] = v_[263] * v_[94] + v_[85] * v_[270] - (v_[264] * v_[82] + v_[87] * v_[260]);
@@ -521,9 +521,9 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               0.01438086 * (v_[225] + v_[226]);
     v_[262] = -0.01438086 * v_[213] + 0.647967112 * v_[217] + 2.327 * v_[222] + 2.327 * v_[223] +
               0.647967112 * v_[280] + 0.01438086 * v_[256] + -1 * v_[262] - -0.0055615274403 * (v_[225] + v_[258]);
-    v_[225] = v_[207] * w_in[1];
+    v_[225] = v_[207] * x_in[7];
     v_[265] = v_[207] * v_[5] + v_[1] * v_[212];
-    v_[271] = w_in[6] * v_[211];
+    v_[271] = w_in[0] * v_[211];
     v_[272] = v_[271] * v_[18];
     v_[275] = v_[271] * v_[9];
     v_[277] = v_[272] * -1 + v_[275] * -0.304;
@@ -531,7 +531,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[242] = v_[271] * v_[10];
     v_[241] = v_[244] * v_[28] + v_[242] * v_[43];
     v_[243] = v_[242] * -1;
-    v_[289] = w_in[6] * v_[206];
+    v_[289] = w_in[0] * v_[206];
     v_[290] = v_[289] * v_[31] + v_[275] * v_[28];
     v_[291] = v_[277] * v_[53] + v_[241] * v_[52] + v_[243] * v_[67] + v_[290] * v_[68];
     v_[292] = v_[289] * v_[28] + v_[275] * v_[30];
@@ -565,23 +565,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[316] = v_[299] * 2.1032 + v_[300] * 0.057838;
     v_[317] = 0 - v_[316];
     v_[318] = v_[298] * 2.1032;
-    v_[319] = v_[315] + v_[144] * v_[228] + v_[317] * v_[71] + v_[145] * v_[245] + v_[318] * v_[55] + v_[305] * w_in[4];
+    v_[319] = v_[315] + v_[144] * v_[228] + v_[317] * v_[71] + v_[145] * v_[245] + v_[318] * v_[55] + v_[305] * x_in[10];
     v_[320] = 0 - v_[311];
     v_[321] = v_[294] * 1.547475 + (0 - v_[295]) * 0.038686875;
-    v_[322] = v_[147] * v_[248] + v_[320] * v_[91] + v_[148] * v_[263] + v_[321] * v_[85] + v_[304] * w_in[5];
+    v_[322] = v_[147] * v_[248] + v_[320] * v_[91] + v_[148] * v_[263] + v_[321] * v_[85] + v_[304] * x_in[11];
     v_[313] = 0 - v_[312] + v_[313];
     v_[312] = 0 - v_[321];
-    v_[323] = v_[140] * v_[248] + v_[313] * v_[91] + v_[139] * v_[264] + v_[312] * v_[87] - v_[302] * w_in[5];
+    v_[323] = v_[140] * v_[248] + v_[313] * v_[91] + v_[139] * v_[264] + v_[312] * v_[87] - v_[302] * x_in[11];
     v_[324] = v_[291] * -2.1032 + v_[293] * 0.057838;
     v_[325] = 0 - v_[324];
     v_[326] = 0 - v_[318];
     v_[327] = v_[322] * v_[77] + v_[323] * v_[76] + v_[152] * v_[228] + v_[325] * v_[71] + v_[153] * v_[248] +
-              v_[326] * v_[58] - v_[297] * w_in[4];
+              v_[326] * v_[58] - v_[297] * x_in[10];
     v_[328] = v_[298] * 1.7423722 + (0 - v_[243]) * -0.008711861 + v_[290] * 1.52322944854339e-09;
     v_[329] = 0 - v_[328];
     v_[330] = v_[277] * 1.7423722 + (0 - v_[290]) * 0.160298259823722 + v_[292] * -0.008711861;
     v_[331] = v_[319] * v_[52] + v_[327] * v_[53] + v_[156] * v_[240] + v_[329] * v_[47] + v_[157] * v_[228] +
-              v_[330] * v_[32] + v_[307] * w_in[3];
+              v_[330] * v_[32] + v_[307] * x_in[9];
     v_[332] = v_[241] * -1.7423722;
     v_[333] = v_[243] * 0.160298259823722;
     v_[334] = v_[292] * 1.52322944854339e-09;
@@ -589,18 +589,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[336] = 0 - v_[330];
     v_[337] = v_[322] * v_[79] + v_[323] * v_[77] + v_[143] * v_[248] + v_[316] * v_[58] + v_[151] * v_[245] +
               v_[324] * v_[55] + v_[162] * v_[240] + v_[335] * v_[47] + v_[163] * v_[231] + v_[336] * v_[35] -
-              v_[306] * w_in[3];
+              v_[306] * x_in[9];
     v_[338] = 0 - (v_[272] * 2.327 + (0 - v_[289]) * 0.01438086 + v_[275] * 0.647967112);
     v_[339] = (0 - v_[275]) * -0.0055615274403 + v_[242] * 0.01438086;
     v_[340] = v_[331] * v_[28] + v_[337] * v_[30] + v_[165] * v_[207] + v_[338] * v_[23] + v_[166] * v_[215] +
-              v_[339] * v_[12] + v_[310] * w_in[2];
+              v_[339] * v_[12] + v_[310] * x_in[8];
     v_[334] = v_[332] - v_[333] + v_[334];
     v_[333] = v_[319] * v_[53] + v_[327] * v_[62] + v_[155] * v_[231] + v_[328] * v_[35] + v_[161] * v_[228] +
               v_[334] * v_[32];
     v_[332] = v_[289] * -0.0055615274403 - (v_[244] * -2.327 + v_[242] * 0.647967112);
     v_[341] = 0 - v_[339];
     v_[342] =
-        v_[333] * -1 + v_[159] * v_[207] + v_[332] * v_[23] + v_[168] * v_[218] + v_[341] * v_[15] - v_[308] * w_in[2];
+        v_[333] * -1 + v_[159] * v_[207] + v_[332] * v_[23] + v_[168] * v_[218] + v_[341] * v_[15] - v_[308] * x_in[8];
     v_[343] = v_[292] * v_[77] + v_[293] * v_[76];
     v_[344] = (0 - v_[300]) * 1.5e-05 + v_[295] * 0.000198 + v_[343] * 0.00605;
     v_[345] = v_[294] * 0.038686875 + v_[300] * -0.000829 + (0 - v_[295]) * -0.00146 + (0 - v_[343]) * 0.000198;
@@ -625,17 +625,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[300] * -0.001387 + v_[293] * 0.019432;
     v_[349] = v_[348] + v_[322] * v_[78] + v_[323] * v_[81] + v_[143] * v_[250] + v_[316] * v_[64] + v_[153] * v_[259] +
               v_[326] * v_[80] + v_[176] * v_[228] + v_[313] * v_[71] + v_[177] * v_[245] + v_[320] * v_[55] +
-              v_[181] * v_[248] + v_[181] * v_[248] + v_[349] * v_[58] + v_[349] * v_[58] + v_[291] * w_in[4];
+              v_[181] * v_[248] + v_[181] * v_[248] + v_[349] * v_[58] + v_[349] * v_[58] + v_[291] * x_in[10];
     v_[348] = v_[301] * 0.038686875 + v_[300] * -0.00751 + (0 - v_[295]) * -0.000829 + v_[343] * 1.5e-05;
     v_[326] = (0 - v_[300]) * 0.000198;
     v_[347] = v_[303] + v_[326] - v_[347];
     v_[347] = v_[138] * v_[266] + v_[311] * v_[89] + v_[139] * v_[260] + v_[312] * v_[82] + v_[171] * v_[248] +
               v_[344] * v_[91] + v_[184] * v_[263] + v_[348] * v_[85] + v_[174] * v_[264] + v_[174] * v_[264] +
-              v_[347] * v_[87] + v_[347] * v_[87] + v_[350] * w_in[5];
+              v_[347] * v_[87] + v_[347] * v_[87] + v_[350] * x_in[11];
     v_[326] = 0 - v_[326] - v_[346];
     v_[326] = v_[141] * v_[266] + v_[314] * v_[89] + v_[148] * v_[270] + v_[321] * v_[94] + v_[172] * v_[248] +
               v_[345] * v_[91] + v_[184] * v_[264] + v_[348] * v_[87] + v_[185] * v_[263] + v_[185] * v_[263] +
-              v_[326] * v_[85] + v_[326] * v_[85] - v_[294] * w_in[5];
+              v_[326] * v_[85] + v_[326] * v_[85] - v_[294] * x_in[11];
     v_[348] = v_[299] * 0.057838 + v_[292] * -0.001243 + (0 - v_[300]) * -0.008386 + (0 - v_[293]) * -0.001387;
     v_[345] = v_[300] * -0.012652;
     v_[140] = v_[175] - v_[140] - v_[345];
@@ -644,7 +644,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[140] = v_[315] * -0.184 + v_[347] * v_[77] + v_[326] * v_[76] + v_[151] * v_[250] + v_[324] * v_[64] +
               v_[145] * v_[253] + v_[318] * v_[69] + v_[186] * v_[228] + v_[348] * v_[71] + v_[177] * v_[248] +
               v_[320] * v_[58] + v_[179] * v_[245] + v_[179] * v_[245] + v_[140] * v_[55] + v_[140] * v_[55] -
-              v_[343] * w_in[4];
+              v_[343] * x_in[10];
     v_[320] = v_[277] * -0.008711861 + v_[241] * 1.52322944854339e-09 + (0 - v_[243]) * -0.00021200017 +
               v_[290] * 0.0036857284 + v_[292] * 0.077424;
     v_[324] = v_[241] * 0.160298259823722 + v_[298] * -0.008711861 + v_[243] * -0.06337651 +
@@ -660,7 +660,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[145] = v_[319] * v_[68] + v_[327] * v_[61] + v_[349] * v_[52] + v_[140] * v_[53] + v_[155] * v_[239] +
               v_[328] * v_[46] + v_[163] * v_[250] + v_[336] * v_[64] + v_[127] * v_[240] + v_[320] * v_[47] +
               v_[121] * v_[228] + v_[324] * v_[32] + v_[191] * v_[231] + v_[191] * v_[231] + v_[145] * v_[35] +
-              v_[145] * v_[35] + v_[296] * w_in[3];
+              v_[145] * v_[35] + v_[296] * x_in[9];
     v_[345] = v_[345] + v_[147];
     v_[345] = v_[315] * 0.02075 + v_[347] * v_[86] + v_[326] * v_[77] + v_[144] * v_[253] + v_[317] * v_[69] +
               v_[152] * v_[259] + v_[325] * v_[80] + v_[176] * v_[248] + v_[313] * v_[58] + v_[186] * v_[245] +
@@ -676,7 +676,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[298] * 1.52322944854339e-09 + v_[243] * -0.0022920002 + v_[290] * 0.01828449 + v_[292] * 0.0036857284;
     v_[177] = v_[345] + v_[161] * v_[239] + v_[334] * v_[46] + v_[157] * v_[237] + v_[330] * v_[44] +
               v_[180] * v_[240] + v_[267] * v_[47] + v_[121] * v_[231] + v_[324] * v_[35] + v_[189] * v_[228] +
-              v_[189] * v_[228] + v_[177] * v_[32] + v_[177] * v_[32] - v_[318] * w_in[3];
+              v_[189] * v_[228] + v_[177] * v_[32] + v_[177] * v_[32] - v_[318] * x_in[9];
     v_[345] = v_[244] * 0.647967112 + (0 - v_[289]) * -0.011715295 + v_[275] * 5.399998e-05 + v_[242] * -0.199538951;
     v_[324] = v_[244] * -0.0055615274403 + v_[272] * 0.01438086 + v_[289] * 0.00750500000000001 +
               (0 - v_[275]) * -0.0037997814 + v_[242] * -0.011715295;
@@ -691,7 +691,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[244] * -0.647967112 + v_[289] * -0.011715295 + v_[275] * 5.399998e-05 + v_[242] * 0.20236395;
     v_[121] = v_[333] * -0.304 + v_[145] * v_[28] + v_[177] * v_[30] + v_[168] * v_[234] + v_[341] * v_[39] +
               v_[195] * v_[207] + v_[345] * v_[23] + v_[196] * v_[215] + v_[324] * v_[12] + v_[200] * v_[218] +
-              v_[200] * v_[218] + v_[121] * v_[15] + v_[121] * v_[15] + v_[161] * w_in[2];
+              v_[200] * v_[218] + v_[121] * v_[15] + v_[121] * v_[15] + v_[161] * x_in[8];
     v_[246] = v_[253] + v_[179] + v_[246] + v_[151];
     v_[246] = v_[319] * v_[67] + v_[327] * v_[60] + v_[349] * v_[53] + v_[140] * v_[54] + v_[156] * v_[237] +
               v_[329] * v_[44] + v_[162] * v_[250] + v_[335] * v_[64] + v_[127] * v_[231] + v_[320] * v_[35] +
@@ -708,7 +708,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[275] * 0.20986895 + v_[242] * 5.399998e-05;
     v_[330] = v_[331] * v_[43] + v_[337] * v_[42] + v_[246] * -1 + v_[166] * v_[221] + v_[339] * v_[21] +
               v_[193] * v_[207] + v_[251] * v_[23] + v_[196] * v_[218] + v_[324] * v_[15] + v_[198] * v_[215] +
-              v_[198] * v_[215] + v_[330] * v_[12] + v_[330] * v_[12] - v_[309] * w_in[2];
+              v_[198] * v_[215] + v_[330] * v_[12] + v_[330] * v_[12] - v_[309] * x_in[8];
     v_[246] = (0 - v_[271]) * -0.002752 + v_[289] * -0.022851627;
     v_[324] = (0 - v_[289]) * -0.002752;
     v_[339] = 0 - v_[324];
@@ -717,7 +717,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[289] * 0.039002996 + v_[271] * 0.0055279857 + v_[289] * -0.034462002;
     v_[339] = v_[340] * v_[19] + v_[342] * v_[18] + v_[121] * v_[9] + v_[330] * v_[10] + v_[202] * v_[207] +
               v_[246] * v_[1] + v_[204] * v_[212] + v_[204] * v_[212] + v_[339] * v_[5] + v_[339] * v_[5] +
-              v_[272] * w_in[1];
+              v_[272] * x_in[7];
     v_[188] = v_[190] + v_[197] + v_[188] + v_[199];
     v_[267] = v_[229] + v_[334] + v_[267] + v_[189];
     v_[267] = v_[145] * v_[31] + v_[177] * v_[28] + v_[165] * v_[221] + v_[338] * v_[21] + v_[159] * v_[234] +
@@ -731,28 +731,28 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[251] = 0 - v_[216];
     v_[345] = v_[308] * v_[19] + v_[310] * v_[18] + v_[309] * v_[9] + v_[161] * v_[10] + v_[271] * 0.08585553 +
               v_[289] * 0.0055279857;
-    v_[251] = v_[267] + v_[235] * w_in[1] + v_[202] * v_[212] + v_[246] * v_[5] + v_[203] * v_[207] +
-              v_[203] * v_[207] + v_[251] * v_[1] + v_[251] * v_[1] - v_[345] * w_in[1];
-    v_[267] = w_in[7] * -0.002752 + (0 - v_[95]) * 0.012390532 + (0 - v_[113]) * 0.0055279857;
-    v_[246] = v_[135] * v_[19] + v_[137] * v_[18] + v_[136] * v_[9] + v_[117] * v_[10] + w_in[7] * -0.002752 +
+    v_[251] = v_[267] + v_[235] * x_in[7] + v_[202] * v_[212] + v_[246] * v_[5] + v_[203] * v_[207] +
+              v_[203] * v_[207] + v_[251] * v_[1] + v_[251] * v_[1] - v_[345] * x_in[7];
+    v_[267] = w_in[1] * -0.002752 + (0 - v_[95]) * 0.012390532 + (0 - v_[113]) * 0.0055279857;
+    v_[246] = v_[135] * v_[19] + v_[137] * v_[18] + v_[136] * v_[9] + v_[117] * v_[10] + w_in[1] * -0.002752 +
               v_[95] * 0.08585553 + v_[113] * 0.0055279857;
     v_[203] = v_[192] * v_[31] + v_[142] * v_[28] + v_[165] * v_[21] + v_[159] * v_[39] + v_[195] * v_[15] +
-              v_[193] * v_[12] + v_[188] * v_[23] + v_[188] * v_[23] + v_[267] * w_in[1] + v_[202] * v_[5] +
-              v_[203] * v_[1] + v_[203] * v_[1] - v_[246] * w_in[1];
+              v_[193] * v_[12] + v_[188] * v_[23] + v_[188] * v_[23] + v_[267] * x_in[7] + v_[202] * v_[5] +
+              v_[203] * v_[1] + v_[203] * v_[1] - v_[246] * x_in[7];
     hes[13] =
         (0 -
-            (w_in[6] * (0.08585553 * v_[3] + 0.0055279857 * v_[6] + 0.0099341499912 * v_[7] + 0.0055279857 * v_[6] +
+            (w_in[0] * (0.08585553 * v_[3] + 0.0055279857 * v_[6] + 0.0099341499912 * v_[7] + 0.0055279857 * v_[6] +
                            -0.022851627 * (v_[8] - v_[1] * v_[1]) + v_[9] * v_[109] + v_[10] * v_[105] +
                            v_[19] * v_[111] + v_[18] * v_[84] - 0.012390532 * v_[26] - -0.002752 * v_[88]) +
-                (v_[135] * v_[9] + v_[137] * v_[10] + w_in[7] * 0.293374233908935 + v_[113] * -0.0099341499912) * 9.81 +
-                v_[205] * w_in[0])) *
+                (v_[135] * v_[9] + v_[137] * v_[10] + w_in[1] * 0.293374233908935 + v_[113] * -0.0099341499912) * 9.81 +
+                v_[205] * x_in[6])) *
             v_[4] -
-        (w_in[6] * (0.08585553 * v_[209] + 0.0055279857 * v_[213] + 0.0099341499912 * v_[214] + 0.0055279857 * v_[213] +
+        (w_in[0] * (0.08585553 * v_[209] + 0.0055279857 * v_[213] + 0.0099341499912 * v_[214] + 0.0055279857 * v_[213] +
                        -0.022851627 * (0 - (v_[207] * v_[1] + v_[1] * v_[207])) + v_[9] * v_[285] + v_[10] * v_[281] +
                        v_[19] * v_[287] + v_[18] * v_[262] - 0.012390532 * v_[225] - -0.002752 * v_[265]) +
-            (v_[308] * v_[9] + v_[310] * v_[10] + v_[289] * -0.0099341499912) * 9.81 + v_[339] * w_in[0]) *
+            (v_[308] * v_[9] + v_[310] * v_[10] + v_[289] * -0.0099341499912) * 9.81 + v_[339] * x_in[6]) *
             v_[210] +
-        (w_in[6] *
+        (w_in[0] *
                 (0.0055279857 * v_[209] + 0.039002996 * v_[213] + -0.0099341499912 * v_[220] + -0.034462002 * v_[213] +
                     -0.022851627 * v_[265] + 0.010329999 * v_[213] + -0.0037997814 * v_[217] + -0.011715295 * v_[219] +
                     -0.0055615274403 * v_[236] + -0.01438086 * v_[222] + -0.0055615274403 * v_[286] +
@@ -762,18 +762,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
             (v_[306] * v_[63] + v_[307] * v_[28] + v_[275] * 0.0055615274403 + v_[242] * 0.01438086 +
                 v_[271] * 0.0099341499912) *
                 9.81 +
-            v_[251] * w_in[0]) *
+            v_[251] * x_in[6]) *
             v_[206] -
-        (w_in[6] * (0.0055279857 * v_[3] + 0.039002996 * v_[6] + -0.0099341499912 * v_[17] + -0.034462002 * v_[6] +
+        (w_in[0] * (0.0055279857 * v_[3] + 0.039002996 * v_[6] + -0.0099341499912 * v_[17] + -0.034462002 * v_[6] +
                        -0.022851627 * v_[88] + 0.010329999 * v_[6] + -0.0037997814 * v_[14] + -0.011715295 * v_[16] +
                        -0.0055615274403 * v_[41] + -0.01438086 * v_[22] + -0.0055615274403 * v_[110] +
                        0.00750500000000001 * v_[73] + -0.0037997814 * v_[104] + v_[31] * v_[100] + v_[28] * v_[108] -
                        0.01438086 * v_[24] - -0.011715295 * v_[25] - 5.399998e-05 * (v_[75] - v_[27]) -
                        0.0055279857 * v_[26] - -0.002752 * (v_[8] - v_[5] * v_[5])) +
             (v_[133] * v_[63] + v_[134] * v_[28] + v_[99] * 0.0055615274403 + v_[49] * 0.01438086 +
-                w_in[7] * 0.0606159433962 + v_[95] * 0.0099341499912) *
+                w_in[1] * 0.0606159433962 + v_[95] * 0.0099341499912) *
                 9.81 +
-            v_[203] * w_in[0]) *
+            v_[203] * x_in[6]) *
             v_[0];
     hes[18] = v_[205] * v_[211] + v_[339] * v_[4] + v_[203] * v_[206] + v_[251] * v_[0];
     v_[203] = sin(x_in[2]);
@@ -781,18 +781,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     hes[14] =
         0 -
         (v_[95] * v_[285] + v_[271] * v_[109] + v_[135] * v_[220] + v_[308] * v_[17] + v_[136] * v_[209] +
-            v_[309] * v_[3] + v_[160] * v_[212] + v_[121] * v_[5] + (w_in[7] * v_[287] + v_[340] * w_in[1]) * 0.112 +
+            v_[309] * v_[3] + v_[160] * v_[212] + v_[121] * v_[5] + (w_in[1] * v_[287] + v_[340] * x_in[7]) * 0.112 +
             (v_[95] * v_[262] + v_[271] * v_[84] + v_[137] * v_[209] + v_[310] * v_[3] + v_[169] * v_[212] +
                 v_[342] * v_[5]) *
                 0.112 -
-            (w_in[7] * v_[281] + v_[330] * w_in[1])) *
+            (w_in[1] * v_[281] + v_[330] * x_in[7])) *
             v_[203] +
-        (w_in[7] * v_[285] + v_[95] * v_[281] + v_[271] * v_[105] + v_[137] * v_[220] + v_[310] * v_[17] +
-            v_[117] * v_[209] + v_[161] * v_[3] + v_[121] * w_in[1] + v_[201] * v_[212] + v_[330] * v_[5] +
+        (w_in[1] * v_[285] + v_[95] * v_[281] + v_[271] * v_[105] + v_[137] * v_[220] + v_[310] * v_[17] +
+            v_[117] * v_[209] + v_[161] * v_[3] + v_[121] * x_in[7] + v_[201] * v_[212] + v_[330] * v_[5] +
             (v_[95] * v_[287] + v_[271] * v_[111] + v_[135] * v_[209] + v_[308] * v_[3] + v_[167] * v_[212] +
                 v_[340] * v_[5]) *
                 -0.112 +
-            (w_in[7] * v_[262] + v_[342] * w_in[1]) * 0.112) *
+            (w_in[1] * v_[262] + v_[342] * x_in[7]) * 0.112) *
             v_[251];
     v_[309] = sin(x_in[3]);
     v_[161] = cos(x_in[3]);
@@ -868,21 +868,21 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[247];
     v_[216] = v_[216] + v_[324];
     hes[19] = v_[340] * v_[20] + v_[342] * v_[38] + v_[121] * v_[10] + v_[330] * v_[11] + v_[267] * v_[207] +
-              v_[235] * v_[1] + v_[216] * w_in[1] + v_[216] * w_in[1] + v_[246] * v_[208] + v_[345] * v_[2] +
+              v_[235] * v_[1] + v_[216] * x_in[7] + v_[216] * x_in[7] + v_[246] * v_[208] + v_[345] * v_[2] +
               v_[96] * v_[212] + v_[272] * v_[5];
-    v_[216] = w_in[6] * v_[4];
-    v_[246] = w_in[7] * v_[38] + v_[216] * v_[18];
-    v_[267] = w_in[7] * v_[10] + v_[216] * v_[9];
+    v_[216] = w_in[0] * v_[4];
+    v_[246] = w_in[1] * v_[38] + v_[216] * v_[18];
+    v_[267] = w_in[1] * v_[10] + v_[216] * v_[9];
     v_[345] = v_[246] * -1 + v_[267] * -0.304;
-    v_[235] = w_in[7] * v_[20] + v_[216] * v_[19];
-    v_[272] = w_in[7] * v_[11] + v_[216] * v_[10];
+    v_[235] = w_in[1] * v_[20] + v_[216] * v_[19];
+    v_[272] = w_in[1] * v_[11] + v_[216] * v_[10];
     v_[330] = v_[235] * v_[28] + v_[272] * v_[43];
-    v_[121] = w_in[9] + v_[272] * -1;
-    v_[342] = w_in[8] + w_in[6] * v_[0];
+    v_[121] = w_in[3] + v_[272] * -1;
+    v_[342] = w_in[2] + w_in[0] * v_[0];
     v_[340] = v_[342] * v_[31] + v_[267] * v_[28];
     v_[212] = v_[345] * v_[53] + v_[330] * v_[52] + v_[121] * v_[67] + v_[340] * v_[68];
     v_[208] = v_[342] * v_[28] + v_[267] * v_[30];
-    v_[207] = w_in[10] + v_[208];
+    v_[207] = w_in[4] + v_[208];
     v_[96] = v_[121] * v_[54] + v_[340] * v_[53];
     v_[1] = v_[212] + v_[207] * 0.02075 + v_[96] * -0.184;
     v_[324] = v_[207] * v_[86] + v_[96] * v_[77];
@@ -892,7 +892,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[347] = v_[345] * v_[62] + v_[330] * v_[53] + v_[121] * v_[60] + v_[340] * v_[61];
     v_[350] = v_[121] * v_[53] + v_[340] * v_[52];
     v_[294] = v_[326] * v_[79] + v_[347] * v_[77] + v_[350] * v_[78];
-    v_[323] = w_in[11] + v_[350];
+    v_[323] = w_in[5] + v_[350];
     v_[322] = v_[294] * 1.547475 + v_[323] * 0.038686875;
     v_[304] = v_[326] * v_[77] + v_[347] * v_[76] + v_[350] * v_[81];
     v_[302] = v_[304] * 1.547475;
@@ -927,17 +927,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[130] = v_[347] * 2.1032 + v_[350] * 0.057838;
     v_[182] = 0 - v_[130];
     v_[120] = v_[326] * 2.1032;
-    v_[150] = v_[173] + v_[182] * v_[71] + v_[120] * v_[55] + v_[299] * w_in[4];
+    v_[150] = v_[173] + v_[182] * v_[71] + v_[120] * v_[55] + v_[299] * x_in[10];
     v_[149] = 0 - v_[245];
     v_[131] = v_[1] * 1.547475 + (0 - v_[324]) * 0.038686875;
-    v_[129] = v_[149] * v_[91] + v_[131] * v_[85] + v_[302] * w_in[5];
+    v_[129] = v_[149] * v_[91] + v_[131] * v_[85] + v_[302] * x_in[11];
     v_[232] = 0 - v_[238] + v_[232];
     v_[238] = 0 - v_[131];
-    v_[125] = v_[232] * v_[91] + v_[238] * v_[87] - v_[322] * w_in[5];
+    v_[125] = v_[232] * v_[91] + v_[238] * v_[87] - v_[322] * x_in[11];
     v_[124] = v_[212] * -2.1032 + v_[96] * 0.057838;
     v_[119] = 0 - v_[124];
     v_[118] = 0 - v_[120];
-    v_[126] = v_[129] * v_[77] + v_[125] * v_[76] + v_[119] * v_[71] + v_[118] * v_[58] - v_[140] * w_in[4];
+    v_[126] = v_[129] * v_[77] + v_[125] * v_[76] + v_[119] * v_[71] + v_[118] * v_[58] - v_[140] * x_in[10];
     v_[343] = v_[326] * 1.7423722 + (0 - v_[121]) * -0.008711861 + v_[340] * 1.52322944854339e-09;
     v_[349] = v_[330] * -1.7423722;
     v_[291] = v_[121] * 0.160298259823722;
@@ -958,20 +958,20 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[268] = v_[255] + v_[282] - v_[257];
     v_[252] = v_[149] * v_[94] + v_[232] * v_[82] + v_[297] * v_[87] + v_[1] * v_[85] + v_[241] * v_[91] +
               v_[241] * v_[91] + v_[129] * v_[78] + v_[125] * v_[81] + v_[130] * v_[64] + v_[118] * v_[80] +
-              v_[212] * v_[71] + v_[277] * v_[55] + v_[268] * v_[58] + v_[268] * v_[58] + v_[254] * w_in[4];
+              v_[212] * v_[71] + v_[277] * v_[55] + v_[268] * v_[58] + v_[268] * v_[58] + v_[254] * x_in[10];
     v_[279] = v_[294] * 0.038686875 + v_[323] * -0.00751 + (0 - v_[324]) * -0.000829 + v_[279] * 1.5e-05;
     v_[323] = (0 - v_[323]) * 0.000198;
     v_[243] = v_[304] + v_[323] - v_[243];
     v_[304] = v_[245] * v_[89] + v_[238] * v_[82] + v_[297] * v_[91] + v_[279] * v_[85] + v_[243] * v_[87] +
-              v_[243] * v_[87] + v_[259] * w_in[5];
+              v_[243] * v_[87] + v_[259] * x_in[11];
     v_[323] = 0 - v_[323] - v_[290];
     v_[290] = v_[228] * v_[89] + v_[131] * v_[94] + v_[1] * v_[91] + v_[279] * v_[87] + v_[323] * v_[85] +
-              v_[323] * v_[85] - v_[269] * w_in[5];
+              v_[323] * v_[85] - v_[269] * x_in[11];
     v_[294] = v_[347] * 0.057838 + v_[207] * -0.001243 + (0 - v_[350]) * -0.008386 + (0 - v_[96]) * -0.001387;
     v_[324] = v_[350] * -0.012652;
     v_[282] = v_[255] - v_[282] - v_[324];
     v_[255] = v_[173] * -0.184 + v_[304] * v_[77] + v_[290] * v_[76] + v_[124] * v_[64] + v_[120] * v_[69] +
-              v_[294] * v_[71] + v_[277] * v_[58] + v_[282] * v_[55] + v_[282] * v_[55] - v_[273] * w_in[4];
+              v_[294] * v_[71] + v_[277] * v_[58] + v_[282] * v_[55] + v_[282] * v_[55] - v_[273] * x_in[10];
     v_[240] = v_[345] * 1.7423722 + (0 - v_[340]) * 0.160298259823722 + v_[208] * -0.008711861;
     v_[239] = 0 - v_[240];
     v_[237] = v_[345] * -0.008711861 + v_[330] * 1.52322944854339e-09 + (0 - v_[121]) * -0.00021200017 +
@@ -985,7 +985,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[170] = v_[231] + v_[230] + v_[227] - v_[128];
     v_[183] = v_[150] * v_[68] + v_[126] * v_[61] + v_[252] * v_[52] + v_[255] * v_[53] + v_[343] * v_[46] +
               v_[239] * v_[64] + v_[237] * v_[47] + v_[233] * v_[32] + v_[170] * v_[35] + v_[170] * v_[35] +
-              v_[300] * w_in[3];
+              v_[300] * x_in[9];
     v_[324] = v_[324] + v_[257];
     v_[257] = v_[345] * 0.160298259823722 + v_[326] * 1.52322944854339e-09 + v_[121] * -0.0022920002 +
               (0 - v_[340]) * 0.01404749 + (0 - v_[208]) * 0.0036857284;
@@ -995,7 +995,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[173] = v_[173] * 0.02075 + v_[304] * v_[86] + v_[290] * v_[77] + v_[182] * v_[69] + v_[119] * v_[80] +
               v_[212] * v_[58] + v_[294] * v_[55] + v_[324] * v_[71] + v_[324] * v_[71] + v_[319] * v_[46] +
               v_[240] * v_[44] + v_[257] * v_[47] + v_[233] * v_[35] + v_[227] * v_[32] + v_[227] * v_[32] -
-              v_[250] * w_in[3];
+              v_[250] * x_in[9];
     v_[231] = (0 - v_[267]) * -0.0055615274403 + v_[272] * 0.01438086;
     v_[146] = 0 - v_[231];
     v_[132] = v_[235] * 0.647967112 + (0 - v_[342]) * -0.011715295 + v_[267] * 5.399998e-05 + v_[272] * -0.199538951;
@@ -1009,17 +1009,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   -1 +
               v_[235] * -0.647967112 + v_[342] * -0.011715295 + v_[267] * 5.399998e-05 + v_[272] * 0.20236395;
     v_[48] = v_[305] * -0.304 + v_[183] * v_[28] + v_[173] * v_[30] + v_[146] * v_[39] + v_[132] * v_[23] +
-             v_[123] * v_[12] + v_[50] * v_[15] + v_[50] * v_[15] + v_[208] * w_in[2];
+             v_[123] * v_[12] + v_[50] * v_[15] + v_[50] * v_[15] + v_[208] * x_in[8];
     v_[101] = 0 - v_[343];
-    v_[145] = v_[150] * v_[52] + v_[126] * v_[53] + v_[101] * v_[47] + v_[240] * v_[32] + v_[293] * w_in[3];
+    v_[145] = v_[150] * v_[52] + v_[126] * v_[53] + v_[101] * v_[47] + v_[240] * v_[32] + v_[293] * x_in[9];
     v_[327] = 0 - v_[349] + v_[291] - v_[327];
     v_[291] = v_[129] * v_[79] + v_[125] * v_[77] + v_[130] * v_[58] + v_[124] * v_[55] + v_[327] * v_[47] +
-              v_[239] * v_[35] - v_[298] * w_in[3];
+              v_[239] * v_[35] - v_[298] * x_in[9];
     v_[349] = 0 - (v_[246] * 2.327 + (0 - v_[342]) * 0.01438086 + v_[267] * 0.647967112);
     v_[278] = v_[278] * -1 + v_[246] * 2.327 + v_[342] * -0.01438086 + v_[267] * 0.647967112;
-    v_[296] = v_[145] * v_[28] + v_[291] * v_[30] + v_[349] * v_[23] + v_[231] * v_[12] + v_[278] * w_in[2];
+    v_[296] = v_[145] * v_[28] + v_[291] * v_[30] + v_[349] * v_[23] + v_[231] * v_[12] + v_[278] * x_in[8];
     v_[337] = v_[342] * -0.0055615274403 - (v_[235] * -2.327 + v_[272] * 0.647967112);
-    v_[305] = v_[305] * -1 + v_[337] * v_[23] + v_[146] * v_[15] - v_[292] * w_in[2];
+    v_[305] = v_[305] * -1 + v_[337] * v_[23] + v_[146] * v_[15] - v_[292] * x_in[8];
     v_[154] = v_[116] + v_[230] + v_[154] + v_[128];
     v_[246] =
         v_[246] * 0.647967112 + v_[342] * -0.0037997814 + (0 - v_[267]) * -0.192033951 + (0 - v_[272]) * 5.399998e-05;
@@ -1029,35 +1029,35 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[327] * v_[64] + v_[237] * v_[35] + v_[257] * v_[32] + v_[154] * v_[47] + v_[154] * v_[47]) *
                   -1 +
               v_[231] * v_[21] + v_[246] * v_[23] + v_[123] * v_[15] + v_[115] * v_[12] + v_[115] * v_[12] -
-              v_[249] * w_in[2];
+              v_[249] * x_in[8];
     v_[128] = 0 - v_[203];
     v_[230] = -v_[128];
-    v_[331] = v_[251] * v_[5] + v_[230] * w_in[1];
+    v_[331] = v_[251] * v_[5] + v_[230] * x_in[7];
     v_[307] = -v_[331];
-    v_[306] = v_[128] * v_[3] + v_[307] * w_in[2];
-    v_[289] = v_[128] * v_[5] + v_[251] * w_in[1];
-    v_[242] = v_[251] * v_[3] + v_[289] * w_in[2];
+    v_[306] = v_[128] * v_[3] + v_[307] * x_in[8];
+    v_[289] = v_[128] * v_[5] + v_[251] * x_in[7];
+    v_[242] = v_[251] * v_[3] + v_[289] * x_in[8];
     v_[244] = 0.112 * v_[128];
     v_[275] = -0.112 * v_[251];
     v_[283] = 0.112 * v_[128];
-    v_[288] = v_[275] * v_[5] + v_[283] * w_in[1];
-    v_[284] = v_[251] * v_[17] + v_[244] * v_[3] + v_[288] * w_in[2];
+    v_[288] = v_[275] * v_[5] + v_[283] * x_in[7];
+    v_[284] = v_[251] * v_[17] + v_[244] * v_[3] + v_[288] * x_in[8];
     v_[276] = -v_[23] * v_[288];
     v_[236] = v_[289] * v_[23];
     v_[221] = v_[331] * v_[12] + v_[12] * v_[331];
     v_[219] = -1 * v_[242];
     v_[218] = v_[30] * v_[289];
     v_[217] = -v_[218];
-    v_[215] = v_[28] * v_[306] + v_[217] * w_in[3];
+    v_[215] = v_[28] * v_[306] + v_[217] * x_in[9];
     v_[214] = v_[28] * v_[289];
-    v_[213] = v_[30] * v_[306] + v_[214] * w_in[3];
+    v_[213] = v_[30] * v_[306] + v_[214] * x_in[9];
     v_[142] = -0.304 * v_[306] + -1 * v_[284];
     v_[178] = 0.112 * v_[251];
-    v_[192] = v_[244] * v_[5] + v_[178] * w_in[1];
+    v_[192] = v_[244] * v_[5] + v_[178] * x_in[7];
     v_[122] = -v_[192];
-    v_[164] = v_[128] * v_[17] + v_[275] * v_[3] + v_[122] * w_in[2];
+    v_[164] = v_[128] * v_[17] + v_[275] * v_[3] + v_[122] * x_in[8];
     v_[158] = v_[43] * v_[331] + v_[28] * v_[288];
-    v_[134] = v_[30] * v_[164] + v_[42] * v_[242] + v_[158] * w_in[3];
+    v_[134] = v_[30] * v_[164] + v_[42] * v_[242] + v_[158] * x_in[9];
     v_[133] = -0.304 * v_[289] + -1 * v_[192];
     v_[114] = -1 * v_[331];
     v_[49] = v_[214] * v_[46] + v_[35] * v_[133] - (v_[114] * v_[44] + v_[47] * v_[158]);
@@ -1066,14 +1066,14 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[310] = v_[218] * v_[32] + v_[32] * v_[218];
     v_[308] = v_[53] * v_[214] + v_[54] * v_[114];
     v_[271] = -v_[308];
-    v_[262] = v_[53] * v_[219] + v_[52] * v_[215] + v_[271] * w_in[4];
+    v_[262] = v_[53] * v_[219] + v_[52] * v_[215] + v_[271] * x_in[10];
     v_[287] = v_[52] * v_[214] + v_[53] * v_[114];
-    v_[281] = v_[54] * v_[219] + v_[53] * v_[215] + v_[287] * w_in[4];
+    v_[281] = v_[54] * v_[219] + v_[53] * v_[215] + v_[287] * x_in[10];
     v_[285] = v_[42] * v_[331] + v_[30] * v_[288];
     v_[220] = -v_[285];
-    v_[209] = v_[28] * v_[164] + v_[43] * v_[242] + v_[220] * w_in[3];
+    v_[209] = v_[28] * v_[164] + v_[43] * v_[242] + v_[220] * x_in[9];
     v_[201] = v_[67] * v_[114] + v_[68] * v_[214] + v_[53] * v_[133] + v_[52] * v_[158];
-    v_[136] = v_[60] * v_[219] + v_[61] * v_[215] + v_[62] * v_[142] + v_[53] * v_[209] + v_[201] * w_in[4];
+    v_[136] = v_[60] * v_[219] + v_[61] * v_[215] + v_[62] * v_[142] + v_[53] * v_[209] + v_[201] * x_in[10];
     v_[160] = v_[287] * v_[64] + v_[58] * v_[285] - (v_[218] * v_[69] + v_[71] * v_[201]);
     v_[117] = v_[287] * v_[71] + v_[58] * v_[218];
     v_[169] = v_[218] * v_[71] + v_[71] * v_[218];
@@ -1081,7 +1081,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[137] = v_[60] * v_[114] + v_[61] * v_[214] + v_[62] * v_[133] + v_[53] * v_[158];
     v_[135] = v_[77] * v_[285] + v_[76] * v_[137] + v_[81] * v_[287];
     v_[95] = -v_[135];
-    v_[339] = v_[79] * v_[134] + v_[77] * v_[136] + v_[78] * v_[262] + v_[95] * w_in[5];
+    v_[339] = v_[79] * v_[134] + v_[77] * v_[136] + v_[78] * v_[262] + v_[95] * x_in[11];
     v_[211] = v_[76] * v_[308] + v_[77] * v_[218];
     v_[206] = v_[77] * v_[308] + v_[86] * v_[218];
     v_[205] = v_[211] * v_[87] + v_[85] * v_[206];
@@ -1093,11 +1093,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[280] = v_[287] * v_[91] + v_[91] * v_[287];
     v_[226] = v_[206] * v_[87] + v_[87] * v_[206];
     v_[224] = 1.547475 * (v_[206] * v_[89] + v_[87] * v_[265] - (v_[287] * v_[94] + v_[91] * v_[256])) +
-              1.547475 * (v_[77] * v_[134] + v_[76] * v_[136] + v_[81] * v_[262] + v_[256] * w_in[5]) -
+              1.547475 * (v_[77] * v_[134] + v_[76] * v_[136] + v_[81] * v_[262] + v_[256] * x_in[11]) -
               0.038686875 * (v_[280] + v_[226]);
     v_[223] = -v_[211];
-    v_[222] = v_[86] * v_[213] + v_[77] * v_[281] + v_[223] * w_in[5];
-    v_[210] = v_[77] * v_[213] + v_[76] * v_[281] + v_[206] * w_in[5];
+    v_[222] = v_[86] * v_[213] + v_[77] * v_[281] + v_[223] * x_in[11];
+    v_[210] = v_[77] * v_[213] + v_[76] * v_[281] + v_[206] * x_in[11];
     v_[113] = v_[211] * v_[91] + v_[85] * v_[287];
     v_[88] = v_[206] * v_[91] + v_[87] * v_[287];
     v_[26] = v_[211] * v_[85] + v_[85] * v_[211];
@@ -1109,7 +1109,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               -0.00751 * v_[205] + 0.038686875 * (v_[258] - v_[225]) + -0.000829 * v_[113] - 1.5e-05 * v_[88] -
               0.000198 * (v_[226] - v_[26]) - -0.008386 * v_[75] - -0.001243 * v_[110];
     v_[225] = -v_[137];
-    v_[339] = v_[67] * v_[219] + v_[68] * v_[215] + v_[53] * v_[142] + v_[52] * v_[209] + v_[225] * w_in[4];
+    v_[339] = v_[67] * v_[219] + v_[68] * v_[215] + v_[53] * v_[142] + v_[52] * v_[209] + v_[225] * x_in[10];
     v_[73] = v_[308] * v_[64] + v_[55] * v_[285] - (v_[218] * v_[80] + v_[71] * v_[137]);
     v_[104] = 0.02075 * v_[213] + -0.184 * v_[281] + v_[339];
     v_[63] = v_[211] * v_[94] + v_[85] * v_[256] - (v_[206] * v_[82] + v_[87] * v_[135]);
@@ -1151,11 +1151,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[27] = 0.20986895 * v_[306] + 5.399998e-05 * v_[242] + 0.647967112 * v_[284] + 0.647967112 * v_[276] +
              5.399998e-05 * v_[236] + -0.011715295 * (0 - v_[221]) + v_[28] * v_[210] + v_[30] * v_[63] +
              -0.304 * v_[339] - -0.0055615274403 * v_[110] - -0.192033951 * v_[75] - -0.0037997814 * v_[117];
-    v_[25] = w_in[7] * v_[178] + v_[216] * v_[244];
-    v_[24] = w_in[7] * v_[251] + v_[216] * v_[128];
+    v_[25] = w_in[1] * v_[178] + v_[216] * v_[244];
+    v_[24] = w_in[1] * v_[251] + v_[216] * v_[128];
     v_[22] = v_[25] * -1 + v_[24] * -0.304;
-    v_[8] = w_in[7] * v_[283] + v_[216] * v_[275];
-    v_[188] = w_in[7] * v_[230] + v_[216] * v_[251];
+    v_[8] = w_in[1] * v_[283] + v_[216] * v_[275];
+    v_[188] = w_in[1] * v_[230] + v_[216] * v_[251];
     v_[202] = v_[8] * v_[28] + v_[188] * v_[43];
     v_[193] = v_[188] * -1;
     v_[195] = v_[24] * v_[28];
@@ -1203,18 +1203,18 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[348] = v_[190] * 2.1032 + v_[199] * 0.057838;
     v_[313] = 0 - v_[348];
     v_[325] = v_[334] * 2.1032;
-    v_[317] = v_[157] + v_[182] * v_[218] + v_[313] * v_[71] + v_[120] * v_[308] + v_[325] * v_[55] + v_[166] * w_in[4];
+    v_[317] = v_[157] + v_[182] * v_[218] + v_[313] * v_[71] + v_[120] * v_[308] + v_[325] * v_[55] + v_[166] * x_in[10];
     v_[315] = 0 - v_[341];
     v_[187] = v_[338] * 1.547475 + (0 - v_[234]) * 0.038686875;
-    v_[186] = v_[149] * v_[287] + v_[315] * v_[91] + v_[131] * v_[211] + v_[187] * v_[85] + v_[196] * w_in[5];
+    v_[186] = v_[149] * v_[287] + v_[315] * v_[91] + v_[131] * v_[211] + v_[187] * v_[85] + v_[196] * x_in[11];
     v_[200] = 0 - v_[333] + v_[200];
     v_[333] = 0 - v_[187];
-    v_[176] = v_[232] * v_[287] + v_[200] * v_[91] + v_[238] * v_[206] + v_[333] * v_[87] - v_[204] * w_in[5];
+    v_[176] = v_[232] * v_[287] + v_[200] * v_[91] + v_[238] * v_[206] + v_[333] * v_[87] - v_[204] * x_in[11];
     v_[152] = v_[159] * -2.1032 + v_[332] * 0.057838;
     v_[144] = 0 - v_[152];
     v_[147] = 0 - v_[325];
     v_[336] = v_[186] * v_[77] + v_[176] * v_[76] + v_[119] * v_[218] + v_[144] * v_[71] + v_[118] * v_[287] +
-              v_[147] * v_[58] - v_[189] * w_in[4];
+              v_[147] * v_[58] - v_[189] * x_in[10];
     v_[328] = v_[334] * 1.7423722 + (0 - v_[193]) * -0.008711861 + v_[195] * 1.52322944854339e-09;
     v_[191] = v_[202] * -1.7423722;
     v_[163] = v_[193] * 0.160298259823722;
@@ -1241,24 +1241,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[241] = v_[95] + v_[200] - v_[315];
     v_[241] = v_[270] + v_[186] * v_[78] + v_[176] * v_[81] + v_[130] * v_[285] + v_[348] * v_[64] + v_[118] * v_[137] +
               v_[147] * v_[80] + v_[212] * v_[218] + v_[159] * v_[71] + v_[277] * v_[308] + v_[223] * v_[55] +
-              v_[268] * v_[287] + v_[268] * v_[287] + v_[241] * v_[58] + v_[241] * v_[58] + v_[253] * w_in[4];
+              v_[268] * v_[287] + v_[268] * v_[287] + v_[241] * v_[58] + v_[241] * v_[58] + v_[253] * x_in[10];
     v_[180] = v_[197] * 0.038686875 + v_[199] * -0.00751 + (0 - v_[234]) * -0.000829 + v_[180] * 1.5e-05;
     v_[197] = (0 - v_[199]) * 0.000198;
     v_[314] = v_[198] + v_[197] - v_[314];
     v_[314] = v_[245] * v_[265] + v_[341] * v_[89] + v_[238] * v_[135] + v_[333] * v_[82] + v_[297] * v_[287] +
               v_[175] * v_[91] + v_[279] * v_[211] + v_[180] * v_[85] + v_[243] * v_[206] + v_[243] * v_[206] +
-              v_[314] * v_[87] + v_[314] * v_[87] + v_[156] * w_in[5];
+              v_[314] * v_[87] + v_[314] * v_[87] + v_[156] * x_in[11];
     v_[197] = 0 - v_[197] - v_[321];
     v_[197] = v_[228] * v_[265] + v_[168] * v_[89] + v_[131] * v_[256] + v_[187] * v_[94] + v_[1] * v_[287] +
               v_[338] * v_[91] + v_[279] * v_[206] + v_[180] * v_[87] + v_[323] * v_[211] + v_[323] * v_[211] +
-              v_[197] * v_[85] + v_[197] * v_[85] - v_[162] * w_in[5];
+              v_[197] * v_[85] + v_[197] * v_[85] - v_[162] * x_in[11];
     v_[180] = v_[190] * 0.057838 + v_[165] * -0.001243 + (0 - v_[199]) * -0.008386 + (0 - v_[332]) * -0.001387;
     v_[338] = v_[199] * -0.012652;
     v_[200] = v_[95] - v_[200] - v_[338];
     v_[200] = v_[157] * -0.184 + v_[314] * v_[77] + v_[197] * v_[76] + v_[124] * v_[285] + v_[152] * v_[64] +
               v_[120] * v_[201] + v_[325] * v_[69] + v_[294] * v_[218] + v_[180] * v_[71] + v_[277] * v_[287] +
               v_[223] * v_[58] + v_[282] * v_[308] + v_[282] * v_[308] + v_[200] * v_[55] + v_[200] * v_[55] -
-              v_[127] * w_in[4];
+              v_[127] * x_in[10];
     hes[28] = 0 -
               (v_[330] * v_[73] + v_[202] * v_[106] + v_[340] * v_[258] + v_[195] * v_[92] + v_[140] * v_[209] +
                   v_[189] * v_[66] + v_[273] * v_[215] + v_[127] * v_[34] + v_[150] * v_[158] + v_[317] * v_[44] +
@@ -1300,7 +1300,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[345] = v_[317] * v_[68] + v_[336] * v_[61] + v_[241] * v_[52] + v_[200] * v_[53] + v_[343] * v_[133] +
               v_[328] * v_[46] + v_[239] * v_[285] + v_[255] * v_[64] + v_[237] * v_[114] + v_[252] * v_[47] +
               v_[233] * v_[218] + v_[126] * v_[32] + v_[170] * v_[214] + v_[170] * v_[214] + v_[345] * v_[35] +
-              v_[345] * v_[35] + v_[229] * w_in[3];
+              v_[345] * v_[35] + v_[229] * x_in[9];
     v_[338] = v_[338] + v_[315];
     v_[338] = v_[157] * 0.02075 + v_[314] * v_[86] + v_[197] * v_[77] + v_[182] * v_[201] + v_[313] * v_[69] +
               v_[119] * v_[137] + v_[144] * v_[80] + v_[212] * v_[287] + v_[159] * v_[58] + v_[294] * v_[308] +
@@ -1314,7 +1314,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[121] = v_[150] + v_[225] - v_[121] - v_[271];
     v_[121] = v_[338] + v_[319] * v_[133] + v_[301] * v_[46] + v_[240] * v_[158] + v_[142] * v_[44] +
               v_[257] * v_[114] + v_[22] * v_[47] + v_[233] * v_[214] + v_[126] * v_[35] + v_[227] * v_[218] +
-              v_[227] * v_[218] + v_[121] * v_[32] + v_[121] * v_[32] - v_[151] * w_in[3];
+              v_[227] * v_[218] + v_[121] * v_[32] + v_[121] * v_[32] - v_[151] * x_in[9];
     v_[338] = (0 - v_[24]) * -0.0055615274403 + v_[188] * 0.01438086;
     v_[126] = 0 - v_[338];
     v_[301] = v_[8] * 0.647967112 + v_[24] * 5.399998e-05 + v_[188] * -0.199538951;
@@ -1329,7 +1329,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[8] * -0.647967112 + v_[24] * 5.399998e-05 + v_[188] * 0.20236395;
     v_[319] = v_[295] * -0.304 + v_[345] * v_[28] + v_[121] * v_[30] + v_[146] * v_[192] + v_[126] * v_[39] +
               v_[301] * v_[23] + v_[123] * v_[331] + v_[133] * v_[12] + v_[50] * v_[289] + v_[50] * v_[289] +
-              v_[319] * v_[15] + v_[319] * v_[15] + v_[253] * w_in[2];
+              v_[319] * v_[15] + v_[319] * v_[15] + v_[253] * x_in[8];
     v_[50] = -v_[23] * v_[192];
     v_[127] = 0.160298259823722 * v_[219] + -1.52322944854339e-09 * v_[213] + 1.7423722 * v_[209] +
               -1.7423722 * (v_[226] - v_[280]) + 0.160298259823722 * v_[222] + 1.52322944854339e-09 * v_[51] +
@@ -1343,11 +1343,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               0.647967112 * v_[236] + v_[28] * v_[127] + v_[30] * v_[104] - 0.01438086 * v_[221];
     v_[328] = 0 - v_[328];
     v_[142] = v_[317] * v_[52] + v_[336] * v_[53] + v_[101] * v_[114] + v_[328] * v_[47] + v_[240] * v_[218] +
-              v_[142] * v_[32] + v_[335] * w_in[3];
+              v_[142] * v_[32] + v_[335] * x_in[9];
     v_[155] = 0 - v_[191] + v_[163] - v_[155];
     v_[255] = v_[186] * v_[79] + v_[176] * v_[77] + v_[130] * v_[287] + v_[348] * v_[58] + v_[124] * v_[308] +
               v_[152] * v_[55] + v_[327] * v_[114] + v_[155] * v_[47] + v_[239] * v_[214] + v_[255] * v_[35] -
-              v_[320] * w_in[3];
+              v_[320] * x_in[9];
     hes[27] = 0 -
               (v_[235] * v_[127] + v_[8] * v_[112] + v_[342] * v_[63] + v_[267] * v_[210] + v_[24] * v_[100] +
                   v_[298] * v_[164] + v_[320] * v_[41] + v_[335] * v_[7] + v_[250] * v_[306] + v_[151] * v_[14] +
@@ -1368,12 +1368,12 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[63] = 0 - (v_[25] * 2.327 + v_[24] * 0.647967112);
     v_[194] = v_[194] * -1 + v_[25] * 2.327 + v_[24] * 0.647967112;
     v_[210] = v_[142] * v_[28] + v_[255] * v_[30] + v_[63] * v_[23] + v_[231] * v_[331] + v_[338] * v_[12] +
-              v_[194] * w_in[2];
+              v_[194] * x_in[8];
     v_[291] = v_[289] * v_[15] + v_[15] * v_[289];
     v_[339] = 0.647967112 * v_[306] + 2.327 * v_[284] + 2.327 * v_[276] + 0.647967112 * v_[75] + 0.01438086 * v_[117] +
               -1 * v_[339] - -0.0055615274403 * v_[291];
     v_[276] = 0 - (v_[8] * -2.327 + v_[188] * 0.647967112);
-    v_[126] = v_[295] * -1 + v_[276] * v_[23] + v_[146] * v_[289] + v_[126] * v_[15] - v_[329] * w_in[2];
+    v_[126] = v_[295] * -1 + v_[276] * v_[23] + v_[146] * v_[289] + v_[126] * v_[15] - v_[329] * x_in[8];
     v_[291] =
         5.399998e-05 * v_[306] + 0.20236395 * v_[242] + -0.647967112 * v_[164] + 0.01438086 * v_[110] +
         0.647967112 * v_[50] + -0.199538951 * v_[236] + -0.011715295 * v_[117] + v_[43] * v_[127] + v_[42] * v_[104] +
@@ -1395,24 +1395,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[158] = v_[320] - v_[220];
     v_[158] = v_[142] * v_[43] + v_[255] * v_[42] + v_[271] * -1 + v_[231] * v_[288] + v_[338] * v_[21] +
               v_[335] * v_[23] + v_[123] * v_[289] + v_[133] * v_[15] + v_[115] * v_[331] + v_[115] * v_[331] +
-              v_[158] * v_[12] + v_[158] * v_[12] - v_[179] * w_in[2];
+              v_[158] * v_[12] + v_[158] * v_[12] - v_[179] * x_in[8];
     hes[26] =
         (0 - (v_[216] * v_[109] + v_[292] * v_[17] + v_[249] * v_[3] + v_[48] * v_[5] +
-                 (w_in[7] * v_[111] + v_[296] * w_in[1]) * 0.112 +
+                 (w_in[1] * v_[111] + v_[296] * x_in[7]) * 0.112 +
                  (v_[216] * v_[84] + v_[278] * v_[3] + v_[305] * v_[5]) * 0.112 -
-                 (w_in[7] * v_[105] + v_[116] * w_in[1]))) *
+                 (w_in[1] * v_[105] + v_[116] * x_in[7]))) *
             v_[9] -
         (v_[216] * v_[27] + v_[329] * v_[17] + v_[179] * v_[3] + v_[319] * v_[5] +
-            (w_in[7] * v_[221] + v_[210] * w_in[1]) * 0.112 +
-            (v_[216] * v_[339] + v_[194] * v_[3] + v_[126] * v_[5]) * 0.112 - (w_in[7] * v_[291] + v_[158] * w_in[1])) *
+            (w_in[1] * v_[221] + v_[210] * x_in[7]) * 0.112 +
+            (v_[216] * v_[339] + v_[194] * v_[3] + v_[126] * v_[5]) * 0.112 - (w_in[1] * v_[291] + v_[158] * x_in[7])) *
             v_[203] +
-        (w_in[7] * v_[27] + v_[216] * v_[291] + v_[194] * v_[17] + v_[253] * v_[3] + v_[319] * w_in[1] +
+        (w_in[1] * v_[27] + v_[216] * v_[291] + v_[194] * v_[17] + v_[253] * v_[3] + v_[319] * x_in[7] +
             v_[158] * v_[5] + (v_[216] * v_[221] + v_[329] * v_[3] + v_[210] * v_[5]) * -0.112 +
-            (w_in[7] * v_[339] + v_[126] * w_in[1]) * 0.112) *
+            (w_in[1] * v_[339] + v_[126] * x_in[7]) * 0.112) *
             v_[251] -
-        (w_in[7] * v_[109] + v_[216] * v_[105] + v_[278] * v_[17] + v_[208] * v_[3] + v_[48] * w_in[1] +
+        (w_in[1] * v_[109] + v_[216] * v_[105] + v_[278] * v_[17] + v_[208] * v_[3] + v_[48] * x_in[7] +
             v_[116] * v_[5] + (v_[216] * v_[111] + v_[292] * v_[3] + v_[296] * v_[5]) * -0.112 +
-            (w_in[7] * v_[84] + v_[305] * w_in[1]) * 0.112) *
+            (w_in[1] * v_[84] + v_[305] * x_in[7]) * 0.112) *
             v_[10];
     v_[291] = v_[350] * v_[286] + v_[199] * v_[93] + v_[322] * v_[262] + v_[204] * v_[57] + v_[129] * v_[287] +
               v_[186] * v_[58];
@@ -1446,23 +1446,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[194] = v_[292] * v_[275] + v_[329] * v_[19] + v_[278] * v_[244] + v_[194] * v_[18] + v_[249] * v_[128] +
               v_[179] * v_[9] + v_[208] * v_[251] + v_[253] * v_[10];
     hes[30] = (v_[296] * v_[275] + v_[210] * v_[19] + v_[305] * v_[244] + v_[126] * v_[18] + v_[48] * v_[128] +
-                  v_[319] * v_[9] + v_[116] * v_[251] + v_[158] * v_[10] + v_[229] * w_in[1]) *
+                  v_[319] * v_[9] + v_[116] * v_[251] + v_[158] * v_[10] + v_[229] * x_in[7]) *
                   v_[4] +
-              (v_[220] - v_[194] * w_in[1]) * v_[0];
+              (v_[220] - v_[194] * x_in[7]) * v_[0];
     hes[31] = v_[296] * v_[283] + v_[210] * v_[20] + v_[305] * v_[178] + v_[126] * v_[38] + v_[48] * v_[251] +
               v_[319] * v_[10] + v_[116] * v_[230] + v_[158] * v_[11] + v_[194] * v_[2] + v_[229] * v_[5];
-    v_[194] = w_in[6] * v_[4];
-    v_[229] = w_in[7] * v_[20] + v_[194] * v_[19];
-    v_[158] = w_in[8] + w_in[6] * v_[0];
-    v_[126] = w_in[7] * v_[10] + v_[194] * v_[9];
-    v_[210] = (w_in[7] * v_[38] + v_[194] * v_[18]) * -1 + v_[126] * -0.304;
-    v_[194] = w_in[7] * v_[11] + v_[194] * v_[10];
+    v_[194] = w_in[0] * v_[4];
+    v_[229] = w_in[1] * v_[20] + v_[194] * v_[19];
+    v_[158] = w_in[2] + w_in[0] * v_[0];
+    v_[126] = w_in[1] * v_[10] + v_[194] * v_[9];
+    v_[210] = (w_in[1] * v_[38] + v_[194] * v_[18]) * -1 + v_[126] * -0.304;
+    v_[194] = w_in[1] * v_[11] + v_[194] * v_[10];
     v_[319] = v_[229] * v_[28] + v_[194] * v_[43];
-    v_[178] = w_in[9] + v_[194] * -1;
+    v_[178] = w_in[3] + v_[194] * -1;
     v_[283] = v_[158] * v_[31] + v_[126] * v_[28];
     v_[230] = v_[210] * v_[53] + v_[319] * v_[52] + v_[178] * v_[67] + v_[283] * v_[68];
     v_[116] = v_[158] * v_[28] + v_[126] * v_[30];
-    v_[305] = w_in[10] + v_[116];
+    v_[305] = w_in[4] + v_[116];
     v_[296] = v_[178] * v_[54] + v_[283] * v_[53];
     v_[48] = v_[230] + v_[305] * 0.02075 + v_[296] * -0.184;
     v_[251] = v_[305] * v_[86] + v_[296] * v_[77];
@@ -1472,7 +1472,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[128] = v_[210] * v_[62] + v_[319] * v_[53] + v_[178] * v_[60] + v_[283] * v_[61];
     v_[253] = v_[178] * v_[53] + v_[283] * v_[52];
     v_[179] = v_[244] * v_[79] + v_[128] * v_[77] + v_[253] * v_[78];
-    v_[329] = w_in[11] + v_[253];
+    v_[329] = w_in[5] + v_[253];
     v_[278] = v_[179] * 1.547475 + v_[329] * 0.038686875;
     v_[208] = v_[244] * v_[77] + v_[128] * v_[76] + v_[253] * v_[81];
     v_[249] = v_[208] * 1.547475;
@@ -1501,21 +1501,21 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[337] = v_[128] * 2.1032 + v_[253] * 0.057838;
     v_[349] = 0 - v_[337];
     v_[132] = v_[244] * 2.1032;
-    v_[39] = v_[246] + v_[349] * v_[71] + v_[132] * v_[55] + v_[292] * w_in[4];
+    v_[39] = v_[246] + v_[349] * v_[71] + v_[132] * v_[55] + v_[292] * x_in[10];
     v_[320] = 0 - v_[121];
     v_[233] = v_[48] * 1.547475 + (0 - v_[251]) * 0.038686875;
-    v_[227] = v_[320] * v_[91] + v_[233] * v_[85] + v_[249] * w_in[5];
+    v_[227] = v_[320] * v_[91] + v_[233] * v_[85] + v_[249] * x_in[11];
     v_[192] = 0 - v_[345] + v_[192];
     v_[345] = 0 - v_[233];
-    v_[151] = v_[192] * v_[91] + v_[345] * v_[87] - v_[278] * w_in[5];
+    v_[151] = v_[192] * v_[91] + v_[345] * v_[87] - v_[278] * x_in[11];
     v_[188] = v_[230] * -2.1032 + v_[296] * 0.057838;
     v_[8] = 0 - v_[188];
     v_[24] = 0 - v_[132];
-    v_[25] = v_[227] * v_[77] + v_[151] * v_[76] + v_[8] * v_[71] + v_[24] * v_[58] - v_[275] * w_in[4];
+    v_[25] = v_[227] * v_[77] + v_[151] * v_[76] + v_[8] * v_[71] + v_[24] * v_[58] - v_[275] * x_in[10];
     v_[199] = v_[244] * 1.7423722 + (0 - v_[178]) * -0.008711861 + v_[283] * 1.52322944854339e-09;
     v_[291] = 0 - v_[199];
     v_[197] = v_[210] * 1.7423722 + (0 - v_[283]) * 0.160298259823722 + v_[116] * -0.008711861;
-    v_[314] = v_[39] * v_[52] + v_[25] * v_[53] + v_[291] * v_[47] + v_[197] * v_[32] + v_[288] * w_in[3];
+    v_[314] = v_[39] * v_[52] + v_[25] * v_[53] + v_[291] * v_[47] + v_[197] * v_[32] + v_[288] * x_in[9];
     v_[176] = (0 - v_[329]) * 1.5e-05 + v_[251] * 0.000198 + v_[289] * 0.00605;
     v_[48] = v_[48] * 0.038686875 + v_[329] * -0.000829 + (0 - v_[251]) * -0.00146 + (0 - v_[289]) * 0.000198;
     v_[208] = (0 - v_[208]) * 0.038686875;
@@ -1530,20 +1530,20 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[332] = v_[204] + v_[190] - v_[334];
     v_[165] = v_[320] * v_[94] + v_[192] * v_[82] + v_[176] * v_[87] + v_[48] * v_[85] + v_[162] * v_[91] +
               v_[162] * v_[91] + v_[227] * v_[78] + v_[151] * v_[81] + v_[337] * v_[64] + v_[24] * v_[80] +
-              v_[230] * v_[71] + v_[196] * v_[55] + v_[332] * v_[58] + v_[332] * v_[58] + v_[63] * w_in[4];
+              v_[230] * v_[71] + v_[196] * v_[55] + v_[332] * v_[58] + v_[332] * v_[58] + v_[63] * x_in[10];
     v_[289] = v_[179] * 0.038686875 + v_[329] * -0.00751 + (0 - v_[251]) * -0.000829 + v_[289] * 1.5e-05;
     v_[329] = (0 - v_[329]) * 0.000198;
     v_[156] = v_[208] + v_[329] - v_[156];
     v_[208] = v_[121] * v_[89] + v_[345] * v_[82] + v_[176] * v_[91] + v_[289] * v_[85] + v_[156] * v_[87] +
-              v_[156] * v_[87] + v_[276] * w_in[5];
+              v_[156] * v_[87] + v_[276] * x_in[11];
     v_[329] = 0 - v_[329] - v_[186];
     v_[186] = v_[331] * v_[89] + v_[233] * v_[94] + v_[48] * v_[91] + v_[289] * v_[87] + v_[329] * v_[85] +
-              v_[329] * v_[85] - v_[335] * w_in[5];
+              v_[329] * v_[85] - v_[335] * x_in[11];
     v_[179] = v_[128] * 0.057838 + v_[305] * -0.001243 + (0 - v_[253]) * -0.008386 + (0 - v_[296]) * -0.001387;
     v_[251] = v_[253] * -0.012652;
     v_[190] = v_[204] - v_[190] - v_[251];
     v_[204] = v_[246] * -0.184 + v_[208] * v_[77] + v_[186] * v_[76] + v_[188] * v_[64] + v_[132] * v_[69] +
-              v_[179] * v_[71] + v_[196] * v_[58] + v_[190] * v_[55] + v_[190] * v_[55] - v_[307] * w_in[4];
+              v_[179] * v_[71] + v_[196] * v_[58] + v_[190] * v_[55] + v_[190] * v_[55] - v_[307] * x_in[10];
     v_[88] = 0 - v_[197];
     v_[26] = v_[210] * -0.008711861 + v_[319] * 1.52322944854339e-09 + (0 - v_[178]) * -0.00021200017 +
              v_[283] * 0.0036857284 + v_[116] * 0.077424;
@@ -1554,7 +1554,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[136] = v_[286] + (0 - v_[244]) * 0.160298259823722 + v_[137] - (0 - v_[116]) * -0.0022920002;
     v_[285] = v_[39] * v_[68] + v_[25] * v_[61] + v_[165] * v_[52] + v_[204] * v_[53] + v_[199] * v_[46] +
               v_[88] * v_[64] + v_[26] * v_[47] + v_[224] * v_[32] + v_[136] * v_[35] + v_[136] * v_[35] +
-              v_[220] * w_in[3];
+              v_[220] * x_in[9];
     v_[251] = v_[251] + v_[334];
     v_[334] = v_[319] * -1.7423722;
     v_[281] = v_[178] * 0.160298259823722;
@@ -1566,36 +1566,36 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[246] = v_[246] * 0.02075 + v_[208] * v_[86] + v_[186] * v_[77] + v_[349] * v_[69] + v_[8] * v_[80] +
               v_[230] * v_[58] + v_[179] * v_[55] + v_[251] * v_[71] + v_[251] * v_[71] + v_[134] * v_[46] +
               v_[197] * v_[44] + v_[116] * v_[47] + v_[224] * v_[35] + v_[137] * v_[32] + v_[137] * v_[32] -
-              v_[301] * w_in[3];
+              v_[301] * x_in[9];
     v_[286] = 0 - v_[309];
     v_[213] = -v_[161];
     v_[218] = v_[286] * v_[15] + v_[213] * v_[23];
-    v_[290] = v_[286] * v_[6] + v_[161] * v_[14] + v_[218] * w_in[3];
+    v_[290] = v_[286] * v_[6] + v_[161] * v_[14] + v_[218] * x_in[9];
     v_[304] = -0.304 * v_[286];
     v_[125] = -0.304 * v_[161];
     v_[129] = v_[125] * v_[12] + v_[161] * v_[21];
     v_[259] = -v_[129];
-    v_[269] = (-v_[161]) * v_[7] + v_[286] * v_[41] + v_[304] * v_[16] + v_[259] * w_in[3];
+    v_[269] = (-v_[161]) * v_[7] + v_[286] * v_[41] + v_[304] * v_[16] + v_[259] * x_in[9];
     v_[302] = v_[161] * v_[15] + v_[286] * v_[23];
     v_[322] = v_[302] * v_[46];
     v_[347] = v_[47] * v_[129];
     v_[326] = v_[302] * v_[35] + v_[32] * v_[218];
     v_[96] = v_[218] * v_[47];
     v_[207] = -v_[302];
-    v_[287] = v_[213] * v_[6] + v_[286] * v_[14] + v_[207] * w_in[3];
+    v_[287] = v_[213] * v_[6] + v_[286] * v_[14] + v_[207] * x_in[9];
     v_[262] = v_[304] * v_[12] + v_[286] * v_[21];
     v_[350] = v_[61] * v_[218] + v_[53] * v_[262];
     v_[339] = -v_[350];
-    v_[221] = v_[68] * v_[287] + v_[52] * v_[269] + v_[339] * w_in[4];
+    v_[221] = v_[68] * v_[287] + v_[52] * v_[269] + v_[339] * x_in[10];
     v_[27] = v_[52] * v_[218];
-    v_[216] = v_[53] * v_[287] + v_[27] * w_in[4];
+    v_[216] = v_[53] * v_[287] + v_[27] * x_in[10];
     v_[203] = v_[27] * v_[71] + v_[58] * v_[302];
     v_[84] = v_[53] * v_[218];
     v_[111] = v_[84] * v_[64] + v_[55] * v_[129] - (v_[302] * v_[80] + v_[71] * v_[350]);
     v_[105] = 0.02075 * v_[290] + -0.184 * v_[216] + v_[221];
     v_[109] = v_[76] * v_[84] + v_[77] * v_[302];
     v_[17] = -v_[109];
-    v_[3] = v_[86] * v_[290] + v_[77] * v_[216] + v_[17] * w_in[5];
+    v_[3] = v_[86] * v_[290] + v_[77] * v_[216] + v_[17] * x_in[11];
     v_[271] = v_[109] * v_[91] + v_[85] * v_[27];
     v_[255] = v_[79] * v_[129] + v_[77] * v_[350] + v_[78] * v_[27];
     v_[142] = v_[77] * v_[84] + v_[86] * v_[302];
@@ -1604,14 +1604,14 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[115] = 1.547475 * v_[105] + -0.038686875 * v_[3] + 0.038686875 * v_[271] + 1.547475 * v_[338];
     v_[123] = 2.1032 * v_[221] + -0.057838 * v_[216] + 0.057838 * v_[203] + -2.1032 * v_[111] + v_[115];
     v_[231] = v_[68] * v_[218] + v_[52] * v_[262];
-    v_[214] = v_[61] * v_[287] + v_[53] * v_[269] + v_[231] * w_in[4];
+    v_[214] = v_[61] * v_[287] + v_[53] * v_[269] + v_[231] * x_in[10];
     v_[217] = -v_[84];
-    v_[300] = v_[52] * v_[287] + v_[217] * w_in[4];
+    v_[300] = v_[52] * v_[287] + v_[217] * x_in[10];
     v_[250] = v_[84] * v_[71] + v_[55] * v_[302];
     v_[293] = v_[27] * v_[64] + v_[58] * v_[129] - (v_[302] * v_[69] + v_[71] * v_[231]);
-    v_[298] = v_[286] * v_[7] + v_[161] * v_[41] + v_[125] * v_[16] + v_[262] * w_in[3];
+    v_[298] = v_[286] * v_[7] + v_[161] * v_[41] + v_[125] * v_[16] + v_[262] * x_in[9];
     v_[155] = -v_[133];
-    v_[328] = v_[79] * v_[298] + v_[77] * v_[214] + v_[78] * v_[300] + v_[155] * w_in[5];
+    v_[328] = v_[79] * v_[298] + v_[77] * v_[214] + v_[78] * v_[300] + v_[155] * x_in[11];
     v_[22] = v_[109] * v_[87] + v_[85] * v_[142];
     v_[252] = 0.02075 * v_[302] + -0.184 * v_[84] + v_[231];
     v_[200] = v_[109] * v_[89] + v_[85] * v_[252];
@@ -1620,7 +1620,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[317] = v_[27] * v_[91] + v_[91] * v_[27];
     v_[114] = v_[142] * v_[87] + v_[87] * v_[142];
     v_[154] = 1.547475 * (v_[142] * v_[89] + v_[87] * v_[252] - (v_[27] * v_[94] + v_[91] * v_[255])) +
-              1.547475 * (v_[77] * v_[298] + v_[76] * v_[214] + v_[81] * v_[300] + v_[255] * w_in[5]) -
+              1.547475 * (v_[77] * v_[298] + v_[76] * v_[214] + v_[81] * v_[300] + v_[255] * x_in[11]) -
               0.038686875 * (v_[317] + v_[114]);
     v_[327] = 2.1032 * v_[214] + 0.057838 * v_[300] + 0.057838 * v_[250] + 2.1032 * v_[293] + v_[77] * v_[336] +
               v_[76] * v_[154];
@@ -1630,7 +1630,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               -0.008711861 * v_[101];
     v_[237] = v_[302] * v_[44] + v_[32] * v_[262] - (v_[218] * v_[64] + v_[35] * v_[129]);
     v_[225] = v_[84] * v_[58] + v_[55] * v_[27];
-    v_[330] = v_[77] * v_[290] + v_[76] * v_[216] + v_[142] * w_in[5];
+    v_[330] = v_[77] * v_[290] + v_[76] * v_[216] + v_[142] * x_in[11];
     v_[340] = v_[142] * v_[91] + v_[87] * v_[27];
     v_[104] = v_[109] * v_[85] + v_[85] * v_[109];
     v_[338] = -0.000829 * v_[300] + 0.003227 * v_[3] + 0.000198 * v_[330] + -0.038686875 * v_[105] +
@@ -1700,23 +1700,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[51] = v_[114] * 2.1032 + v_[241] * 0.057838;
     v_[49] = 0 - v_[51];
     v_[164] = v_[330] * 2.1032;
-    v_[215] = v_[310] + v_[349] * v_[302] + v_[49] * v_[71] + v_[132] * v_[84] + v_[164] * v_[55] + v_[271] * w_in[4];
+    v_[215] = v_[310] + v_[349] * v_[302] + v_[49] * v_[71] + v_[132] * v_[84] + v_[164] * v_[55] + v_[271] * x_in[10];
     v_[219] = 0 - v_[73];
     v_[236] = v_[111] * 1.547475 + (0 - v_[203]) * 0.038686875;
-    v_[242] = v_[320] * v_[27] + v_[219] * v_[91] + v_[233] * v_[109] + v_[236] * v_[85] + v_[293] * w_in[5];
+    v_[242] = v_[320] * v_[27] + v_[219] * v_[91] + v_[233] * v_[109] + v_[236] * v_[85] + v_[293] * x_in[11];
     v_[258] = 0 - v_[169] + v_[258];
     v_[169] = 0 - v_[236];
-    v_[306] = v_[192] * v_[27] + v_[258] * v_[91] + v_[345] * v_[142] + v_[169] * v_[87] - v_[22] * w_in[5];
+    v_[306] = v_[192] * v_[27] + v_[258] * v_[91] + v_[345] * v_[142] + v_[169] * v_[87] - v_[22] * x_in[11];
     v_[295] = v_[225] * -2.1032 + v_[115] * 0.057838;
     v_[146] = 0 - v_[295];
     v_[284] = 0 - v_[164];
     v_[145] = v_[242] * v_[77] + v_[306] * v_[76] + v_[8] * v_[302] + v_[146] * v_[71] + v_[24] * v_[27] +
-              v_[284] * v_[58] - v_[340] * w_in[4];
+              v_[284] * v_[58] - v_[340] * x_in[10];
     v_[173] = v_[330] * 1.7423722 + v_[96] * 1.52322944854339e-09;
     v_[183] = 0 - v_[173];
     v_[342] = (0 - v_[96]) * 0.160298259823722 + v_[250] * -0.008711861;
     v_[272] = v_[215] * v_[52] + v_[145] * v_[53] + v_[183] * v_[47] + v_[197] * v_[302] + v_[342] * v_[32] +
-              v_[110] * w_in[3];
+              v_[110] * x_in[9];
     v_[235] = (0 - v_[241]) * 1.5e-05 + v_[203] * 0.000198 + v_[205] * 0.00605;
     v_[111] = v_[111] * 0.038686875 + v_[241] * -0.000829 + (0 - v_[203]) * -0.00146 + (0 - v_[205]) * 0.000198;
     v_[328] = (0 - v_[328]) * 0.038686875;
@@ -1736,24 +1736,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[162] = v_[17] + v_[258] - v_[219];
     v_[162] = v_[348] + v_[242] * v_[78] + v_[306] * v_[81] + v_[337] * v_[129] + v_[51] * v_[64] + v_[24] * v_[350] +
               v_[284] * v_[80] + v_[230] * v_[302] + v_[225] * v_[71] + v_[196] * v_[84] + v_[155] * v_[55] +
-              v_[332] * v_[27] + v_[332] * v_[27] + v_[162] * v_[58] + v_[162] * v_[58] + v_[113] * w_in[4];
+              v_[332] * v_[27] + v_[332] * v_[27] + v_[162] * v_[58] + v_[162] * v_[58] + v_[113] * x_in[10];
     v_[205] = v_[200] * 0.038686875 + v_[241] * -0.00751 + (0 - v_[203]) * -0.000829 + v_[205] * 1.5e-05;
     v_[200] = (0 - v_[241]) * 0.000198;
     v_[152] = v_[328] + v_[200] - v_[152];
     v_[152] = v_[121] * v_[252] + v_[73] * v_[89] + v_[345] * v_[133] + v_[169] * v_[82] + v_[176] * v_[27] +
               v_[235] * v_[91] + v_[289] * v_[109] + v_[205] * v_[85] + v_[156] * v_[142] + v_[156] * v_[142] +
-              v_[152] * v_[87] + v_[152] * v_[87] + v_[222] * w_in[5];
+              v_[152] * v_[87] + v_[152] * v_[87] + v_[222] * x_in[11];
     v_[200] = 0 - v_[200] - v_[267];
     v_[200] = v_[331] * v_[252] + v_[209] * v_[89] + v_[233] * v_[255] + v_[236] * v_[94] + v_[48] * v_[27] +
               v_[111] * v_[91] + v_[289] * v_[142] + v_[205] * v_[87] + v_[329] * v_[109] + v_[329] * v_[109] +
-              v_[200] * v_[85] + v_[200] * v_[85] - v_[226] * w_in[5];
+              v_[200] * v_[85] + v_[200] * v_[85] - v_[226] * x_in[11];
     v_[205] = v_[114] * 0.057838 + v_[250] * -0.001243 + (0 - v_[241]) * -0.008386 + (0 - v_[115]) * -0.001387;
     v_[111] = v_[241] * -0.012652;
     v_[258] = v_[17] - v_[258] - v_[111];
     v_[258] = v_[310] * -0.184 + v_[152] * v_[77] + v_[200] * v_[76] + v_[188] * v_[129] + v_[295] * v_[64] +
               v_[132] * v_[231] + v_[164] * v_[69] + v_[179] * v_[302] + v_[205] * v_[71] + v_[196] * v_[27] +
               v_[155] * v_[58] + v_[190] * v_[84] + v_[190] * v_[84] + v_[258] * v_[55] + v_[258] * v_[55] -
-              v_[280] * w_in[4];
+              v_[280] * x_in[10];
     hes[40] =
         0 -
         (v_[319] * v_[123] + v_[101] * v_[106] + v_[283] * v_[104] + v_[96] * v_[92] + v_[275] * v_[269] +
@@ -1783,7 +1783,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[204] = v_[123] - v_[269];
     v_[204] = v_[215] * v_[68] + v_[145] * v_[61] + v_[162] * v_[52] + v_[258] * v_[53] + v_[173] * v_[46] +
               v_[88] * v_[129] + v_[75] * v_[64] + v_[104] * v_[47] + v_[224] * v_[302] + v_[327] * v_[32] +
-              v_[136] * v_[218] + v_[136] * v_[218] + v_[204] * v_[35] + v_[204] * v_[35] + v_[221] * w_in[3];
+              v_[136] * v_[218] + v_[136] * v_[218] + v_[204] * v_[35] + v_[204] * v_[35] + v_[221] * x_in[9];
     v_[111] = v_[111] + v_[219];
     v_[111] = v_[310] * 0.02075 + v_[152] * v_[86] + v_[200] * v_[77] + v_[349] * v_[231] + v_[49] * v_[69] +
               v_[8] * v_[350] + v_[146] * v_[80] + v_[230] * v_[27] + v_[225] * v_[58] + v_[179] * v_[84] +
@@ -1799,17 +1799,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[205] = v_[292] - v_[275];
     v_[205] = v_[111] + v_[63] * v_[46] + v_[197] * v_[262] + v_[342] * v_[44] + v_[307] * v_[47] + v_[224] * v_[218] +
               v_[327] * v_[35] + v_[137] * v_[302] + v_[137] * v_[302] + v_[205] * v_[32] + v_[205] * v_[32] -
-              v_[160] * w_in[3];
+              v_[160] * x_in[9];
     v_[322] = 1.52322944854339e-09 * v_[287] + 1.7423722 * v_[298] + 1.7423722 * v_[322] +
               1.52322944854339e-09 * v_[50] + -0.008711861 * v_[326] +
               2.1032 * (v_[84] * v_[69] + v_[55] * v_[231] - (v_[27] * v_[80] + v_[58] * v_[350])) + 2.1032 * v_[298] +
               v_[79] * v_[336] + v_[77] * v_[154] - 0.160298259823722 * v_[117] - 0.057838 * (v_[105] + v_[127]);
     v_[339] = 0 - v_[217] - v_[339];
     v_[75] = v_[242] * v_[79] + v_[306] * v_[77] + v_[337] * v_[27] + v_[51] * v_[58] + v_[188] * v_[84] +
-             v_[295] * v_[55] + v_[339] * v_[47] + v_[88] * v_[218] + v_[75] * v_[35] - v_[3] * w_in[3];
+             v_[295] * v_[55] + v_[339] * v_[47] + v_[88] * v_[218] + v_[75] * v_[35] - v_[3] * x_in[9];
     v_[308] = 0 - v_[334] + v_[281] - v_[308];
     v_[88] = v_[227] * v_[79] + v_[151] * v_[77] + v_[337] * v_[58] + v_[188] * v_[55] + v_[308] * v_[47] +
-             v_[88] * v_[35] - v_[122] * w_in[3];
+             v_[88] * v_[35] - v_[122] * x_in[9];
     hes[39] =
         (0 - (v_[229] * v_[112] + v_[158] * v_[108] + v_[126] * v_[100] + v_[122] * v_[41] + v_[288] * v_[7] +
                  v_[301] * v_[14] + v_[220] * v_[6] + v_[314] * v_[21] + v_[285] * v_[15] + v_[246] * v_[23] +
@@ -1850,17 +1850,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[247];
     v_[241] = v_[340] * v_[53] + v_[271] * v_[62] + v_[96] * -0.160298259823722 + v_[250] * -0.008711861;
     v_[322] = v_[241] * -1;
-    v_[200] = v_[314] * v_[286] + v_[272] * v_[28] + v_[88] * v_[161] + v_[75] * v_[30] + v_[322] * w_in[2];
+    v_[200] = v_[314] * v_[286] + v_[272] * v_[28] + v_[88] * v_[161] + v_[75] * v_[30] + v_[322] * x_in[8];
     v_[63] = v_[215] * v_[53] + v_[145] * v_[62] + v_[199] * v_[218] + v_[173] * v_[35] + v_[134] * v_[302] +
              v_[63] * v_[32];
     v_[173] = v_[122] * v_[286] + v_[3] * v_[28] + v_[288] * v_[161] + v_[110] * v_[30];
-    v_[134] = v_[63] * -1 - v_[173] * w_in[2];
+    v_[134] = v_[63] * -1 - v_[173] * x_in[8];
     v_[113] = v_[122] * v_[304] + v_[3] * v_[43] + v_[288] * v_[125] + v_[110] * v_[42] +
               (v_[340] * v_[67] + v_[271] * v_[60] + v_[280] * v_[53] + v_[113] * v_[54] + v_[101] * 0.160298259823722 +
                   v_[330] * 0.008711861 + v_[96] * -0.0022920002 + v_[250] * -0.00021200017) *
                   -1;
     v_[63] = v_[63] * -0.304 + v_[285] * v_[286] + v_[204] * v_[28] + v_[246] * v_[161] + v_[205] * v_[30] +
-             v_[113] * w_in[2];
+             v_[113] * x_in[8];
     v_[275] = v_[292] + v_[123] + v_[275] + v_[269];
     v_[275] = v_[215] * v_[67] + v_[145] * v_[60] + v_[162] * v_[53] + v_[258] * v_[54] + v_[291] * v_[262] +
               v_[183] * v_[44] + v_[308] * v_[129] + v_[339] * v_[64] + v_[26] * v_[218] + v_[104] * v_[35] +
@@ -1869,26 +1869,26 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[160] * v_[33] + v_[220] * v_[218] + v_[221] * v_[35] + v_[275];
     v_[241] = v_[241] * -0.304 + v_[301] * v_[286] + v_[160] * v_[28] + v_[220] * v_[161] + v_[221] * v_[30];
     v_[275] =
-        v_[314] * v_[304] + v_[272] * v_[43] + v_[88] * v_[125] + v_[75] * v_[42] + v_[275] * -1 - v_[241] * w_in[2];
+        v_[314] * v_[304] + v_[272] * v_[43] + v_[88] * v_[125] + v_[75] * v_[42] + v_[275] * -1 - v_[241] * x_in[8];
     v_[221] = v_[301] * v_[213] + v_[160] * v_[31] + v_[220] * v_[286] + v_[221] * v_[28];
     v_[205] = v_[285] * v_[213] + v_[204] * v_[31] + v_[246] * v_[286] + v_[205] * v_[28];
     hes[44] = v_[173] * v_[40] + v_[322] * v_[21] + v_[241] * v_[13] + v_[113] * v_[15] + v_[205];
     v_[241] = v_[173] * v_[19] + v_[322] * v_[18] + v_[241] * v_[9] + v_[113] * v_[10];
-    hes[42] = (v_[200] * v_[19] + v_[134] * v_[18] + v_[63] * v_[9] + v_[275] * v_[10] + v_[221] * w_in[1]) * v_[4] +
-              (v_[205] - v_[241] * w_in[1]) * v_[0];
+    hes[42] = (v_[200] * v_[19] + v_[134] * v_[18] + v_[63] * v_[9] + v_[275] * v_[10] + v_[221] * x_in[7]) * v_[4] +
+              (v_[205] - v_[241] * x_in[7]) * v_[0];
     hes[43] =
         v_[200] * v_[20] + v_[134] * v_[38] + v_[63] * v_[10] + v_[275] * v_[11] + v_[241] * v_[2] + v_[221] * v_[5];
-    v_[241] = w_in[6] * v_[4];
-    v_[221] = w_in[7] * v_[20] + v_[241] * v_[19];
-    v_[275] = w_in[7] * v_[11] + v_[241] * v_[10];
+    v_[241] = w_in[0] * v_[4];
+    v_[221] = w_in[1] * v_[20] + v_[241] * v_[19];
+    v_[275] = w_in[1] * v_[11] + v_[241] * v_[10];
     v_[63] = v_[221] * v_[28] + v_[275] * v_[43];
-    v_[134] = w_in[8] + w_in[6] * v_[0];
-    v_[200] = w_in[7] * v_[10] + v_[241] * v_[9];
+    v_[134] = w_in[2] + w_in[0] * v_[0];
+    v_[200] = w_in[1] * v_[10] + v_[241] * v_[9];
     v_[205] = v_[134] * v_[31] + v_[200] * v_[28];
-    v_[241] = (w_in[7] * v_[38] + v_[241] * v_[18]) * -1 + v_[200] * -0.304;
-    v_[113] = w_in[9] + v_[275] * -1;
+    v_[241] = (w_in[1] * v_[38] + v_[241] * v_[18]) * -1 + v_[200] * -0.304;
+    v_[113] = w_in[3] + v_[275] * -1;
     v_[173] = v_[241] * v_[53] + v_[63] * v_[52] + v_[113] * v_[67] + v_[205] * v_[68];
-    v_[200] = w_in[10] + v_[134] * v_[28] + v_[200] * v_[30];
+    v_[200] = w_in[4] + v_[134] * v_[28] + v_[200] * v_[30];
     v_[134] = v_[113] * v_[54] + v_[205] * v_[53];
     v_[322] = v_[173] + v_[200] * 0.02075 + v_[134] * -0.184;
     v_[204] = v_[200] * v_[86] + v_[134] * v_[77];
@@ -1898,7 +1898,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[221] = v_[241] * v_[62] + v_[63] * v_[53] + v_[113] * v_[60] + v_[205] * v_[61];
     v_[246] = v_[113] * v_[53] + v_[205] * v_[52];
     v_[285] = v_[275] * v_[79] + v_[221] * v_[77] + v_[246] * v_[78];
-    v_[160] = w_in[11] + v_[246];
+    v_[160] = w_in[5] + v_[246];
     v_[220] = v_[200] * v_[77] + v_[134] * v_[76];
     v_[301] = v_[285] * 1.547475 + v_[160] * 0.038686875;
     v_[88] = v_[275] * v_[77] + v_[221] * v_[76] + v_[246] * v_[81];
@@ -1914,7 +1914,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[262] = 0 - v_[3];
     v_[207] = v_[275] * 2.1032;
     v_[259] = v_[301] * v_[77] + v_[75] * v_[76] + v_[221] * 2.1032 + v_[246] * 0.057838;
-    v_[218] = v_[110] + v_[262] * v_[71] + v_[207] * v_[55] + v_[259] * w_in[4];
+    v_[218] = v_[110] + v_[262] * v_[71] + v_[207] * v_[55] + v_[259] * x_in[10];
     v_[288] = 0 - v_[125];
     v_[314] = 0 - v_[304] + v_[314];
     v_[304] = (0 - v_[160]) * 1.5e-05 + v_[204] * 0.000198 + v_[220] * 0.00605;
@@ -1924,9 +1924,9 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[339] = (0 - v_[220]) * -0.000829;
     v_[307] = v_[88] + v_[308] + v_[339];
     v_[104] = v_[322] * 1.547475 + (0 - v_[204]) * 0.038686875;
-    v_[258] = v_[288] * v_[91] + v_[104] * v_[85] + v_[75] * w_in[5];
+    v_[258] = v_[288] * v_[91] + v_[104] * v_[85] + v_[75] * x_in[11];
     v_[162] = 0 - v_[104];
-    v_[183] = v_[314] * v_[91] + v_[162] * v_[87] - v_[301] * w_in[5];
+    v_[183] = v_[314] * v_[91] + v_[162] * v_[87] - v_[301] * x_in[11];
     v_[145] = 0 - v_[207];
     v_[215] = v_[173] * 0.057838 + (0 - v_[200]) * -0.012652 + v_[246] * -0.001387 + v_[134] * -0.018069;
     v_[302] = v_[200] * 0.009683 + (0 - v_[246]) * -0.001243 + v_[134] * -0.012652;
@@ -1939,22 +1939,22 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[246] * -0.001387 + v_[134] * 0.019432;
     v_[32] = v_[288] * v_[94] + v_[314] * v_[82] + v_[304] * v_[87] + v_[122] * v_[85] + v_[307] * v_[91] +
              v_[307] * v_[91] + v_[258] * v_[78] + v_[183] * v_[81] + v_[3] * v_[64] + v_[145] * v_[80] +
-             v_[215] * v_[71] + v_[302] * v_[55] + v_[26] * v_[58] + v_[26] * v_[58] + v_[213] * w_in[4];
+             v_[215] * v_[71] + v_[302] * v_[55] + v_[26] * v_[58] + v_[26] * v_[58] + v_[213] * x_in[10];
     v_[173] = v_[173] * -2.1032 + v_[134] * 0.057838;
     v_[292] = 0 - v_[173];
-    v_[269] = v_[258] * v_[77] + v_[183] * v_[76] + v_[292] * v_[71] + v_[145] * v_[58] - v_[286] * w_in[4];
+    v_[269] = v_[258] * v_[77] + v_[183] * v_[76] + v_[292] * v_[71] + v_[145] * v_[58] - v_[286] * x_in[10];
     v_[220] = v_[285] * 0.038686875 + v_[160] * -0.00751 + (0 - v_[204]) * -0.000829 + v_[220] * 1.5e-05;
     v_[160] = (0 - v_[160]) * 0.000198;
     v_[339] = v_[88] + v_[160] - v_[339];
     v_[88] = v_[125] * v_[89] + v_[162] * v_[82] + v_[304] * v_[91] + v_[220] * v_[85] + v_[339] * v_[87] +
-             v_[339] * v_[87] + v_[291] * w_in[5];
+             v_[339] * v_[87] + v_[291] * x_in[11];
     v_[160] = 0 - v_[160] - v_[308];
     v_[308] = v_[161] * v_[89] + v_[104] * v_[94] + v_[122] * v_[91] + v_[220] * v_[87] + v_[160] * v_[85] +
-              v_[160] * v_[85] - v_[322] * w_in[5];
+              v_[160] * v_[85] - v_[322] * x_in[11];
     v_[285] = v_[221] * 0.057838 + v_[200] * -0.001243 + (0 - v_[246]) * -0.008386 + (0 - v_[134]) * -0.001387;
     v_[116] = v_[129] - v_[116] - v_[246] * -0.012652;
     v_[110] = v_[110] * -0.184 + v_[88] * v_[77] + v_[308] * v_[76] + v_[173] * v_[64] + v_[207] * v_[69] +
-              v_[285] * v_[71] + v_[302] * v_[58] + v_[116] * v_[55] + v_[116] * v_[55] - v_[272] * w_in[4];
+              v_[285] * v_[71] + v_[302] * v_[58] + v_[116] * v_[55] + v_[116] * v_[55] - v_[272] * x_in[10];
     v_[129] = 0 - v_[177];
     v_[204] = 0.112 * v_[129];
     v_[123] = -0.112 * v_[318];
@@ -1963,17 +1963,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[330] = -v_[129];
     v_[340] = v_[280] * v_[47] + v_[271] * v_[35] + v_[330] * v_[46] + v_[318] * v_[44];
     v_[250] = -v_[340];
-    v_[96] = v_[204] * v_[29] + v_[123] * v_[34] + v_[318] * v_[37] + v_[129] * v_[66] + v_[250] * w_in[4];
+    v_[96] = v_[204] * v_[29] + v_[123] * v_[34] + v_[318] * v_[37] + v_[129] * v_[66] + v_[250] * x_in[10];
     v_[101] = -v_[129];
     v_[199] = v_[129] * v_[35] + v_[318] * v_[47];
-    v_[152] = v_[101] * v_[29] + v_[318] * v_[34] + v_[199] * w_in[4];
+    v_[152] = v_[101] * v_[29] + v_[318] * v_[34] + v_[199] * x_in[10];
     v_[306] = v_[199] * v_[71];
     v_[242] = v_[318] * v_[35] + v_[101] * v_[47];
     v_[222] = v_[242] * v_[64] - v_[71] * v_[340];
     v_[226] = -0.184 * v_[152] + v_[96];
     v_[293] = v_[76] * v_[242];
     v_[22] = -v_[293];
-    v_[114] = v_[77] * v_[152] + v_[22] * w_in[5];
+    v_[114] = v_[77] * v_[152] + v_[22] * x_in[11];
     v_[115] = v_[293] * v_[91] + v_[85] * v_[199];
     v_[317] = v_[77] * v_[340] + v_[78] * v_[199];
     v_[338] = v_[77] * v_[242];
@@ -1982,12 +1982,12 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[298] = 1.547475 * v_[226] + -0.038686875 * v_[114] + 0.038686875 * v_[115] + 1.547475 * v_[336];
     v_[214] = 2.1032 * v_[96] + -0.057838 * v_[152] + 0.057838 * v_[306] + -2.1032 * v_[222] + v_[298];
     v_[84] = -v_[242];
-    v_[216] = v_[318] * v_[29] + v_[129] * v_[34] + v_[84] * w_in[4];
+    v_[216] = v_[318] * v_[29] + v_[129] * v_[34] + v_[84] * x_in[10];
     v_[350] = v_[204] * v_[47] + v_[123] * v_[35] + v_[318] * v_[46] + v_[129] * v_[44];
-    v_[290] = v_[280] * v_[29] + v_[271] * v_[34] + v_[330] * v_[37] + v_[318] * v_[66] + v_[350] * w_in[4];
+    v_[290] = v_[280] * v_[29] + v_[271] * v_[34] + v_[330] * v_[37] + v_[318] * v_[66] + v_[350] * x_in[10];
     v_[186] = v_[199] * v_[64] - v_[71] * v_[350];
     v_[208] = -v_[154];
-    v_[151] = v_[77] * v_[290] + v_[78] * v_[216] + v_[208] * w_in[5];
+    v_[151] = v_[77] * v_[290] + v_[78] * v_[216] + v_[208] * x_in[11];
     v_[227] = v_[293] * v_[87] + v_[85] * v_[338];
     v_[276] = -0.184 * v_[242] + v_[350];
     v_[335] = v_[293] * v_[89] + v_[85] * v_[276];
@@ -1996,8 +1996,8 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[128] = v_[199] * v_[91] + v_[91] * v_[199];
     v_[244] = v_[338] * v_[87] + v_[87] * v_[338];
     v_[296] = 1.547475 * (v_[338] * v_[89] + v_[87] * v_[276] - (v_[199] * v_[94] + v_[91] * v_[317])) +
-              1.547475 * (v_[76] * v_[290] + v_[81] * v_[216] + v_[317] * w_in[5]) - 0.038686875 * (v_[128] + v_[244]);
-    v_[305] = v_[76] * v_[152] + v_[338] * w_in[5];
+              1.547475 * (v_[76] * v_[290] + v_[81] * v_[216] + v_[317] * x_in[11]) - 0.038686875 * (v_[128] + v_[244]);
+    v_[305] = v_[76] * v_[152] + v_[338] * x_in[11];
     v_[300] = v_[338] * v_[91] + v_[87] * v_[199];
     v_[27] = v_[293] * v_[85] + v_[85] * v_[293];
     v_[253] = v_[242] * v_[71];
@@ -2030,7 +2030,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[6] = v_[158] * 2.1032 + v_[229] * 0.057838;
     v_[188] = 0 - v_[6];
     v_[337] = v_[112] * v_[77] + v_[100] * v_[76] + v_[158] * 2.1032 + v_[229] * 0.057838;
-    v_[281] = v_[7] + v_[188] * v_[71] + v_[207] * v_[242] + v_[337] * w_in[4];
+    v_[281] = v_[7] + v_[188] * v_[71] + v_[207] * v_[242] + v_[337] * x_in[10];
     v_[334] = 0 - v_[23];
     v_[14] = 0 - v_[16] + v_[14];
     v_[16] = (0 - v_[229]) * 1.5e-05 + v_[257] * 0.000198 + v_[107] * 0.00605;
@@ -2043,9 +2043,9 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[16] * v_[87] + v_[122] * v_[293] + v_[295] * v_[85] + v_[307] * v_[199] + v_[307] * v_[199] +
               v_[117] * v_[91] + v_[117] * v_[91];
     v_[307] = v_[347] * 1.547475 + (0 - v_[257]) * 0.038686875;
-    v_[334] = v_[288] * v_[199] + v_[334] * v_[91] + v_[104] * v_[293] + v_[307] * v_[85] + v_[100] * w_in[5];
+    v_[334] = v_[288] * v_[199] + v_[334] * v_[91] + v_[104] * v_[293] + v_[307] * v_[85] + v_[100] * x_in[11];
     v_[288] = 0 - v_[307];
-    v_[14] = v_[314] * v_[199] + v_[14] * v_[91] + v_[162] * v_[338] + v_[288] * v_[87] - v_[112] * w_in[5];
+    v_[14] = v_[314] * v_[199] + v_[14] * v_[91] + v_[162] * v_[338] + v_[288] * v_[87] - v_[112] * x_in[11];
     v_[314] = v_[335] * 0.057838 + v_[229] * -0.001387 + v_[151] * -0.018069;
     v_[50] = (0 - v_[229]) * -0.001243 + v_[151] * -0.012652;
     v_[127] = (0 - v_[151]) * -0.001243;
@@ -2058,12 +2058,12 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[151] * 0.019432;
     v_[105] = v_[117] + v_[334] * v_[78] + v_[14] * v_[81] + v_[6] * v_[64] + v_[145] * v_[340] + v_[314] * v_[71] +
               v_[302] * v_[242] + v_[50] * v_[55] + v_[26] * v_[199] + v_[26] * v_[199] + v_[105] * v_[58] +
-              v_[105] * v_[58] + v_[208] * w_in[4];
+              v_[105] * v_[58] + v_[208] * x_in[10];
     v_[186] = 2.1032 * v_[290] + 0.057838 * v_[216] + 0.057838 * v_[253] + 2.1032 * v_[186] + v_[77] * v_[278] +
               v_[76] * v_[296];
     v_[335] = v_[335] * -2.1032 + v_[151] * 0.057838;
     v_[117] = 0 - v_[335];
-    v_[145] = v_[334] * v_[77] + v_[14] * v_[76] + v_[117] * v_[71] + v_[145] * v_[199] - v_[126] * w_in[4];
+    v_[145] = v_[334] * v_[77] + v_[14] * v_[76] + v_[117] * v_[71] + v_[145] * v_[199] - v_[126] * x_in[10];
     v_[27] = -0.000829 * v_[216] + 0.003227 * v_[114] + 0.000198 * v_[305] + -0.038686875 * v_[226] +
              0.000198 * v_[300] + 1.5e-05 * (v_[128] - v_[27]) - 0.038686875 * v_[336] - -0.00146 * v_[115] -
              -0.000829 * v_[227];
@@ -2077,17 +2077,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[217] = v_[108] + v_[309] - v_[217];
     v_[217] = v_[125] * v_[276] + v_[23] * v_[89] + v_[162] * v_[154] + v_[288] * v_[82] + v_[304] * v_[199] +
               v_[16] * v_[91] + v_[220] * v_[293] + v_[107] * v_[85] + v_[339] * v_[338] + v_[339] * v_[338] +
-              v_[217] * v_[87] + v_[217] * v_[87] + v_[231] * w_in[5];
+              v_[217] * v_[87] + v_[217] * v_[87] + v_[231] * x_in[11];
     v_[309] = 0 - v_[309] - v_[51];
     v_[309] = v_[161] * v_[276] + v_[12] * v_[89] + v_[104] * v_[317] + v_[307] * v_[94] + v_[122] * v_[199] +
               v_[295] * v_[91] + v_[220] * v_[338] + v_[107] * v_[87] + v_[160] * v_[293] + v_[160] * v_[293] +
-              v_[309] * v_[85] + v_[309] * v_[85] - v_[347] * w_in[5];
+              v_[309] * v_[85] + v_[309] * v_[85] - v_[347] * x_in[11];
     v_[107] = v_[158] * 0.057838 + (0 - v_[229]) * -0.008386 + (0 - v_[151]) * -0.001387;
     v_[307] = v_[229] * -0.012652;
     v_[295] = 0 - v_[307];
     v_[295] = v_[7] * -0.184 + v_[217] * v_[77] + v_[309] * v_[76] + v_[335] * v_[64] + v_[207] * v_[350] +
               v_[107] * v_[71] + v_[302] * v_[199] + v_[50] * v_[58] + v_[116] * v_[242] + v_[116] * v_[242] +
-              v_[295] * v_[55] + v_[295] * v_[55] - v_[41] * w_in[4];
+              v_[295] * v_[55] + v_[295] * v_[55] - v_[41] * x_in[10];
     hes[52] =
         (0 - (v_[63] * v_[106] + v_[205] * v_[92] + v_[286] * v_[66] + v_[272] * v_[34] + v_[218] * v_[44] +
                  v_[32] * v_[35] + (v_[113] * v_[106] + v_[286] * v_[29] + v_[218] * v_[47]) * 0.112 -
@@ -2127,19 +2127,19 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[237] * 0.02075 + v_[216] * 0.184 - (v_[200] * v_[27] + v_[347] * v_[36] + v_[217] * v_[71])) *
                   v_[247];
     v_[100] = v_[112] * v_[79] + v_[100] * v_[77];
-    v_[112] = v_[218] * v_[129] + v_[281] * v_[52] + v_[269] * v_[318] + v_[145] * v_[53] + v_[100] * w_in[3];
+    v_[112] = v_[218] * v_[129] + v_[281] * v_[52] + v_[269] * v_[318] + v_[145] * v_[53] + v_[100] * x_in[9];
     v_[216] = v_[286] * v_[129] + v_[126] * v_[52] + v_[259] * v_[318] + v_[337] * v_[53];
     v_[335] = v_[334] * v_[79] + v_[14] * v_[77] + v_[3] * v_[199] + v_[6] * v_[58] + v_[173] * v_[242] +
-              v_[335] * v_[55] - v_[216] * w_in[3];
+              v_[335] * v_[55] - v_[216] * x_in[9];
     v_[14] = v_[286] * v_[318] + v_[126] * v_[53] + v_[259] * v_[330] + v_[337] * v_[62];
     v_[334] = v_[14] * -1;
-    v_[6] = v_[112] * v_[28] + v_[335] * v_[30] + v_[334] * w_in[2];
+    v_[6] = v_[112] * v_[28] + v_[335] * v_[30] + v_[334] * x_in[8];
     v_[330] = v_[218] * v_[318] + v_[281] * v_[53] + v_[269] * v_[330] + v_[145] * v_[62];
     v_[173] = v_[216] * v_[28] + v_[100] * v_[30];
-    v_[3] = v_[330] * -1 - v_[173] * w_in[2];
+    v_[3] = v_[330] * -1 - v_[173] * x_in[8];
     v_[231] = v_[194] * 0.02075 + v_[347] * v_[86] + v_[231] * v_[77] + v_[229] * -0.001243 + v_[151] * -0.012652;
     v_[347] = v_[218] * v_[123] + v_[281] * v_[68] + v_[269] * v_[271] + v_[145] * v_[61] + v_[32] * v_[129] +
-              v_[105] * v_[52] + v_[110] * v_[318] + v_[295] * v_[53] + v_[231] * w_in[3];
+              v_[105] * v_[52] + v_[110] * v_[318] + v_[295] * v_[53] + v_[231] * x_in[9];
     v_[307] = v_[307] + v_[127];
     v_[307] = v_[7] * 0.02075 + v_[217] * v_[86] + v_[309] * v_[77] + v_[262] * v_[350] + v_[188] * v_[69] +
               v_[292] * v_[340] + v_[117] * v_[80] + v_[215] * v_[199] + v_[314] * v_[58] + v_[285] * v_[242] +
@@ -2148,40 +2148,40 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[41] * v_[56] + v_[213] * v_[199] + v_[208] * v_[58] + v_[307];
     v_[271] = v_[286] * v_[123] + v_[126] * v_[68] + v_[259] * v_[271] + v_[337] * v_[61] + v_[272] * v_[129] +
               v_[41] * v_[52] + v_[213] * v_[318] + v_[208] * v_[53];
-    v_[307] = v_[307] - v_[271] * w_in[3];
+    v_[307] = v_[307] - v_[271] * x_in[9];
     v_[208] = v_[216] * v_[43] + v_[100] * v_[42] +
               (v_[286] * v_[204] + v_[126] * v_[67] + v_[259] * v_[280] + v_[337] * v_[60] + v_[272] * v_[318] +
                   v_[41] * v_[53] + v_[213] * v_[101] + v_[208] * v_[54]) *
                   -1;
-    v_[330] = v_[330] * -0.304 + v_[347] * v_[28] + v_[307] * v_[30] + v_[208] * w_in[2];
+    v_[330] = v_[330] * -0.304 + v_[347] * v_[28] + v_[307] * v_[30] + v_[208] * x_in[8];
     v_[295] = v_[218] * v_[204] + v_[281] * v_[67] + v_[269] * v_[280] + v_[145] * v_[60] + v_[32] * v_[318] +
               v_[105] * v_[53] + v_[110] * v_[101] + v_[295] * v_[54];
     hes[57] = v_[216] * v_[65] + v_[100] * v_[44] + v_[271] * v_[33] + v_[231] * v_[35] + v_[295];
     v_[14] = v_[14] * -0.304 + v_[271] * v_[28] + v_[231] * v_[30];
-    v_[295] = v_[112] * v_[43] + v_[335] * v_[42] + v_[295] * -1 - v_[14] * w_in[2];
+    v_[295] = v_[112] * v_[43] + v_[335] * v_[42] + v_[295] * -1 - v_[14] * x_in[8];
     v_[271] = v_[271] * v_[31] + v_[231] * v_[28];
     v_[307] = v_[347] * v_[31] + v_[307] * v_[28];
     hes[56] = v_[173] * v_[40] + v_[334] * v_[21] + v_[14] * v_[13] + v_[208] * v_[15] + v_[307];
     v_[14] = v_[173] * v_[19] + v_[334] * v_[18] + v_[14] * v_[9] + v_[208] * v_[10];
-    hes[54] = (v_[6] * v_[19] + v_[3] * v_[18] + v_[330] * v_[9] + v_[295] * v_[10] + v_[271] * w_in[1]) * v_[4] +
-              (v_[307] - v_[14] * w_in[1]) * v_[0];
+    hes[54] = (v_[6] * v_[19] + v_[3] * v_[18] + v_[330] * v_[9] + v_[295] * v_[10] + v_[271] * x_in[7]) * v_[4] +
+              (v_[307] - v_[14] * x_in[7]) * v_[0];
     hes[55] = v_[6] * v_[20] + v_[3] * v_[38] + v_[330] * v_[10] + v_[295] * v_[11] + v_[14] * v_[2] + v_[271] * v_[5];
-    v_[14] = w_in[6] * v_[4];
-    v_[271] = w_in[7] * v_[20] + v_[14] * v_[19];
-    v_[295] = w_in[7] * v_[11] + v_[14] * v_[10];
+    v_[14] = w_in[0] * v_[4];
+    v_[271] = w_in[1] * v_[20] + v_[14] * v_[19];
+    v_[295] = w_in[1] * v_[11] + v_[14] * v_[10];
     v_[330] = v_[271] * v_[30] + v_[295] * v_[42];
-    v_[3] = w_in[7] * v_[10] + v_[14] * v_[9];
-    v_[14] = (w_in[7] * v_[38] + v_[14] * v_[18]) * -1 + v_[3] * -0.304;
+    v_[3] = w_in[1] * v_[10] + v_[14] * v_[9];
+    v_[14] = (w_in[1] * v_[38] + v_[14] * v_[18]) * -1 + v_[3] * -0.304;
     v_[271] = v_[271] * v_[28] + v_[295] * v_[43];
-    v_[295] = w_in[9] + v_[295] * -1;
-    v_[6] = w_in[8] + w_in[6] * v_[0];
+    v_[295] = w_in[3] + v_[295] * -1;
+    v_[6] = w_in[2] + w_in[0] * v_[0];
     v_[307] = v_[6] * v_[31] + v_[3] * v_[28];
     v_[208] = v_[14] * v_[62] + v_[271] * v_[53] + v_[295] * v_[60] + v_[307] * v_[61];
-    v_[6] = w_in[10] + v_[6] * v_[28] + v_[3] * v_[30];
+    v_[6] = w_in[4] + v_[6] * v_[28] + v_[3] * v_[30];
     v_[3] = v_[295] * v_[54] + v_[307] * v_[53];
     v_[173] = v_[295] * v_[53] + v_[307] * v_[52];
     v_[334] = v_[330] * v_[79] + v_[208] * v_[77] + v_[173] * v_[78];
-    v_[347] = w_in[11] + v_[173];
+    v_[347] = w_in[5] + v_[173];
     v_[231] = v_[334] * 1.547475 + v_[347] * 0.038686875;
     v_[335] = v_[330] * v_[77] + v_[208] * v_[76] + v_[173] * v_[81];
     v_[112] = v_[335] * 1.547475;
@@ -2194,23 +2194,23 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[100] = v_[335] * 1.547475;
     v_[145] = 0 - v_[100];
     v_[105] = v_[307] * 1.547475 + (0 - v_[295]) * 0.038686875;
-    v_[281] = v_[145] * v_[91] + v_[105] * v_[85] + v_[112] * w_in[5];
+    v_[281] = v_[145] * v_[91] + v_[105] * v_[85] + v_[112] * x_in[11];
     v_[101] = v_[334] * -1.547475;
     v_[280] = v_[347] * 0.038686875;
     v_[204] = 0 - v_[101] + v_[280];
     v_[110] = 0 - v_[105];
-    v_[269] = v_[204] * v_[91] + v_[110] * v_[87] - v_[231] * w_in[5];
+    v_[269] = v_[204] * v_[91] + v_[110] * v_[87] - v_[231] * x_in[11];
     v_[32] = (0 - v_[347]) * 1.5e-05 + v_[295] * 0.000198 + v_[271] * 0.00605;
     v_[334] = v_[334] * 0.038686875 + v_[347] * -0.00751 + (0 - v_[295]) * -0.000829 + v_[271] * 1.5e-05;
     v_[218] = (0 - v_[347]) * 0.000198;
     v_[335] = (0 - v_[335]) * 0.038686875 + v_[218] - (0 - v_[271]) * -0.000829;
     v_[318] = v_[100] * v_[89] + v_[110] * v_[82] + v_[32] * v_[91] + v_[334] * v_[85] + v_[335] * v_[87] +
-              v_[335] * v_[87] + v_[216] * w_in[5];
+              v_[335] * v_[87] + v_[216] * x_in[11];
     v_[280] = v_[101] - v_[280];
     v_[271] = v_[307] * 0.038686875 + v_[347] * -0.000829 + (0 - v_[295]) * -0.00146 + (0 - v_[271]) * 0.000198;
     v_[218] = 0 - v_[218] - v_[295] * 1.5e-05;
     v_[295] = v_[280] * v_[89] + v_[105] * v_[94] + v_[271] * v_[91] + v_[334] * v_[87] + v_[218] * v_[85] +
-              v_[218] * v_[85] - v_[14] * w_in[5];
+              v_[218] * v_[85] - v_[14] * x_in[11];
     v_[307] = v_[173] * v_[93] + v_[231] * v_[57] + v_[281] * v_[58];
     v_[347] = v_[173] * v_[97] + v_[112] * v_[57] + v_[269] * v_[58];
     v_[101] = 0 - v_[248];
@@ -2222,17 +2222,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[272] = 0.184 * v_[247] - 0.02075 * v_[101];
     v_[286] = v_[41] * v_[87] + v_[87] * v_[41];
     v_[123] = 1.547475 * (v_[41] * v_[89] - v_[91] * v_[259]) +
-              1.547475 * (v_[101] * v_[45] + v_[247] * v_[70] + v_[272] * v_[57] + v_[259] * w_in[5]) -
+              1.547475 * (v_[101] * v_[45] + v_[247] * v_[70] + v_[272] * v_[57] + v_[259] * x_in[11]) -
               0.038686875 * v_[286];
     v_[129] = v_[101] * v_[64] + v_[247] * v_[80] + v_[272] * v_[58];
     v_[350] = -v_[129];
     v_[84] = v_[247] * v_[55] + v_[101] * v_[71];
     v_[199] = v_[84] * v_[87] + v_[85] * v_[41];
-    v_[250] = 1.547475 * (v_[126] * v_[45] + v_[101] * v_[70] + v_[213] * v_[57] + v_[350] * w_in[5]) +
+    v_[250] = 1.547475 * (v_[126] * v_[45] + v_[101] * v_[70] + v_[213] * v_[57] + v_[350] * x_in[11]) +
               0.038686875 * v_[199] + -1.547475 * (v_[84] * v_[89] - v_[91] * v_[129]);
     v_[107] = -v_[84];
-    v_[309] = v_[337] * v_[36] + v_[101] * v_[59] + v_[107] * w_in[5];
-    v_[217] = v_[101] * v_[36] + v_[247] * v_[59] + v_[41] * w_in[5];
+    v_[309] = v_[337] * v_[36] + v_[101] * v_[59] + v_[107] * x_in[11];
+    v_[217] = v_[101] * v_[36] + v_[247] * v_[59] + v_[41] * x_in[11];
     v_[117] = v_[41] * v_[91];
     v_[314] = v_[84] * v_[91];
     v_[286] = 0.000198 * v_[309] + 0.010737 * v_[217] + 0.00605 * v_[117] + 1.5e-05 * v_[199] - 0.000198 * v_[314] -
@@ -2252,11 +2252,11 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[285] = v_[309] * 1.547475;
     v_[292] = 0 - v_[285];
     v_[215] = (0 - v_[188]) * 0.038686875;
-    v_[262] = v_[292] * v_[91] + v_[105] * v_[84] + v_[215] * v_[85] + v_[199] * w_in[5];
+    v_[262] = v_[292] * v_[91] + v_[105] * v_[84] + v_[215] * v_[85] + v_[199] * x_in[11];
     v_[127] = v_[117] * -1.547475;
     v_[229] = 0 - v_[127];
     v_[194] = 0 - v_[215];
-    v_[151] = v_[229] * v_[91] + v_[110] * v_[41] + v_[194] * v_[87] - v_[217] * w_in[5];
+    v_[151] = v_[229] * v_[91] + v_[110] * v_[41] + v_[194] * v_[87] - v_[217] * x_in[11];
     v_[237] = v_[188] * 0.000198 + v_[7] * 0.00605;
     v_[300] = v_[117] * 0.038686875 + (0 - v_[188]) * -0.000829 + v_[7] * 1.5e-05;
     v_[309] = (0 - v_[309]) * 0.038686875;
@@ -2264,13 +2264,13 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[158] = v_[309] - v_[27];
     v_[158] = v_[285] * v_[89] + v_[110] * v_[129] + v_[194] * v_[82] + v_[237] * v_[91] + v_[334] * v_[84] +
               v_[300] * v_[85] + v_[335] * v_[41] + v_[335] * v_[41] + v_[158] * v_[87] + v_[158] * v_[87] +
-              v_[340] * w_in[5];
+              v_[340] * x_in[11];
     v_[194] = (0 - v_[188]) * -0.00146 + (0 - v_[7]) * 0.000198;
     v_[335] = v_[188] * 1.5e-05;
     v_[110] = 0 - v_[335];
     v_[110] = v_[127] * v_[89] + v_[105] * v_[259] + v_[215] * v_[94] + v_[194] * v_[91] + v_[334] * v_[41] +
               v_[300] * v_[87] + v_[218] * v_[84] + v_[218] * v_[84] + v_[110] * v_[85] + v_[110] * v_[85] -
-              v_[242] * w_in[5];
+              v_[242] * x_in[11];
     v_[300] = v_[173] * v_[250] + v_[217] * v_[57] + v_[262] * v_[58];
     v_[173] = v_[173] * v_[123] + v_[199] * v_[57] + v_[151] * v_[58];
     hes[65] = (0 - (v_[330] * v_[97] + v_[208] * v_[93] + v_[6] * v_[102] + v_[3] * v_[103] + v_[231] * v_[70] +
@@ -2291,62 +2291,62 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                   v_[76];
     v_[127] = v_[100] * v_[41] + v_[285] * v_[87] + v_[280] * v_[84] + v_[127] * v_[85];
     v_[285] = v_[231] * v_[101] + v_[217] * v_[77] + v_[112] * v_[247] + v_[199] * v_[76];
-    v_[280] = v_[127] + v_[285] * w_in[4];
+    v_[280] = v_[127] + v_[285] * x_in[10];
     v_[100] = v_[188] * -0.038686875;
-    v_[173] = v_[281] * v_[101] + v_[262] * v_[77] + v_[269] * v_[247] + v_[151] * v_[76] - v_[100] * w_in[4];
+    v_[173] = v_[281] * v_[101] + v_[262] * v_[77] + v_[269] * v_[247] + v_[151] * v_[76] - v_[100] * x_in[10];
     v_[300] = v_[231] * v_[126] + v_[217] * v_[79] + v_[112] * v_[101] + v_[199] * v_[77];
-    v_[314] = v_[280] * v_[52] + v_[173] * v_[53] + v_[300] * w_in[3];
+    v_[314] = v_[280] * v_[52] + v_[173] * v_[53] + v_[300] * x_in[9];
     v_[286] = v_[100] * v_[52] + v_[285] * v_[53];
-    v_[126] = v_[281] * v_[126] + v_[262] * v_[79] + v_[269] * v_[101] + v_[151] * v_[77] - v_[286] * w_in[3];
+    v_[126] = v_[281] * v_[126] + v_[262] * v_[79] + v_[269] * v_[101] + v_[151] * v_[77] - v_[286] * x_in[9];
     v_[250] = v_[100] * v_[53] + v_[285] * v_[62];
     v_[123] = v_[250] * -1;
-    v_[347] = v_[314] * v_[28] + v_[126] * v_[30] + v_[123] * w_in[2];
+    v_[347] = v_[314] * v_[28] + v_[126] * v_[30] + v_[123] * x_in[8];
     v_[307] = v_[280] * v_[53] + v_[173] * v_[62];
     v_[3] = v_[286] * v_[28] + v_[300] * v_[30];
-    v_[6] = v_[307] * -1 - v_[3] * w_in[2];
+    v_[6] = v_[307] * -1 - v_[3] * x_in[8];
     v_[335] = v_[309] + v_[335] + v_[27];
     v_[335] = v_[145] * v_[259] + v_[292] * v_[94] + v_[204] * v_[129] + v_[229] * v_[82] + v_[32] * v_[41] +
               v_[237] * v_[87] + v_[271] * v_[84] + v_[194] * v_[85] + v_[335] * v_[91] + v_[335] * v_[91];
     hes[71] = v_[231] * v_[350] + v_[217] * v_[83] + v_[112] * v_[259] + v_[199] * v_[94] + v_[14] * v_[107] +
               v_[242] * v_[98] + v_[216] * v_[41] + v_[340] * v_[87] + v_[335];
     v_[107] = v_[100] * -0.184 + v_[14] * v_[101] + v_[242] * v_[77] + v_[216] * v_[247] + v_[340] * v_[76];
-    v_[335] = v_[335] + v_[281] * v_[213] + v_[262] * v_[78] + v_[269] * v_[272] + v_[151] * v_[81] + v_[107] * w_in[4];
+    v_[335] = v_[335] + v_[281] * v_[213] + v_[262] * v_[78] + v_[269] * v_[272] + v_[151] * v_[81] + v_[107] * x_in[10];
     v_[7] = v_[117] * 0.038686875 + v_[188] * -0.000829 + v_[7] * 1.5e-05 + v_[231] * v_[213] + v_[217] * v_[78] +
             v_[112] * v_[272] + v_[199] * v_[81];
     v_[247] = v_[127] * -0.184 + v_[318] * v_[101] + v_[158] * v_[77] + v_[295] * v_[247] + v_[110] * v_[76] -
-              v_[7] * w_in[4];
+              v_[7] * x_in[10];
     v_[340] = v_[100] * 0.02075 + v_[14] * v_[337] + v_[242] * v_[86] + v_[216] * v_[101] + v_[340] * v_[77];
-    v_[242] = v_[280] * v_[68] + v_[173] * v_[61] + v_[335] * v_[52] + v_[247] * v_[53] + v_[340] * w_in[3];
+    v_[242] = v_[280] * v_[68] + v_[173] * v_[61] + v_[335] * v_[52] + v_[247] * v_[53] + v_[340] * x_in[9];
     v_[127] = v_[127] * 0.02075 + v_[318] * v_[337] + v_[158] * v_[86] + v_[295] * v_[101] + v_[110] * v_[77];
     hes[70] = v_[100] * v_[90] + v_[285] * v_[69] + v_[7] * v_[56] + v_[107] * v_[58] + v_[127];
     v_[90] = v_[100] * v_[68] + v_[285] * v_[61] + v_[7] * v_[52] + v_[107] * v_[53];
-    v_[127] = v_[127] - v_[90] * w_in[3];
+    v_[127] = v_[127] - v_[90] * x_in[9];
     v_[7] = v_[286] * v_[43] + v_[300] * v_[42] +
             (v_[100] * v_[67] + v_[285] * v_[60] + v_[7] * v_[53] + v_[107] * v_[54]) * -1;
-    v_[307] = v_[307] * -0.304 + v_[242] * v_[28] + v_[127] * v_[30] + v_[7] * w_in[2];
+    v_[307] = v_[307] * -0.304 + v_[242] * v_[28] + v_[127] * v_[30] + v_[7] * x_in[8];
     v_[247] = v_[280] * v_[67] + v_[173] * v_[60] + v_[335] * v_[53] + v_[247] * v_[54];
     hes[69] = v_[286] * v_[65] + v_[300] * v_[44] + v_[90] * v_[33] + v_[340] * v_[35] + v_[247];
     v_[250] = v_[250] * -0.304 + v_[90] * v_[28] + v_[340] * v_[30];
-    v_[247] = v_[314] * v_[43] + v_[126] * v_[42] + v_[247] * -1 - v_[250] * w_in[2];
+    v_[247] = v_[314] * v_[43] + v_[126] * v_[42] + v_[247] * -1 - v_[250] * x_in[8];
     v_[90] = v_[90] * v_[31] + v_[340] * v_[28];
     v_[127] = v_[242] * v_[31] + v_[127] * v_[28];
     hes[68] = v_[3] * v_[40] + v_[123] * v_[21] + v_[250] * v_[13] + v_[7] * v_[15] + v_[127];
     v_[250] = v_[3] * v_[19] + v_[123] * v_[18] + v_[250] * v_[9] + v_[7] * v_[10];
-    hes[66] = (v_[347] * v_[19] + v_[6] * v_[18] + v_[307] * v_[9] + v_[247] * v_[10] + v_[90] * w_in[1]) * v_[4] +
-              (v_[127] - v_[250] * w_in[1]) * v_[0];
+    hes[66] = (v_[347] * v_[19] + v_[6] * v_[18] + v_[307] * v_[9] + v_[247] * v_[10] + v_[90] * x_in[7]) * v_[4] +
+              (v_[127] - v_[250] * x_in[7]) * v_[0];
     hes[67] =
         v_[347] * v_[20] + v_[6] * v_[38] + v_[307] * v_[10] + v_[247] * v_[11] + v_[250] * v_[2] + v_[90] * v_[5];
-    v_[250] = w_in[6] * v_[4];
-    v_[90] = w_in[7] * v_[20] + v_[250] * v_[19];
-    v_[247] = w_in[7] * v_[11] + v_[250] * v_[10];
+    v_[250] = w_in[0] * v_[4];
+    v_[90] = w_in[1] * v_[20] + v_[250] * v_[19];
+    v_[247] = w_in[1] * v_[11] + v_[250] * v_[10];
     v_[307] = v_[90] * v_[30] + v_[247] * v_[42];
-    v_[6] = w_in[7] * v_[38] + v_[250] * v_[18];
-    v_[347] = w_in[7] * v_[10] + v_[250] * v_[9];
+    v_[6] = w_in[1] * v_[38] + v_[250] * v_[18];
+    v_[347] = w_in[1] * v_[10] + v_[250] * v_[9];
     v_[5] = v_[6] * -1 + v_[347] * -0.304;
     v_[2] = v_[90] * v_[28] + v_[247] * v_[43];
-    v_[127] = w_in[9] + v_[247] * -1;
-    v_[7] = w_in[6] * v_[0];
-    v_[3] = w_in[8] + v_[7];
+    v_[127] = w_in[3] + v_[247] * -1;
+    v_[7] = w_in[0] * v_[0];
+    v_[3] = w_in[2] + v_[7];
     v_[123] = v_[3] * v_[31] + v_[347] * v_[28];
     v_[40] = v_[5] * v_[62] + v_[2] * v_[53] + v_[127] * v_[60] + v_[123] * v_[61];
     v_[21] = v_[127] * v_[53] + v_[123] * v_[52];
@@ -2361,7 +2361,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[65] = v_[77] * v_[286] + v_[86] * v_[300];
     v_[44] = v_[307] * v_[79] + v_[40] * v_[77] + v_[21] * v_[78];
     v_[35] = v_[44] * -1.547475;
-    v_[33] = w_in[11] + v_[21];
+    v_[33] = w_in[5] + v_[21];
     v_[335] = v_[33] * 0.038686875;
     v_[173] = v_[35] - v_[335];
     v_[280] = v_[76] * v_[286] + v_[77] * v_[300];
@@ -2374,7 +2374,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[110] = v_[52] * v_[340] + v_[53] * v_[314];
     v_[158] = v_[5] * v_[53] + v_[2] * v_[52] + v_[127] * v_[67] + v_[123] * v_[68];
     v_[337] = v_[3] * v_[28] + v_[347] * v_[30];
-    v_[101] = w_in[10] + v_[337];
+    v_[101] = w_in[4] + v_[337];
     v_[295] = v_[127] * v_[54] + v_[123] * v_[53];
     v_[318] = v_[158] + v_[101] * 0.02075 + v_[295] * -0.184;
     v_[216] = v_[101] * v_[86] + v_[295] * v_[77];
@@ -2485,8 +2485,8 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[151] = v_[56] - v_[151] - v_[102];
     v_[151] = v_[262] * v_[43] + v_[98] * v_[42] + v_[208] * -1 + v_[87] * v_[229] + v_[188] * v_[0] +
               v_[129] * v_[242] + v_[151] * v_[126] + v_[151] * v_[126];
-    v_[129] = w_in[7] * 0.046852534 + (0 - v_[250]) * -0.002752 + v_[7] * -0.022851627;
-    v_[87] = (0 - w_in[7]) * 0.0055279857;
+    v_[129] = w_in[1] * 0.046852534 + (0 - v_[250]) * -0.002752 + v_[7] * -0.022851627;
+    v_[87] = (0 - w_in[1]) * 0.0055279857;
     v_[98] = v_[87] - (0 - v_[7]) * -0.002752;
     v_[102] = v_[56] + v_[350] + v_[102] + v_[69];
     v_[102] = v_[173] * v_[31] + v_[82] * v_[28] + v_[94] * v_[229] + v_[269] * v_[84] + v_[217] * v_[242] +
@@ -2532,26 +2532,26 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
               v_[90] * -0.647967112 + v_[3] * -0.011715295 + v_[347] * 5.399998e-05 + v_[247] * 0.20236395;
     hes[79] =
         v_[83] * v_[20] + v_[237] * v_[38] + v_[335] * v_[10] + v_[151] * v_[11] +
-        (w_in[7] * -0.002752 + (0 - v_[250]) * 0.012390532 + (0 - v_[7]) * 0.0055279857) * v_[0] +
-        (v_[173] * v_[19] + v_[94] * v_[18] + v_[269] * v_[9] + v_[158] * v_[10] + w_in[7] * -0.002752 +
+        (w_in[1] * -0.002752 + (0 - v_[250]) * 0.012390532 + (0 - v_[7]) * 0.0055279857) * v_[0] +
+        (v_[173] * v_[19] + v_[94] * v_[18] + v_[269] * v_[9] + v_[158] * v_[10] + w_in[1] * -0.002752 +
             v_[250] * 0.08585553 + v_[7] * 0.0055279857) *
             (-v_[0]) +
         (v_[199] * v_[31] + v_[91] * v_[28] + v_[90] * -0.0055615274403 + v_[6] * -0.01438086 + v_[3] * 0.010329999 +
-            v_[347] * -0.0037997814 + v_[247] * -0.011715295 + w_in[7] * -0.022851627 + v_[250] * 0.0055279857 +
-            v_[7] * 0.039002996 + (0 - w_in[7]) * -0.022851627 + v_[250] * 0.0055279857 + v_[7] * -0.034462002) *
+            v_[347] * -0.0037997814 + v_[247] * -0.011715295 + w_in[1] * -0.022851627 + v_[250] * 0.0055279857 +
+            v_[7] * 0.039002996 + (0 - w_in[1]) * -0.022851627 + v_[250] * 0.0055279857 + v_[7] * -0.034462002) *
             v_[4];
     hes[80] = v_[173] * (-v_[84]) + v_[94] * v_[229] + v_[269] * (-v_[126]) + v_[158] * v_[242] + v_[102];
-    v_[158] = w_in[6] * v_[4];
-    v_[269] = w_in[7] * v_[20] + v_[158] * v_[19];
-    v_[94] = w_in[7] * v_[11] + v_[158] * v_[10];
+    v_[158] = w_in[0] * v_[4];
+    v_[269] = w_in[1] * v_[20] + v_[158] * v_[19];
+    v_[94] = w_in[1] * v_[11] + v_[158] * v_[10];
     v_[173] = v_[269] * v_[30] + v_[94] * v_[42];
-    v_[102] = w_in[7] * v_[38] + v_[158] * v_[18];
-    v_[84] = w_in[7] * v_[10] + v_[158] * v_[9];
+    v_[102] = w_in[1] * v_[38] + v_[158] * v_[18];
+    v_[84] = w_in[1] * v_[10] + v_[158] * v_[9];
     v_[229] = v_[102] * -1 + v_[84] * -0.304;
     v_[126] = v_[269] * v_[28] + v_[94] * v_[43];
-    v_[242] = w_in[9] + v_[94] * -1;
-    v_[91] = w_in[6] * v_[0];
-    v_[199] = w_in[8] + v_[91];
+    v_[242] = w_in[3] + v_[94] * -1;
+    v_[91] = w_in[0] * v_[0];
+    v_[199] = w_in[2] + v_[91];
     v_[151] = v_[199] * v_[31] + v_[84] * v_[28];
     v_[335] = v_[229] * v_[62] + v_[126] * v_[53] + v_[242] * v_[60] + v_[151] * v_[61];
     v_[237] = v_[242] * v_[53] + v_[151] * v_[52];
@@ -2564,7 +2564,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[90] = v_[77] * v_[6] + v_[86] * v_[247];
     v_[250] = v_[173] * v_[79] + v_[335] * v_[77] + v_[237] * v_[78];
     v_[44] = v_[250] * -1.547475;
-    v_[82] = w_in[11] + v_[237];
+    v_[82] = w_in[5] + v_[237];
     v_[217] = v_[82] * 0.038686875;
     v_[188] = v_[44] - v_[217];
     v_[98] = v_[76] * v_[6] + v_[77] * v_[247];
@@ -2577,7 +2577,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[271] = v_[52] * v_[7] + v_[53] * v_[347];
     v_[292] = v_[229] * v_[53] + v_[126] * v_[52] + v_[242] * v_[67] + v_[151] * v_[68];
     v_[300] = v_[199] * v_[28] + v_[84] * v_[30];
-    v_[340] = w_in[10] + v_[300];
+    v_[340] = w_in[4] + v_[300];
     v_[318] = v_[242] * v_[54] + v_[151] * v_[53];
     v_[87] = v_[292] + v_[340] * 0.02075 + v_[318] * -0.184;
     v_[295] = v_[340] * v_[86] + v_[318] * v_[77];
@@ -2727,16 +2727,16 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
         (v_[102] * 0.647967112 + v_[199] * -0.0037997814 + (0 - v_[84]) * -0.192033951 + (0 - v_[94]) * 5.399998e-05) *
             v_[11];
     hes[93] = v_[204] * (-v_[69]) + v_[280] * v_[262] + v_[5] * (-v_[247]) + v_[213] * v_[7] + v_[248];
-    v_[213] = w_in[6] * v_[4];
-    v_[5] = w_in[7] * v_[20] + v_[213] * v_[19];
-    v_[280] = w_in[7] * v_[11] + v_[213] * v_[10];
+    v_[213] = w_in[0] * v_[4];
+    v_[5] = w_in[1] * v_[20] + v_[213] * v_[19];
+    v_[280] = w_in[1] * v_[11] + v_[213] * v_[10];
     v_[204] = v_[5] * v_[30] + v_[280] * v_[42];
-    v_[248] = w_in[7] * v_[38] + v_[213] * v_[18];
-    v_[213] = w_in[7] * v_[10] + v_[213] * v_[9];
+    v_[248] = w_in[1] * v_[38] + v_[213] * v_[18];
+    v_[213] = w_in[1] * v_[10] + v_[213] * v_[9];
     v_[262] = v_[248] * -1 + v_[213] * -0.304;
     v_[69] = v_[5] * v_[28] + v_[280] * v_[43];
-    v_[247] = w_in[9] + v_[280] * -1;
-    v_[7] = w_in[8] + w_in[6] * v_[0];
+    v_[247] = w_in[3] + v_[280] * -1;
+    v_[7] = w_in[2] + w_in[0] * v_[0];
     v_[292] = v_[7] * v_[31] + v_[213] * v_[28];
     v_[250] = v_[262] * v_[62] + v_[69] * v_[53] + v_[247] * v_[60] + v_[292] * v_[61];
     v_[56] = v_[247] * v_[53] + v_[292] * v_[52];
@@ -2746,7 +2746,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[188] = v_[77] * v_[314] + v_[86] * v_[28];
     v_[300] = v_[204] * v_[79] + v_[250] * v_[77] + v_[56] * v_[78];
     v_[151] = v_[300] * -1.547475;
-    v_[199] = w_in[11] + v_[56];
+    v_[199] = w_in[5] + v_[56];
     v_[242] = v_[199] * 0.038686875;
     v_[126] = v_[151] - v_[242];
     v_[84] = v_[76] * v_[314] + v_[77] * v_[28];
@@ -2758,7 +2758,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[91] = v_[52] * v_[31];
     v_[318] = v_[262] * v_[53] + v_[69] * v_[52] + v_[247] * v_[67] + v_[292] * v_[68];
     v_[7] = v_[7] * v_[28] + v_[213] * v_[30];
-    v_[340] = w_in[10] + v_[7];
+    v_[340] = w_in[4] + v_[7];
     v_[237] = v_[247] * v_[54] + v_[292] * v_[53];
     v_[229] = v_[318] + v_[340] * 0.02075 + v_[237] * -0.184;
     v_[110] = v_[340] * v_[86] + v_[237] * v_[77];
@@ -2848,15 +2848,15 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
             (0 - v_[292]) * 0.01404749 + (0 - v_[7]) * 0.0036857284) *
             v_[28];
     hes[106] = v_[21] * (-v_[231]) + v_[87] * v_[65] + v_[300] * (-v_[314]) + v_[318] * v_[91] + v_[6];
-    v_[318] = w_in[6] * v_[4];
-    v_[300] = w_in[7] * v_[20] + v_[318] * v_[19];
-    v_[87] = w_in[7] * v_[11] + v_[318] * v_[10];
+    v_[318] = w_in[0] * v_[4];
+    v_[300] = w_in[1] * v_[20] + v_[318] * v_[19];
+    v_[87] = w_in[1] * v_[11] + v_[318] * v_[10];
     v_[21] = v_[300] * v_[30] + v_[87] * v_[42];
-    v_[6] = w_in[7] * v_[10] + v_[318] * v_[9];
-    v_[318] = (w_in[7] * v_[38] + v_[318] * v_[18]) * -1 + v_[6] * -0.304;
+    v_[6] = w_in[1] * v_[10] + v_[318] * v_[9];
+    v_[318] = (w_in[1] * v_[38] + v_[318] * v_[18]) * -1 + v_[6] * -0.304;
     v_[300] = v_[300] * v_[28] + v_[87] * v_[43];
-    v_[87] = w_in[9] + v_[87] * -1;
-    v_[65] = w_in[8] + w_in[6] * v_[0];
+    v_[87] = w_in[3] + v_[87] * -1;
+    v_[65] = w_in[2] + w_in[0] * v_[0];
     v_[231] = v_[65] * v_[31] + v_[6] * v_[28];
     v_[91] = v_[318] * v_[62] + v_[300] * v_[53] + v_[87] * v_[60] + v_[231] * v_[61];
     v_[314] = v_[87] * v_[53] + v_[231] * v_[52];
@@ -2865,7 +2865,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[213] = v_[77] * v_[54];
     v_[208] = v_[21] * v_[79] + v_[91] * v_[77] + v_[314] * v_[78];
     v_[107] = v_[208] * -1.547475;
-    v_[194] = w_in[11] + v_[314];
+    v_[194] = w_in[5] + v_[314];
     v_[237] = v_[194] * 0.038686875;
     v_[340] = v_[107] - v_[237];
     v_[7] = v_[76] * v_[54];
@@ -2874,7 +2874,7 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
     v_[292] = 0 - v_[229];
     v_[318] = v_[318] * v_[53] + v_[300] * v_[52] + v_[87] * v_[67] + v_[231] * v_[68];
     v_[65] = v_[65] * v_[28] + v_[6] * v_[30];
-    v_[6] = w_in[10] + v_[65];
+    v_[6] = w_in[4] + v_[65];
     v_[87] = v_[87] * v_[54] + v_[231] * v_[53];
     v_[247] = v_[318] + v_[6] * 0.02075 + v_[87] * -0.184;
     v_[69] = v_[6] * v_[86] + v_[87] * v_[77];
@@ -2938,24 +2938,24 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
                (v_[318] * 0.057838 + (0 - v_[6]) * -0.012652 + v_[314] * -0.001387 + v_[87] * -0.018069) * v_[53] +
                (v_[91] * 0.057838 + v_[6] * -0.001243 + (0 - v_[314]) * -0.008386 + (0 - v_[87]) * -0.001387) * v_[54];
     hes[119] = v_[280] * (-v_[98]) + v_[90] * v_[158] + v_[247] * (-v_[7]) + v_[5] * v_[213] + v_[248];
-    v_[5] = w_in[6] * v_[4];
-    v_[247] = w_in[7] * v_[20] + v_[5] * v_[19];
-    v_[90] = w_in[7] * v_[11] + v_[5] * v_[10];
+    v_[5] = w_in[0] * v_[4];
+    v_[247] = w_in[1] * v_[20] + v_[5] * v_[19];
+    v_[90] = w_in[1] * v_[11] + v_[5] * v_[10];
     v_[280] = v_[247] * v_[30] + v_[90] * v_[42];
-    v_[248] = w_in[7] * v_[10] + v_[5] * v_[9];
-    v_[5] = (w_in[7] * v_[38] + v_[5] * v_[18]) * -1 + v_[248] * -0.304;
+    v_[248] = w_in[1] * v_[10] + v_[5] * v_[9];
+    v_[5] = (w_in[1] * v_[38] + v_[5] * v_[18]) * -1 + v_[248] * -0.304;
     v_[247] = v_[247] * v_[28] + v_[90] * v_[43];
-    v_[90] = w_in[9] + v_[90] * -1;
-    v_[98] = w_in[8] + w_in[6] * v_[0];
+    v_[90] = w_in[3] + v_[90] * -1;
+    v_[98] = w_in[2] + w_in[0] * v_[0];
     v_[158] = v_[98] * v_[31] + v_[248] * v_[28];
     v_[7] = v_[5] * v_[62] + v_[247] * v_[53] + v_[90] * v_[60] + v_[158] * v_[61];
     v_[213] = v_[90] * v_[53] + v_[158] * v_[52];
     v_[65] = v_[280] * v_[77] + v_[7] * v_[76] + v_[213] * v_[81];
     v_[216] = v_[65] * 1.547475;
     v_[7] = v_[280] * v_[79] + v_[7] * v_[77] + v_[213] * v_[78];
-    v_[280] = w_in[11] + v_[213];
+    v_[280] = w_in[5] + v_[213];
     v_[79] = v_[7] * -1.547475 - v_[280] * 0.038686875;
-    v_[98] = w_in[10] + v_[98] * v_[28] + v_[248] * v_[30];
+    v_[98] = w_in[4] + v_[98] * v_[28] + v_[248] * v_[30];
     v_[248] = v_[90] * v_[54] + v_[158] * v_[53];
     v_[78] = v_[98] * v_[86] + v_[248] * v_[77];
     v_[250] = v_[98] * v_[77] + v_[248] * v_[76];
@@ -2974,17 +2974,17 @@ HyAInverseDynHessian::HES_TYPE HyAInverseDynHessian::hessian(const Eigen::Vector
         (v_[280] * 1.5e-05 + v_[78] * 0.000198 + v_[250] * 0.010737) * v_[86] +
         ((0 - v_[280]) * 1.5e-05 + v_[78] * 0.000198 + v_[250] * 0.00605) * v_[86] +
         (v_[248] * 0.038686875 + v_[280] * -0.000829 + (0 - v_[78]) * -0.00146 + (0 - v_[250]) * 0.000198) * v_[77];
-    v_[4] = w_in[6] * v_[4];
-    v_[20] = w_in[7] * v_[20] + v_[4] * v_[19];
-    v_[11] = w_in[7] * v_[11] + v_[4] * v_[10];
-    v_[10] = w_in[7] * v_[10] + v_[4] * v_[9];
-    v_[9] = w_in[9] + v_[11] * -1;
-    v_[0] = w_in[8] + w_in[6] * v_[0];
+    v_[4] = w_in[0] * v_[4];
+    v_[20] = w_in[1] * v_[20] + v_[4] * v_[19];
+    v_[11] = w_in[1] * v_[11] + v_[4] * v_[10];
+    v_[10] = w_in[1] * v_[10] + v_[4] * v_[9];
+    v_[9] = w_in[3] + v_[11] * -1;
+    v_[0] = w_in[2] + w_in[0] * v_[0];
     v_[31] = v_[0] * v_[31] + v_[10] * v_[28];
-    v_[0] = w_in[10] + v_[0] * v_[28] + v_[10] * v_[30];
+    v_[0] = w_in[4] + v_[0] * v_[28] + v_[10] * v_[30];
     v_[54] = v_[9] * v_[54] + v_[31] * v_[53];
     v_[54] = (0 - ((v_[20] * v_[30] + v_[11] * v_[42]) * v_[77] +
-                      (((w_in[7] * v_[38] + v_[4] * v_[18]) * -1 + v_[10] * -0.304) * v_[62] +
+                      (((w_in[1] * v_[38] + v_[4] * v_[18]) * -1 + v_[10] * -0.304) * v_[62] +
                           (v_[20] * v_[28] + v_[11] * v_[43]) * v_[53] + v_[9] * v_[60] + v_[31] * v_[61]) *
                           v_[76] +
                       (v_[9] * v_[53] + v_[31] * v_[52]) * v_[81])) *
-- 
2.43.0


From 3c687a492645536af8356d5bba60d3537e036e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:55 +0000
Subject: [PATCH 101/113] fix: Hessian values of constraints were assigned to
 the wrong entries when a constraint lists both triangles

---
 .../include/ct/optcon/nlp/DiscreteConstraintContainerBase.h      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ct_optcon/include/ct/optcon/nlp/DiscreteConstraintContainerBase.h b/ct_optcon/include/ct/optcon/nlp/DiscreteConstraintContainerBase.h
index fede7dc..9090f06 100644
--- a/ct_optcon/include/ct/optcon/nlp/DiscreteConstraintContainerBase.h
+++ b/ct_optcon/include/ct/optcon/nlp/DiscreteConstraintContainerBase.h
@@ -198,6 +198,7 @@ public:
 
         // fill in values in total constraint Hessian
         constraintHessianSparsity_.setFromTriplets(triplets.begin(), triplets.end());
+        constraintHessianSparsity_ = constraintHessianSparsity_.template triangularView<Eigen::Lower>();
 
 
         iRowHessianStdVec_.clear();
-- 
2.43.0


From 991c1d2c25a50c6c525d85c913e3f8750a39714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:09 +0000
Subject: [PATCH 102/113] fix: ScalarTrajectory(n, value) did not hold n copies
 of value

---
 ct_core/include/ct/core/types/trajectories/ScalarTrajectory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ct_core/include/ct/core/types/trajectories/ScalarTrajectory.h b/ct_core/include/ct/core/types/trajectories/ScalarTrajectory.h
index c50e36e..512dae6 100644
--- a/ct_core/include/ct/core/types/trajectories/ScalarTrajectory.h
+++ b/ct_core/include/ct/core/types/trajectories/ScalarTrajectory.h
@@ -30,7 +30,8 @@ public:
 	 * @param n length of array
 	 * @param value default value
 	 */
-    ScalarTrajectory(size_t n, const SCALAR& value = SCALAR()) : DiscreteTrajectoryBase<SCALAR>(n, value){};
+    ScalarTrajectory(size_t n, const SCALAR& value = SCALAR())
+        : DiscreteTrajectoryBase<SCALAR>(tpl::TimeArray<SCALAR>(n, SCALAR(0)), DiscreteArray<SCALAR>(n, value)){};
 
     //! copy constructor
     ScalarTrajectory(const ScalarTrajectory& other) : DiscreteTrajectoryBase<SCALAR>(other){};
-- 
2.43.0


From 9e6e3ce6c02a17a33266e085c744892a2a20f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:47 +0000
Subject: [PATCH 103/113] fix: CostFunctionQuadraticSimple did not compile for
 one-dimensional states

---
 .../ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
index 42217e6..6d28ffe 100644
--- a/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
+++ b/ct_optcon/include/ct/optcon/costfunction/CostFunctionQuadraticSimple-impl.hpp
@@ -122,7 +122,7 @@ template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
 SCALAR CostFunctionQuadraticSimple<STATE_DIM, CONTROL_DIM, SCALAR>::evaluateTerminal()
 {
     state_vector_t x_deviation_final = this->x_ - x_final_;
-    return SCALAR(0.5) * x_deviation_final.transpose() * Q_final_ * x_deviation_final;
+    return SCALAR(0.5) * x_deviation_final.dot(Q_final_ * x_deviation_final);
 }
 
 template <size_t STATE_DIM, size_t CONTROL_DIM, typename SCALAR>
-- 
2.43.0


From 3bc5402e033cb343a8c4c04d374bfb627e4f4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:42 +0000
Subject: [PATCH 104/113] fix: Kinematics::getEEPoseInWorld and getEERotInWorld
 did not compile with clang

---
 ct_rbd/include/ct/rbd/robot/Kinematics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/robot/Kinematics.h b/ct_rbd/include/ct/rbd/robot/Kinematics.h
index 9645ae5..719065e 100644
--- a/ct_rbd/include/ct/rbd/robot/Kinematics.h
+++ b/ct_rbd/include/ct/rbd/robot/Kinematics.h
@@ -204,7 +204,7 @@ public:
 
         // orientation rotated into world frame
         QuaterionTpl B_q_EE = B_x_EE.getRotationQuaternion();
-        QuaterionTpl W_q_EE = basePose.template rotateBaseToInertiaQuaternion(B_q_EE);
+        QuaterionTpl W_q_EE = basePose.rotateBaseToInertiaQuaternion(B_q_EE);
 
         return RigidBodyPoseTpl(W_q_EE, basePose.position() + W_p_EE);
     }
@@ -218,7 +218,7 @@ public:
         Matrix3Tpl B_R_EE = getEERotInBase(eeID, jointPosition);
 
         // ee rotation matriix in world
-        return basePose.template rotateBaseToInertiaMat(B_R_EE);
+        return basePose.rotateBaseToInertiaMat(B_R_EE);
     }
 
     void addIKSolver(const std::shared_ptr<InverseKinematicsBase<NJOINTS, SCALAR>>& solver,
-- 
2.43.0


From 13c46dbb50c2b2eb527baaa3974cff8490049a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:42 +0000
Subject: [PATCH 105/113] fix: Kinematics::getIKSolver did not compile

---
 ct_rbd/include/ct/rbd/robot/Kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/Kinematics.h b/ct_rbd/include/ct/rbd/robot/Kinematics.h
index 719065e..6d606e9 100644
--- a/ct_rbd/include/ct/rbd/robot/Kinematics.h
+++ b/ct_rbd/include/ct/rbd/robot/Kinematics.h
@@ -240,7 +240,7 @@ public:
         if (solverID >= 100)
             throw std::runtime_error("Solver ID must be less than 100.");
         size_t hash = eeID * 100 + solverID;
-        return ikSolvers_[hash];
+        return ikSolvers_.at(hash);
     }
 
     /**
-- 
2.43.0


From d27a4ceae0089a1021ade35c284f89da26a78f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:42 +0000
Subject: [PATCH 106/113] fix: copies of Kinematics lost the registered IK
 solvers

---
 ct_rbd/include/ct/rbd/robot/Kinematics.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/Kinematics.h b/ct_rbd/include/ct/rbd/robot/Kinematics.h
index 6d606e9..ad30579 100644
--- a/ct_rbd/include/ct/rbd/robot/Kinematics.h
+++ b/ct_rbd/include/ct/rbd/robot/Kinematics.h
@@ -36,7 +36,10 @@ public:
     }
 
     Kinematics(const Kinematics<RBD, N_EE>& other)
-        : rbdContainer_(new RBD()), endEffectors_(other.endEffectors_), floatingBaseTransforms_(rbdContainer_)
+        : rbdContainer_(new RBD()),
+          endEffectors_(other.endEffectors_),
+          floatingBaseTransforms_(rbdContainer_),
+          ikSolvers_(other.ikSolvers_)
     {
     }
 
-- 
2.43.0


From 9e9bc50f96e65f8508f5a187b64393f0739a17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:42 +0000
Subject: [PATCH 107/113] fix: FloatingBaseRobotState::fromStateVectorEulerXyz
 without actuator states set nothing

---
 ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h b/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
index 34eac66..5691d98 100644
--- a/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
+++ b/ct_rbd/include/ct/rbd/state/FloatingBaseRobotState.h
@@ -155,7 +155,7 @@ public:
     typename std::enable_if<(ACT_STATE_DIM == 0), T>::type fromStateVectorEulerXyz(const state_vector_euler_t& state)
     {
         // transcribe RBDState only
-        Base_t::state_vector_euler_t(state);
+        Base_t::fromStateVectorEulerXyz(state);
     }
 
     //! a convenience method
-- 
2.43.0


From 74cf104703647767775a632d03d6ca6a79e67784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:47 +0000
Subject: [PATCH 108/113] fix: FloatingBaseFullyActuatedID ignored the base
 acceleration and used an uninitialised one

---
 ct_rbd/include/ct/rbd/robot/Dynamics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/Dynamics.h b/ct_rbd/include/ct/rbd/robot/Dynamics.h
index 5fa5c65..a3a7d9f 100644
--- a/ct_rbd/include/ct/rbd/robot/Dynamics.h
+++ b/ct_rbd/include/ct/rbd/robot/Dynamics.h
@@ -312,7 +312,7 @@ ENABLE_FLOAT_BASE_IMPL Dynamics<RBD, NEE>::FloatingBaseFullyActuatedID(const RBD
     ForceVector_t& base_w,
     control_vector_t& u)
 {
-    Vector6d_t b_accel;
+    Vector6d_t b_accel = base_a.getVector6d();
 
     kinematics_->robcogen().inverseDynamics().id_fully_actuated(base_w, u, x.basePose().computeGravityB6D(),
         x.baseVelocities().getVector(), b_accel, x.joints().getPositions(), x.joints().getVelocities(),
-- 
2.43.0


From 4bd85f87d85e14a8a1d58e0260eec4869de429d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:47 +0000
Subject: [PATCH 109/113] fix: copying a FloatingBaseFDSystem without contact
 model dereferenced a null pointer

---
 ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h b/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
index a17653a..528bb31 100644
--- a/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
+++ b/ct_rbd/include/ct/rbd/systems/FloatingBaseFDSystem.h
@@ -47,7 +47,9 @@ public:
 
     FloatingBaseFDSystem() : Base(), dynamics_(), eeContactModel_(nullptr) {}
     FloatingBaseFDSystem(const FloatingBaseFDSystem<RBDDynamics, QUAT_INTEGRATION, EE_ARE_CONTROL_INPUTS>& other)
-        : Base(other), dynamics_(other.dynamics_), eeContactModel_(other.eeContactModel_->clone())
+        : Base(other),
+          dynamics_(other.dynamics_),
+          eeContactModel_(other.eeContactModel_ ? other.eeContactModel_->clone() : nullptr)
     {
     }
 
-- 
2.43.0


From a4907d1566423904a89b38a252e8cdc8b66704c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:47 +0000
Subject: [PATCH 110/113] fix: EEContactModel returned uninitialised forces for
 inactive end-effectors

---
 ct_rbd/include/ct/rbd/physics/EEContactModel.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ct_rbd/include/ct/rbd/physics/EEContactModel.h b/ct_rbd/include/ct/rbd/physics/EEContactModel.h
index e5fb898..0f4fdab 100644
--- a/ct_rbd/include/ct/rbd/physics/EEContactModel.h
+++ b/ct_rbd/include/ct/rbd/physics/EEContactModel.h
@@ -150,6 +150,8 @@ public:
 
         for (size_t i = 0; i < NUM_EE; i++)
         {
+            eeForces[i].setZero();
+
             if (EEactive_[i])
             {
                 Vector3s eePenetration = computePenetration(i, state.basePose(), state.jointPositions());
@@ -159,10 +161,6 @@ public:
                     Velocity3S eeVelocity = kinematics_->getEEVelocityInWorld(i, state);
                     eeForces[i] = computeEEForce(eePenetration, eeVelocity);
                 }
-                else
-                {
-                    eeForces[i].setZero();
-                }
             }
         }
 
-- 
2.43.0


From 0294ae51aafb503d655c13d6dd448904f4611e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:47 +0000
Subject: [PATCH 111/113] fix: RigidBodyPose built from an Eigen quaternion
 ignored the requested storage type

---
 ct_rbd/include/ct/rbd/state/RigidBodyPose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/state/RigidBodyPose.h b/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
index eda608a..a391037 100644
--- a/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
+++ b/ct_rbd/include/ct/rbd/state/RigidBodyPose.h
@@ -83,7 +83,7 @@ public:
     RigidBodyPose(const Eigen::Quaternion<SCALAR>& orientationQuat,
         const Eigen::Matrix<SCALAR, 3, 1>& position,
         STORAGE_TYPE storage = EULER)
-        : RigidBodyPose(kindr::RotationQuaternion<SCALAR>(orientationQuat), Position3Tpl(position))
+        : RigidBodyPose(kindr::RotationQuaternion<SCALAR>(orientationQuat), Position3Tpl(position), storage)
     {
     }
 
-- 
2.43.0


From 3aa255a8a22abb2e39d3caa67f06753e60cf094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:55 +0000
Subject: [PATCH 112/113] fix: FixBaseFDSystem::computeConsistentActuatorState
 did not compile

---
 ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
index 1c3e434..c849c08 100644
--- a/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
+++ b/ct_rbd/include/ct/rbd/systems/FixBaseFDSystem.h
@@ -181,7 +181,7 @@ public:
     typename std::enable_if<(ACT_STATE_DIM > 0), T>::type computeConsistentActuatorState(
         const JointState<BASE::NJOINTS, SCALAR>& jStateRef)
     {
-        const ct::core::ControlVector<BASE::NJOINTS> torqueRef = computeIDTorques(jStateRef);
+        const ct::core::ControlVector<BASE::NJOINTS> torqueRef = this->computeIDTorques(jStateRef);
         return computeConsistentActuatorState(jStateRef, torqueRef);
     }
 
-- 
2.43.0


From 4848d5243ff869e41da16c7a1981d6142bcac347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:55 +0000
Subject: [PATCH 113/113] fix: FixBaseFDSystemSymplectic could not be copied,
 its actuator interface did not compile

---
 .../include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h b/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
index aba8bd0..ec758db 100644
--- a/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
+++ b/ct_rbd/include/ct/rbd/robot/actuator/ActuatorDynamicsSymplectic.h
@@ -35,7 +35,7 @@ public:
 
     virtual ~ActuatorDynamicsSymplectic(){};
 
-    virtual ActuatorDynamicsSymplectic<NJOINTS, ACT_STATE_DIMS, SCALAR>* clone() const override = 0;
+    virtual ActuatorDynamicsSymplectic<NJOINTS, ACT_STATE_DIMS, SCALAR>* clone() const = 0;
 
     virtual void computePdot(const JointState<NJOINTS, SCALAR>& robotJointState,
         const act_state_vector_t& x,
-- 
2.43.0

