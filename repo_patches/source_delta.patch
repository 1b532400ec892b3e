From 369b8254fce2b6afc9949c5f6914f5666096bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:37 +0000
Subject: [PATCH 01/15] fix: apply gravity as a force (mass times gravity) in
 the linear dynamics

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index df821f6..c6479a6 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -187,8 +187,9 @@ public:
     // Kinematics linear derivative
     state_.kinematics.linear_acceleration = get_vehicle_linear_velocity_derivative(
         model_.get_mass(), get_thrust_force_in_earth_frame(state_.actuators.motor_angular_velocity),
-        model_.get_drag_force(state_.kinematics.linear_velocity), model_.get_gravity(),
-        model_.get_stochastic_force(), external_force, state_.dynamics.force);
+        model_.get_drag_force(state_.kinematics.linear_velocity),
+        model_.get_gravity() * model_.get_mass(), model_.get_stochastic_force(), external_force,
+        state_.dynamics.force);
 
     Vector3 position_derivative =
         get_vehicle_position_derivative(state_.kinematics.linear_velocity);
-- 
2.43.0


From d4b86ddea17757c2ea4f0c0902d762c997b84ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:06 +0000
Subject: [PATCH 02/15] fix: make the sub-steps of a long dynamics step add up
 to the requested time

---
 .../multirotor_dynamic_model/dynamics.hpp                | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index c6479a6..897aeba 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -34,6 +34,8 @@
 #ifndef MULTIROTOR_DYNAMIC_MODEL_DYNAMICS_HPP_
 #define MULTIROTOR_DYNAMIC_MODEL_DYNAMICS_HPP_
 
+#include <algorithm>
+#include <cmath>
 #include <vector>
 
 #include "multirotor_dynamic_model/common/state.hpp"
@@ -148,10 +150,11 @@ public:
       throw std::invalid_argument("The time step must be greater than zero");
       return;
     } else if (dt > LOWEST_UPDATE_FREQUENCY) {
-      Scalar num_iter = dt / LOWEST_UPDATE_FREQUENCY;
+      // Split the step in equal sub-steps that add up to dt
+      const int num_iter    = static_cast<int>(std::ceil(dt / LOWEST_UPDATE_FREQUENCY));
+      const Scalar sub_step = std::min<Scalar>(dt / num_iter, LOWEST_UPDATE_FREQUENCY);
       for (int i = 0; i < num_iter; i++) {
-        process_euler_explicit(actuation_angular_velocity, LOWEST_UPDATE_FREQUENCY, external_force,
-                               enable_noise);
+        process_euler_explicit(actuation_angular_velocity, sub_step, external_force, enable_noise);
       }
       return;
     }
-- 
2.43.0


From dd57039ed49d6d35a863fe9d7145aa7ebda15a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:19 +0000
Subject: [PATCH 03/15] fix: store the mixer matrix returned by
 Model::get_mixer_matrix

---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 2b07b8e..75a5946 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -169,7 +169,7 @@ private:
   Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
   Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
   Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  MatrixN6 mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
@@ -196,7 +196,7 @@ public:
     params_ = params;
 
     // Motor mixer matrix
-    Matrix6N mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
+    mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
 
     // Update mixer matrix
     mixer_force_vector_  = mixer_matrix_.row(2);
@@ -479,7 +479,7 @@ public:
    *
    * @return MatrixN6 Mixer matrix
    */
-  inline const MatrixN6 &get_mixer_matrix() const { return mixer_matrix_; }
+  inline const Matrix6N &get_mixer_matrix() const { return mixer_matrix_; }
 
 public:
   // Static functions
-- 
2.43.0


From 9d50bd1d50cf29b718a68e460f31dd424de4c85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:53 +0000
Subject: [PATCH 04/15] fix: initialise every model parameter and mixer matrix

---
 .../multirotor_dynamic_model/model.hpp        | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 75a5946..ecf2a29 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -68,13 +68,13 @@ struct MotorParams {
 
   // Motor characteristics
   int motor_rotation_direction = 1;                // 1 for CW, -1 for CCW
-  Scalar thrust_coefficient;                       // N / (rad/s)^2
-  Scalar torque_coefficient;                       // N · m / (rad/s)^2
+  Scalar thrust_coefficient = 0.0;                 // N / (rad/s)^2
+  Scalar torque_coefficient = 0.0;                 // N · m / (rad/s)^2
   IsometryTypeP pose = IsometryTypeP::Identity();  // Position 3D (m) and orientation (rad)
-  Scalar min_speed;                                // rad/s
-  Scalar max_speed;                                // rad/s
-  Scalar time_constant;                            // s
-  Scalar rotational_inertia;                       // kg · m^2
+  Scalar min_speed          = 0.0;                 // rad/s
+  Scalar max_speed          = 0.0;                 // rad/s
+  Scalar time_constant      = 0.0;                 // s
+  Scalar rotational_inertia = 0.0;                 // kg · m^2
 };
 
 /**
@@ -101,8 +101,8 @@ struct ModelParams {
       std::vector<MotorParamsP>(num_rotors);  // Motor parameters
 
   // Vehicle characteristics
-  Scalar vehicle_mass;      // kg
-  Matrix3 vehicle_inertia;  // kg · m^2
+  Scalar vehicle_mass     = 0.0;              // kg
+  Matrix3 vehicle_inertia = Matrix3::Zero();  // kg · m^2
 
   // Aerodynamic characteristics
   Scalar vehicle_drag_coefficient         = 0.0;              // N/(m/s)
@@ -165,11 +165,11 @@ private:
   ModelParamsP params_;
 
   // Motor mixer matrix
-  VectorN mixer_force_vector_;     // Fz = Mixer * w^2
-  Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
-  Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
-  Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  VectorN mixer_force_vector_    = VectorN::Zero();   // Fz = Mixer * w^2
+  Matrix3N mixer_force_matrix_   = Matrix3N::Zero();  // [Fx, Fy, Fz] = Mixer * a^2
+  Matrix3N mixer_torque_matrix_  = Matrix3N::Zero();  // [Mx, My, Mz] = Mixer * a^2
+  Matrix3N mixer_inertia_matrix_ = Matrix3N::Zero();  // [Ix, Iy, Iz] = Mixer * a^2
+  Matrix6N mixer_matrix_         = Matrix6N::Zero();  // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
-- 
2.43.0


From bb21f133ab45d523ca7bdb34308f953ee63abf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:09 +0000
Subject: [PATCH 05/15] fix: reject model parameters whose motor list does not
 match the rotor count

---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index ecf2a29..3e80760 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -510,6 +510,10 @@ public:
       std::cout << "ERROR: vehicle aero moment coefficient must be positive definite" << std::endl;
       return false;
     }
+    if (params.motors_params.size() != static_cast<std::size_t>(num_rotors)) {
+      std::cout << "ERROR: number of motors must match the number of rotors" << std::endl;
+      return false;
+    }
     for (auto &motor : params.motors_params) {
       if (motor.max_speed < motor.min_speed) {
         std::cout << "ERROR: motor max speed must be greater than min speed" << std::endl;
-- 
2.43.0


From 7da0d0c641a7f9ad8be4c8ec2de9e1e03a052183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:25 +0000
Subject: [PATCH 06/15] fix: return the IMU measurement pair by value instead
 of a dangling reference

---
 multirotor_simulator/imu_simulator/imu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multirotor_simulator/imu_simulator/imu.hpp b/multirotor_simulator/imu_simulator/imu.hpp
index 049032f..bab2fd3 100644
--- a/multirotor_simulator/imu_simulator/imu.hpp
+++ b/multirotor_simulator/imu_simulator/imu.hpp
@@ -236,7 +236,7 @@ public:
    * @return const std::pair<Vector3, Vector3>& Gyroscope and accelerometer measurement in body
    * frame.
    */
-  inline const std::pair<Vector3, Vector3>& get_measurement() const {
+  inline std::pair<Vector3, Vector3> get_measurement() const {
     return std::make_pair(gyro_, accel_);
   }
 
-- 
2.43.0


From b2779f295d22f5a7313ffdb95d569ec0f8721c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:55 +0000
Subject: [PATCH 07/15] fix: feed the IMU the body frame specific force and
 rotate it back in the odometry

---
 multirotor_simulator/imu_simulator/inertial_odometry.hpp | 2 +-
 multirotor_simulator/multirotor_simulator.hpp            | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/imu_simulator/inertial_odometry.hpp b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
index 9bc2b21..44de6a1 100644
--- a/multirotor_simulator/imu_simulator/inertial_odometry.hpp
+++ b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
@@ -239,7 +239,7 @@ protected:
     angular_velocity_ = gyro_filtered_;
 
     // Linear acceleration in world frame
-    linear_acceleration_ = orientation_.inverse() * accel_filtered_;
+    linear_acceleration_ = orientation_ * accel_filtered_;
 
     // Integrate angular velocity to get orientation quaternion
     orientation_ = get_quaternion_integrate(orientation_, angular_velocity_, dt);
diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 2e0e462..cc56325 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -241,9 +241,10 @@ public:
    * @param dt Scalar Time step (s)
    */
   inline void update_imu(const Scalar dt) {
-    // Convert force from world to body frame
+    // Convert force per unit of mass from world to body frame
     imu_.update(dt,
-                dynamics_.get_state().kinematics.orientation * dynamics_.get_state().dynamics.force,
+                dynamics_.get_state().kinematics.orientation.inverse() *
+                    (dynamics_.get_state().dynamics.force / dynamics_.get_model_const().get_mass()),
                 dynamics_.get_state().kinematics.angular_velocity);
   }
 
-- 
2.43.0


From 5ee91fa3df776eeae8d0d5c6931aec4d20f1e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 08/15] fix: reset the references in the simulator's own
 precision on a mode switch

---
 multirotor_simulator/multirotor_simulator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index cc56325..6d70d4c 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -319,10 +319,10 @@ public:
     Scalar roll, pitch;
     state::internal::quaternion_to_Euler(dynamics_.get_state().kinematics.orientation, roll, pitch,
                                          reference_yaw_);
-    reference_velocity_         = Eigen::Vector3d::Zero();
-    reference_acceleration_     = Eigen::Vector3d::Zero();
+    reference_velocity_         = Vector3::Zero();
+    reference_acceleration_     = Vector3::Zero();
     reference_thrust_           = 0.0;
-    reference_angular_velocity_ = Eigen::Vector3d::Zero();
+    reference_angular_velocity_ = Vector3::Zero();
   }
 
   /**
-- 
2.43.0


From f36f69c9776e3ec970a114c69a0ffdc96d2667c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:40 +0000
Subject: [PATCH 09/15] fix: take the INDI parameters of the controller's own
 rotor count

---
 .../multirotor_controllers/controllers/indi_controller.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
index 6b05fb2..d46e61e 100644
--- a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
+++ b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
@@ -128,7 +128,8 @@ public:
    *
    * @param params IndiControllerParams parameters
    */
-  explicit IndiController(const IndiControllerParams<P> &params = IndiControllerParams<P>())
+  explicit IndiController(
+      const IndiControllerParams<P, num_rotors> &params = IndiControllerParams<P, num_rotors>())
       : inertia_(params.inertia), mixer_matrix_inverse_(params.mixer_matrix_inverse),
         PID(params.pid_params) {}
   /**
@@ -196,7 +197,7 @@ public:
    *
    * @param params IndiControllerParams
    */
-  inline void update_params(const IndiControllerParams<P> &params) {
+  inline void update_params(const IndiControllerParams<P, num_rotors> &params) {
     update_inertia(params.inertia);
     update_mixer_matrix_inverse(params.mixer_matrix_inverse);
     this->update_pid_params(params.pid_params);
-- 
2.43.0


From 2cb90de9edd1dd5c30d3ea55b3bad5b7d41314d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:52 +0000
Subject: [PATCH 10/15] fix: dereference the pointer in the pointer overloads
 of set_state and set_model

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index 897aeba..3307496 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -266,7 +266,7 @@ public:
    */
   void set_state(const State *state) {
     if (state != nullptr) {
-      state_ = state;
+      state_ = *state;
     }
   }
 
@@ -284,7 +284,7 @@ public:
    */
   void set_model(const Model *model) {
     if (model != nullptr) {
-      model_ = model;
+      model_ = *model;
     }
   }
 
-- 
2.43.0


From 617f0eb49430efd92fee0dfc3bb2ec8e3a90173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 11/15] fix: treat an integrator held at its anti-windup limit
 as saturated

---
 pid_controller/include/pid_controller/pid.hpp    | 2 +-
 pid_controller/include/pid_controller/pid_1d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 0e05728..2785872 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -630,7 +630,7 @@ protected:
     // axis
     if (reset_integral_flag_ != 0) {
       for (int j = 0; j < proportional_error.size(); j++) {
-        if (std::abs(integral_accum_error_[j]) > antiwindup_cte_[j]) {
+        if (std::abs(integral_accum_error_[j]) >= antiwindup_cte_[j]) {
           if (std::signbit(integral_accum_error_[j]) != std::signbit(proportional_error[j])) {
             integral_accum_error_[j] = 0.0;
           }
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 7d3f4d5..48551ed 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -535,7 +535,7 @@ protected:
     // If sing of the error changes and the integrator is saturated, reset the
     // integral for each axis
     if (reset_integral_flag_ != 0) {
-      if (std::abs(integral_accum_error_) > antiwindup_cte_) {
+      if (std::abs(integral_accum_error_) >= antiwindup_cte_) {
         if (std::signbit(integral_accum_error_) != std::signbit(proportional_error)) {
           integral_accum_error_ = 0.0;
         }
-- 
2.43.0


From 45080608fe011e26fea5f7489c33240c2d88bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:48 +0000
Subject: [PATCH 12/15] fix: do not report stale limits in get_params when the
 saturation is disabled

---
 pid_controller/include/pid_controller/pid.hpp    | 5 ++++-
 pid_controller/include/pid_controller/pid_1d.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 2785872..3d822dc 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -390,7 +390,10 @@ public:
     params.alpha                        = get_alpha();
     params.reset_integral_flag          = get_reset_integral_saturation_flag();
     params.proportional_saturation_flag = get_proportional_saturation_flag();
-    get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    // A disabled saturation is described by its limits being zero
+    if (get_output_saturation_flag()) {
+      get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    }
     return params;
   }
 
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 48551ed..0a9572e 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -335,7 +335,10 @@ public:
     params.antiwindup_cte      = get_anti_windup();
     params.alpha               = get_alpha();
     params.reset_integral_flag = get_reset_integral_saturation_flag();
-    get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    // A disabled saturation is described by its limits being zero
+    if (get_output_saturation_flag()) {
+      get_saturation_limits(params.upper_output_saturation, params.lower_output_saturation);
+    }
     return params;
   }
 
-- 
2.43.0


From ab15d00a87c5b611a2533e88057b5254e4a67a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:37 +0000
Subject: [PATCH 13/15] fix: store the thrust reported by
 AcroController::get_desired_thrust

---
 .../multirotor_controllers/controllers/acro_controller.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_controllers/controllers/acro_controller.hpp b/multirotor_simulator/multirotor_controllers/controllers/acro_controller.hpp
index fd6a8f4..7b48206 100644
--- a/multirotor_simulator/multirotor_controllers/controllers/acro_controller.hpp
+++ b/multirotor_simulator/multirotor_controllers/controllers/acro_controller.hpp
@@ -114,8 +114,9 @@ public:
    * @return Vector3 Desired thrust (N) in earth frame
    */
   Vector3 acceleration_to_thrust(const Vector3& desired_acceleration) {
-    const Vector3 thrust_ = (desired_acceleration - gravity_) * vehicle_mass_;
-    return thrust_;
+    const Vector3 thrust = (desired_acceleration - gravity_) * vehicle_mass_;
+    thrust_              = thrust.norm();
+    return thrust;
   }
 
   /**
-- 
2.43.0


From a057231057881cf662e6028144ab9b5321f5c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 14/15] fix: include the feedforward in the trajectory
 controller's reported acceleration

---
 .../controllers/trajectory_controller.hpp             | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_controllers/controllers/trajectory_controller.hpp b/multirotor_simulator/multirotor_controllers/controllers/trajectory_controller.hpp
index a92bbc9..9837e34 100644
--- a/multirotor_simulator/multirotor_controllers/controllers/trajectory_controller.hpp
+++ b/multirotor_simulator/multirotor_controllers/controllers/trajectory_controller.hpp
@@ -121,10 +121,10 @@ public:
     Vector3 velocity_error = this->get_error(current_velocity, desired_velocity);
 
     // Compute desired acceleration
-    Vector3 desired_acceleration_computed =
+    desired_linear_acceleration_ =
         this->compute_control(dt, position_error, velocity_error) + desired_acceleration;
 
-    return desired_acceleration_computed;
+    return desired_linear_acceleration_;
   }
 
   /**
@@ -143,7 +143,9 @@ public:
    *
    * @return Vector3& Desired linear acceleration (m/s^2)
    */
-  inline const Vector3& get_desired_linear_acceleration() const { return this->get_output(); }
+  inline const Vector3& get_desired_linear_acceleration() const {
+    return desired_linear_acceleration_;
+  }
 
   /**
    * @brief Get the position error
@@ -158,6 +160,9 @@ public:
    * @return Vector3& Velocity error (m/s)
    */
   inline const Vector3& get_velocity_error() const { return this->get_derivative_error(); }
+
+protected:
+  Vector3 desired_linear_acceleration_ = Vector3::Zero();  // Feedback plus feedforward (m/s^2)
 };
 }  // namespace trajectory_controller
 
-- 
2.43.0


From 2bba895f2fadc294cb995ca9a7b86fee90475820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:09 +0000
Subject: [PATCH 15/15] fix: separate the fields of the labelled state dump

---
 .../multirotor_dynamic_model/common/state.hpp            | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
index ca14570..8d991a8 100644
--- a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
@@ -203,10 +203,7 @@ std::ostream& operator<<(std::ostream& os, const Actuators<T, num_rotors>& actua
 template <typename T = double, int num_rotors = 4>
 std::ostream& print_actuators(std::ostream& os, const Actuators<T, num_rotors>& actuators) {
   for (int i = 0; i < num_rotors; i++) {
-    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i];
-    if (i < num_rotors - 1) {
-      os << ", ";
-    }
+    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i] << ", ";
   }
   for (int i = 0; i < num_rotors; i++) {
     os << "motor_" << i << "_angular_acceleration: " << actuators.motor_angular_acceleration[i];
@@ -247,8 +244,8 @@ std::ostream& operator<<(std::ostream& os, const State<T, num_rotors>& state) {
 
 template <typename T = double, int num_rotors = 4>
 void print_state(const State<T, num_rotors>& state) {
-  state::internal::print_kinematics(std::cout, state.kinematics);
-  state::internal::print_dynamics(std::cout, state.dynamics);
+  state::internal::print_kinematics(std::cout, state.kinematics) << ", ";
+  state::internal::print_dynamics(std::cout, state.dynamics) << ", ";
   state::internal::print_actuators(std::cout, state.actuators);
 }
 
-- 
2.43.0

