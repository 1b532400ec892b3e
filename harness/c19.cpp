// C19: rejected vehicle parameters leave no trace, accepted ones take effect everywhere at once.
#include "sim.hpp"
static void quiet() {
  static bool done = false;
  if (!done) std::cout.setstate(std::ios::failbit), std::cerr.setstate(std::ios::failbit), done = true;
}
static std::vector<double> params_flat(const Veh &p) {
  std::vector<double> o;
  auto add = [&](const auto &v) {
    for (int i = 0; i < v.size(); i++) o.push_back((double)*(v.data() + i));
  };
  o.push_back(p.motors_params.size());
  for (auto &m : p.motors_params) {
    for (double d : {(double)m.motor_rotation_direction, (double)m.thrust_coefficient, (double)m.torque_coefficient, (double)m.min_speed, (double)m.max_speed, (double)m.time_constant, (double)m.rotational_inertia}) o.push_back(d);
    Eigen::Matrix<TP, 4, 4> M = m.pose.matrix();
    add(M);
  }
  for (double d : {(double)p.vehicle_mass, (double)p.vehicle_drag_coefficient, (double)p.force_process_noise_auto_correlation, (double)p.moment_process_noise_auto_correlation}) o.push_back(d);
  add(p.vehicle_inertia), add(p.vehicle_aero_moment_coefficient), add(p.gravity);
  return o;
}
// everything a model lets one read, apart from the noise
static std::vector<double> model_flat(const Mod &c) {
  Mod m(c);
  std::vector<double> o = params_flat(m.get_params());
  auto add = [&](const auto &v) {
    for (int j = 0; j < v.cols(); j++)
      for (int i = 0; i < v.rows(); i++) o.push_back((double)v(i, j));
  };
  add(m.get_mixer_torque_matrix()), add(m.get_mixer_force_vector()), add(m.get_mixer_force_matrix()), add(m.get_mixer_inertia_matrix()), add(m.get_mixer_matrix());
  o.push_back(m.get_num_rotors()), o.push_back(m.get_mass()), o.push_back(m.get_vehicle_drag_coefficient());
  o.push_back(m.get_force_process_noise_auto_correlation()), o.push_back(m.get_moment_process_noise_auto_correlation());
  add(m.get_vehicle_inertia()), add(m.get_vehicle_aero_moment_coefficient()), add(m.get_gravity());
  add(m.get_stochastic_force()), add(m.get_stochastic_moment());
  o.push_back(m.get_motors().size());
  V3 w(1, -2, 3), v(-3, 2, 1);
  VN s, a;
  for (int i = 0; i < NR; i++) s(i) = (TP)(10 * (i + 1)), a(i) = (TP)(3 - 2 * i);
  add(m.get_aerodynamic_moment(w)), add(m.get_drag_force(v)), add(m.get_force_vector_thrust_by_motors(s)), add(m.get_torque_by_motors(s, a));
  o.push_back(m.get_force_thrust_by_motors(s));
  return o;
}
static TP neg(Rng &r, double typ) {
  switch (r.below(4)) {
    case 0: return (TP)(-typ * r.logu(1e-3, 1e3));
    case 1: return -std::numeric_limits<TP>::min() * (TP)r.logu(1, 1e6);
    case 2: return -std::numeric_limits<TP>::epsilon() * (TP)r.uni(0.5, 2);
    default: return (TP)(-typ);
  }
}
static Eigen::Matrix<TP, 3, 3> negdet(Rng &r, double lo, double hi) {
  ref::M3 d;
  double b = r.logu(lo, hi);
  for (int i = 0; i < 3; i++) d.a[i][i] = b * r.logu(0.3, 3);
  if (r.chance(0.7)) {
    int i = r.below(3);
    d.a[i][i] = -d.a[i][i];
  } else
    for (int i = 0; i < 3; i++) d.a[i][i] = -d.a[i][i];
  if (r.chance(0.5)) return em3<TP>(d);
  ref::M3 R = ref::rotm(ref::axis_angle(gen::dir(r), r.uni(0, 6)));
  return em3<TP>(R * d * ref::tr(R));
}
// breaks exactly one rule; returns what
static std::string spoil(Rng &r, Veh &q) {
  int i   = r.below(NR);
  auto &m = q.motors_params[i];
  std::string at = i == 0 ? " of the first rotor" : i == NR - 1 ? " of the last rotor" : " of an inner rotor";
  switch (r.below(10)) {
    case 0: q.vehicle_mass = neg(r, 1); return "negative mass";
    case 1: q.vehicle_inertia = negdet(r, 1e-4, 1); return "negative inertia determinant";
    case 2: q.vehicle_drag_coefficient = neg(r, 0.1); return "negative drag";
    case 3: q.vehicle_aero_moment_coefficient = negdet(r, 1e-4, 1); return "negative aerodynamic determinant";
    case 4: m.time_constant = neg(r, 0.02); return "negative time constant" + at;
    case 5: m.rotational_inertia = neg(r, 1e-5); return "negative rotor inertia" + at;
    case 6: m.thrust_coefficient = neg(r, 1e-6); return "negative thrust coefficient" + at;
    case 7: m.torque_coefficient = neg(r, 1e-8); return "negative torque coefficient" + at;
    case 8: {
      TP a = m.min_speed;
      if (r.chance(0.3)) m.min_speed = a = (TP)(-r.logu(1, 1000));
      m.max_speed = r.chance(0.3) ? std::nextafter(a, (TP)-1e9) : a - (TP)r.logu(1e-2, 1e3);
      if (!(m.max_speed < m.min_speed)) m.max_speed = m.min_speed - 1;
      return "speed limits exchanged" + at;
    }
    default: {
      int k[] = {0, NR - 1, NR + 1, 2 * NR};
      q.motors_params.resize(k[r.below(4)], q.motors_params[0]);
      return "wrong rotor count";
    }
  }
}
static bool derived(const Mod &c, const Veh &q, const char *ctx) {
  Mod m(c);
  vh::ev();
  int d = first_diff(params_flat(m.get_params()), params_flat(q));
  if (d != -1) {
    vh::fail("read back", "%s: accepted parameters read back differently (value %d)", ctx, d);
    return false;
  }
  ref::Model rm = rmodel<TP, NR>(q);
  LD rel = vh::rel<TP>();
  bool ok = true;
  auto chk = [&](const char *f, LD a, LD b, LD s) {
    vh::ev();
    if (vh::near(a, b, rel * s + 1e-30L)) return;
    ok = false;
    vh::fail(std::string("effect/") + f, "%s: %s is %.9g, accepted parameters ask for %.9g", ctx, f, vh::D(a), vh::D(b));
  };
  for (int i = 0; i < NR; i++) {
    std::vector<LD> w(NR, 0), z(NR, 0), a(NR, 0);
    w[i] = 1, a[i] = 1;
    ref::V3 F, T, F2, J;
    LD sF = 0, sT = 0, s2 = 0, sJ = 0;
    ref::wrench(rm, w, z, F, T, &sF, &sT);
    ref::wrench(rm, z, a, F2, J, &s2, &sJ);
    for (int k = 0; k < 3; k++) {
      chk("mixer matrix", m.get_mixer_matrix()(k, i), F[k], sF), chk("mixer matrix", m.get_mixer_matrix()(3 + k, i), T[k], sT);
      chk("force matrix", m.get_mixer_force_matrix()(k, i), F[k], sF), chk("torque matrix", m.get_mixer_torque_matrix()(k, i), T[k], sT);
      chk("inertia matrix", m.get_mixer_inertia_matrix()(k, i), J[k], sJ);
    }
    chk("force vector", m.get_mixer_force_vector()(i), F.z, sF);
  }
  chk("mass", m.get_mass(), q.vehicle_mass, 0), chk("drag", m.get_vehicle_drag_coefficient(), q.vehicle_drag_coefficient, 0);
  V3 w(1, -2, 3);
  ref::V3 am = (rm.aero * rv(w)) * (-ref::norm(rv(w))), dr{-rm.drag * 1, rm.drag * 4, -rm.drag * 9};
  for (int k = 0; k < 3; k++) {
    chk("aerodynamic moment", m.get_aerodynamic_moment(w)(k), am[k], ref::normF(rm.aero) * 14), chk("drag force", m.get_drag_force(w)(k), dr[k], rm.drag * 9);
    chk("gravity", m.get_gravity()(k), q.gravity(k), 0);
    for (int j = 0; j < 3; j++) chk("inertia", m.get_vehicle_inertia()(k, j), q.vehicle_inertia(k, j), 0);
  }
  return ok;
}
static bool twins(Sim &a, Sim &b, const char *ctx) {
  vh::ev(2);
  int d = first_diff(model_flat(a.get_dynamics_const().get_model_const()), model_flat(b.get_dynamics_const().get_model_const()));
  if (d != -1) {
    vh::fail("rejected/model", "%s: value %d of the model differs from a vehicle that never saw the rejected parameters", ctx, d);
    return false;
  }
  d = first_diff(flat<TP, NR>(a), flat<TP, NR>(b));
  if (d != -1) {
    vh::fail("rejected/behaviour", "%s: observable %d differs from a vehicle that never saw the rejected parameters", ctx, d);
    return false;
  }
  return true;
}
static Veh valid(Rng &r) {
  Veh q = gen::vehicle<TP, NR>(r);
  for (auto &m : q.motors_params) {  // values at the edge of what is allowed
    if (r.chance(0.1)) m.rotational_inertia = 0;
    if (r.chance(0.1)) m.torque_coefficient = 0;
    if (r.chance(0.05)) m.thrust_coefficient = 0;
  }
  if (r.chance(0.1)) q.vehicle_drag_coefficient = 0;
  if (r.chance(0.1)) q.vehicle_aero_moment_coefficient.setZero();
  return q;
}
void run_case(long, Rng &r) {
  quiet();
  // construction
  {
    Veh q = valid(r);
    std::string what = spoil(r, q);
    Mod m(q, 3), d(Veh(), 3);
    vh::ev();
    int k = first_diff(model_flat(m), model_flat(d));
    if (k != -1) {
      vh::fail("construction", "a model built with a %s takes parts of it (value %d)", what.c_str(), k);
      return;
    }
    if (r.chance(0.3)) {
      q = valid(r);
      if (!m.check_params(q)) vh::fail("accept", "valid parameters are refused by a model whose own were rejected");
      m.update_params(q);
      if (!derived(m, q, "after a rejected construction")) return;
      vh::bin("recovered from a rejected construction");
    }
    vh::bin("rejected construction");
  }
  SimP p = gen::simp(r, true);
  p.dynamics_params.model_params = valid(r);
  Sim s(p), t(p);
  Mod probe;
  if (!derived(s.get_dynamics_const().get_model_const(), p.dynamics_params.model_params, "construction")) return;
  s.arm(), t.arm();
  s.set_control_mode(mr::ControlMode::MOTOR_W), t.set_control_mode(mr::ControlMode::MOTOR_W);
  int n = r.history(3, 20, 0.002);
  Veh cur = p.dynamics_params.model_params;
  uint64_t h = 0;
  for (int k = 0; k < n; k++) {
    std::string what = "step";
    int op = r.below(4);
    if (op < 2) {
      Veh q = r.chance(0.5) ? valid(r) : cur;  // everything else different, or only the spoiled value
      if (r.chance(0.5) && op == 0) q.vehicle_mass = cur.vehicle_mass * 2, q.gravity *= (TP)2;
      what = spoil(r, q);
      vh::bin(what);
      if (r.chance(0.2) && (int)q.motors_params.size() == NR) {
        std::string second = spoil(r, q);
        if (second != what) what += ", " + second;
      }
      vh::ev();
      bool c1 = s.get_dynamics().get_model().check_params(q), c2 = probe.check_params(q);
      if (c1 || c2) {
        vh::fail("accept/" + what, "parameters with a %s are declared valid", what.c_str());
        return;
      }
      if (r.chance(0.5)) {
        s.get_dynamics().get_model().update_params(q);
        if (r.chance(0.3)) s.get_dynamics().get_model().update_params(q);
      } else {  // through a copy
        Mod m;
        s.get_dynamics().get_model(m);
        m.update_params(q);
        s.get_dynamics().set_model(m);
      }
      if (!twins(s, t, what.c_str())) return;
      h = vh::hashd(h, q.vehicle_mass);
    } else if (op == 2) {
      Veh q = valid(r);
      if (r.chance(0.6)) q = cur, vh::bin(vh::fmt("changed: %s", gen::retune<TP, NR>(r, q)));
      vh::ev();
      if (!s.get_dynamics().get_model().check_params(q)) {
        vh::fail("refuse", "valid parameters are declared invalid");
        return;
      }
      s.get_dynamics().get_model().update_params(q), t.get_dynamics().get_model().update_params(q);
      cur = q;
      if (!derived(s.get_dynamics_const().get_model_const(), q, "accepted update")) return;
      // the new vehicle also moves like the new vehicle, and no longer like the old one
      Dyn d = s.get_dynamics_const();
      if (d.get_state().kinematics.angular_velocity.norm() < 300 && d.get_state().kinematics.linear_velocity.norm() < 1e4 && d.get_state().actuators.motor_angular_velocity.allFinite()) {
        VN c  = gen::command<TP, NR>(r, q, false);
        TP dt = (TP)r.logu(1e-4, 0.0099);
        ref::Scale sc;
        ref::State want = ref::step(rmodel<TP, NR>(q), rstate<TP, NR>(d.get_state()), rvec(c), dt, ref::V3(), ref::V3(), ref::V3(), &sc);
        d.process_euler_explicit(c, dt, V3::Zero(), false);
        if (!check_state<TP, NR>("effect/step", d.get_state(), want, sc, "the step after an accepted update")) return;
        vh::bin("step after an accepted update judged");
      }
      vh::bin("accepted update");
      h = vh::hashd(h, q.vehicle_mass + 1);
    }
    VN c  = gen::command<TP, NR>(r, cur, r.chance(0.3));
    TP dt = (TP)r.logu(1e-4, 0.03);
    for (Sim *x : {&s, &t}) {
      x->set_refence_motors_angular_velocity(c);
      x->update_controller(dt), x->update_dynamics(dt), x->update_imu(dt), x->update_inertial_odometry(dt);
    }
    if (!twins(s, t, ("step after " + what).c_str())) return;
    vh::nontrivial(vh::hashd(h, k));
    vh::bin("step compared");
    if (k == 0) vh::sample("%d updates and steps, first %s", n, what.c_str());
  }
}
