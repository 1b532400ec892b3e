// C14: mixers against the wrench of the rotors, allocation against the rotor model.
#include "sim.hpp"
using MP  = mr::model::MotorParams<TP>;
using M6N = Eigen::Matrix<TP, 6, NR>;
using MN6 = Eigen::Matrix<TP, NR, 6>;

static bool nearm(const char *key, const std::string &what, LD got, LD want, LD scale) {
  vh::ev();
  if (vh::near(got, want, vh::rel<TP>() * scale + 1e-300L)) return true;
  vh::fail(key, "%s: %.12g expected %.12g (scale %.3g)", what.c_str(), vh::D(got), vh::D(want), vh::D(scale));
  return false;
}
static void mixers(Rng &r) {
  Veh p        = gen::vehicle<TP, NR>(r);
  ref::Model m = rmodel<TP, NR>(p);
  Mod model(p);
  if (r.chance(0.3)) {  // changed afterwards
    Veh other = gen::vehicle<TP, NR>(r);
    model.update_params(other);
    model.update_params(p);
    vh::bin("vehicle changed");
  }
  M6N a  = Mod::template compute_mixer_matrix<6>(p.motors_params), b = Mod::compute_mixer_matrix_6D(p.motors_params), c = model.get_mixer_matrix();
  auto f4 = Mod::template compute_mixer_matrix<4>(p.motors_params);
  auto f4b = Mod::compute_mixer_matrix_4D(p.motors_params);
  auto in = Mod::compute_mixer_inertia_matrix(p.motors_params);
  for (int i = 0; i < NR; i++) {
    auto &k = m.m[i];
    // what rotor i alone does at unit squared speed
    std::vector<LD> w(NR, 0), dw(NR, 0);
    w[i] = 1;
    ref::V3 F, T, Fj, Tj;
    LD sF = 0, sT = 0;
    ref::wrench(m, w, dw, F, T, &sF, &sT);
    w[i] = 0, dw[i] = 1;
    ref::wrench(m, w, dw, Fj, Tj);
    bool upright = ref::dist(k.R * ref::V3{0, 0, 1}, {0, 0, 1}) == 0;
    for (int j = 0; j < 3; j++) {
      std::string n = vh::fmt("rotor %d row %d", i, j);
      for (const M6N *x : {&a, &b, &c}) {
        nearm("mixer/force", n, (*x)(j, i), F[j], sF);
        nearm("mixer/torque", n, (*x)(3 + j, i), T[j], sT);
      }
      nearm("mixer/force", n + " of the force matrix", model.get_mixer_force_matrix()(j, i), F[j], sF);
      nearm("mixer/torque", n + " of the torque matrix", model.get_mixer_torque_matrix()(j, i), T[j], sT);
      nearm("mixer/inertia", n, in(j, i), Tj[j], fabsl(k.J));
      nearm("mixer/inertia", n + " stored", model.get_mixer_inertia_matrix()(j, i), Tj[j], fabsl(k.J));
    }
    nearm("mixer/force", vh::fmt("rotor %d of the force vector", i), model.get_mixer_force_vector()(i), F.z, sF);
    // the reduced form is made for upright rotors
    if (upright) {
      LD w4[4] = {F.z, T.x, T.y, T.z};
      for (int j = 0; j < 4; j++) nearm("mixer/reduced", vh::fmt("rotor %d row %d", i, j), f4(j, i), w4[j], j ? sT : sF), nearm("mixer/reduced", vh::fmt("rotor %d row %d", i, j), f4b(j, i), w4[j], j ? sT : sF);
      vh::bin("upright rotor");
    } else vh::bin("tilted rotor");
  }
  // the rotor model on any speeds, also reversed
  VN w, dw;
  for (int i = 0; i < NR; i++) w(i) = (TP)r.wide(2000), dw(i) = (TP)r.wide(1e4);
  ref::V3 F, T;
  LD sF = 0, sT = 0;
  ref::wrench(m, rvec(w), rvec(dw), F, T, &sF, &sT);
  V3 gf = model.get_force_vector_thrust_by_motors(w), gt = model.get_torque_by_motors(w, dw);
  TP gz = model.get_force_thrust_by_motors(w);
  for (int j = 0; j < 3; j++) nearm("rotor model/force", vh::fmt("axis %d", j), gf(j), F[j], sF), nearm("rotor model/torque", vh::fmt("axis %d", j), gt(j), T[j], sT);
  nearm("rotor model/thrust", "collective", gz, F.z, sF);
  vh::nontrivial(vh::hashd(1, (double)gf(0) + (double)gt(1)));
}
static void allocate(Rng &r) {
  if (NR < 4) return mixers(r);
  // upright rotors with a well-conditioned allocation
  gen::VehOpt vo;
  vo.tilt = false;
  vo.far  = sizeof(TP) == 8;  // in single precision the determinant of a very small vehicle underflows
  Veh p   = gen::vehicle<TP, NR>(r, vo);
  for (int i = 0; i < NR; i++) p.motors_params[i].motor_rotation_direction = i % 2 ? -1 : 1;
  if (r.chance(0.3)) {
    double k = r.logu(1e-7, 1e-3), t = k * r.uni(0.01, 0.2), x = r.uni(0.1, 0.6), y = r.uni(0.1, 0.6);
    if (NR == 4) p.motors_params = r.chance(0.5) ? Mod::create_quadrotor_x_config((TP)k, (TP)t, (TP)x, (TP)y, 0, 1000, (TP)0.02, 0) : Mod::create_quadrotor_plus_config((TP)k, (TP)t, (TP)x, (TP)y, 0, 1000, (TP)0.02, 0);
    else if (NR == 6) p.motors_params = Mod::create_hexacopter_config((TP)k, (TP)t, (TP)x, 0, 1000, (TP)0.02, 0);
    vh::bin("built airframe");
  }
  for (auto &m : p.motors_params) m.rotational_inertia = 0;
  Mod model(p);
  M6N mix = model.get_mixer_matrix();
  Eigen::Matrix<long double, 4, NR> m4 = mix.template cast<long double>().bottomRows(4);
  // rows scaled to unit size, so that the condition number is that of the geometry
  Eigen::Matrix<long double, 4, 1> row = m4.rowwise().norm();
  if (!(row.minCoeff() > 0)) return;
  Eigen::Matrix<long double, 4, NR> ms = row.cwiseInverse().asDiagonal() * m4;
  Eigen::Matrix<long double, 4, 4> g   = ms * ms.transpose();
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix<long double, 4, 4>> es(g);
  long double cond = sqrtl(es.eigenvalues()(3) / es.eigenvalues()(0));
  if (!(cond < 50)) {
    vh::bin("badly conditioned geometry (skipped)");
    return;
  }
  MN6 inv = MN6::Zero();
  bool own = false;
  if constexpr (NR == 4) {
    if (mix.row(0).isZero() && mix.row(1).isZero()) {
      inv = indi_controller::compute_quadrotor_mixer_matrix_inverse<TP>(mix);
      own = true;
      // a real inverse
      Eigen::Matrix<long double, 4, 4> prod = m4 * inv.template cast<long double>().rightCols(4);
      LD spread = row.maxCoeff() / row.minCoeff();
      for (int i = 0; i < 4; i++) {
        for (int j = 0; j < 4; j++) {
          vh::ev();
          LD tol = (LD)std::numeric_limits<TP>::epsilon() * 1e3L * cond * cond * (row(i) / row(j)) * (1 + 0 * spread);
          if (!(fabsl(prod(i, j) - (i == j)) <= std::max(tol, i == j ? tol : tol))) vh::fail("inverse", "mixer times inverse (%d,%d) is %.9g, tolerance %.3g", i, j, vh::D(prod(i, j)), vh::D(tol));
        }
        if (inv(i, 0) != 0 || inv(i, 1) != 0) vh::fail("inverse/lateral", "a lateral force request reaches rotor %d", i);
      }
      vh::bin("quadrotor inverse");
    }
  }
  if (!own) {
    Eigen::Matrix<long double, NR, 4> pi = ms.transpose() * g.inverse() * row.cwiseInverse().asDiagonal();
    inv.rightCols(4)                     = pi.template cast<TP>();
    vh::bin("pseudo-inverse allocation");
  }
  // a tuned controller
  indi_controller::IndiControllerParams<TP, NR> ip;
  ip.inertia              = p.vehicle_inertia;
  ip.mixer_matrix_inverse = inv;
  ip.pid_params           = gen::pid(r, 20, 1, 0.05);
  indi_controller::IndiController<TP, NR> c(ip);
  ref::Pid pid(3);
  pidh::to_ref<TP, 3>(ip.pid_params, pid);
  ref::M3 I = rm(ip.inertia);
  double W  = (double)p.vehicle_mass * 9.81;
  for (int k = 0; k < 6; k++) {
    V3 w = gen::v3(r, 5), wd = gen::v3(r, 5);
    TP T = (TP)(r.chance(0.1) ? 0 : r.chance(0.1) ? -W * r.unit() : W * r.uni(0, 3)), dt = (TP)r.logu(1e-3, 0.02);
    VN s = c.acro_to_motor_angular_velocity(w, T, wd, dt);
    std::vector<LD> e{(LD)wd(0) - w(0), (LD)wd(1) - w(1), (LD)wd(2) - w(2)}, mag{fabsl(wd(0)) + fabsl(w(0)), fabsl(wd(1)) + fabsl(w(1)), fabsl(wd(2)) + fabsl(w(2))};
    pid.run(dt, e, nullptr, &mag);
    if (pid.tie) return;
    ref::V3 acc{pid.out[0], pid.out[1], pid.out[2]}, sacc{pid.scale[0], pid.scale[1], pid.scale[2]};
    ref::V3 want = I * acc + ref::cross(rv(wd), I * rv(wd));
    LD st = ref::normF(I) * (ref::norm(sacc) + 2 * ref::norm(rv(wd)) * ref::norm(rv(wd)));
    // through the rotor model
    V3 F = model.get_force_vector_thrust_by_motors(s), Tq = model.get_torque_by_motors(s, VN::Zero());
    // magnitudes passing through the allocation
    LD mag2[4] = {0, 0, 0, 0};
    for (int i = 0; i < NR; i++) {
      LD u = fabsl(inv(i, 2) * (LD)T) + (fabsl(inv(i, 3)) + fabsl(inv(i, 4)) + fabsl(inv(i, 5))) * st;
      for (int j = 0; j < 4; j++) mag2[j] += fabsl(m4(j, i)) * u;
    }
    LD kk = 50 * cond;
    nearm("allocation/thrust", "collective thrust", F(2), T, kk * (fabsl(T) + mag2[0] * 0.02L));
    for (int j = 0; j < 3; j++) nearm("allocation/torque", vh::fmt("torque axis %d", j), Tq(j), want[j], kk * (st + mag2[1 + j] * 0.02L));
    // what it reports
    for (int j = 0; j < 3; j++) nearm("allocation/reported torque", vh::fmt("axis %d", j), c.get_desired_torque()(j), want[j], st * 4), nearm("allocation/reported acceleration", vh::fmt("axis %d", j), c.get_desired_angular_acceleration()(j), acc[j], ref::norm(sacc) * 4 + 1e-30L);
    nearm("allocation/reported thrust", "thrust", c.get_desired_thrust()(2), T, fabsl(T));
    vh::ev();
    if (c.get_motor_angular_velocity() != s) vh::fail("allocation/reported speeds", "the reported rotor speeds are not the returned ones");
    bool neg = false;
    for (int i = 0; i < NR; i++) neg |= s(i) < 0;
    if (neg) vh::bin("negative allocation");
    vh::bin("allocation");
    vh::nontrivial(vh::hashd(k, (double)s(0)));
    if (k == 0) vh::sample("thrust %.4g torque (%.4g %.4g %.4g) allocated and reproduced, condition %.3g", (double)T, vh::D(want.x), vh::D(want.y), vh::D(want.z), vh::D(cond));
  }
  // the whole chain: simulator in acro mode, rotors at the commanded speed
  if (r.chance(0.5)) {
    SimP sp;
    for (auto &m : p.motors_params) m.min_speed = (TP)-1e6, m.max_speed = (TP)1e6;
    sp.dynamics_params.model_params             = p;
    sp.dynamics_params.state.kinematics.angular_velocity = gen::v3(r, 2);
    sp.controller_params.indi_controller_params = ip;
    Sim sim(sp);
    sim.arm();
    sim.set_control_mode(mr::ControlMode::ACRO);
    TP T  = (TP)(W * r.uni(0.1, 2));
    V3 wd = gen::v3(r, 2);
    sim.set_reference_acro(T, wd);
    sim.update_controller((TP)0.01);
    VN s = sim.get_actuation_motors_angular_velocity();
    V3 tq = sim.get_controller_const().get_indi_controller_const().get_desired_torque();
    V3 F = sim.get_dynamics().get_model().get_force_vector_thrust_by_motors(s), Tq = sim.get_dynamics().get_model().get_torque_by_motors(s, VN::Zero());
    LD mag2[4] = {0, 0, 0, 0};
    for (int i = 0; i < NR; i++)
      for (int j = 0; j < 4; j++) mag2[j] += fabsl(m4(j, i)) * (LD)s(i) * (LD)s(i);
    nearm("allocation/simulator thrust", "thrust", F(2), T, 50 * cond * (fabsl(T) + mag2[0]));
    for (int j = 0; j < 3; j++) nearm("allocation/simulator torque", "torque", Tq(j), tq(j), 50 * cond * ((LD)tq.norm() + mag2[1 + j]));
    vh::bin("simulator in acro mode");
  }
}
static void squares(Rng &r) {
  using Vx = Eigen::Matrix<TP, NR, 1>;
  Vx v, u;
  for (int i = 0; i < NR; i++) {
    double lim = sizeof(TP) == 4 ? 1e15 : 1e100;
    v(i) = (TP)(r.chance(0.1) ? 0 : r.sgn() * r.logu(1 / lim, lim));
    u(i) = r.chance(0.5) ? v(i) * (TP)(1 + r.uni(0, 1e-3)) : (TP)(r.sgn() * r.logu(1 / lim, lim));
  }
  Vx s1 = mr::utils::sqrt_keep_sign(v), s2 = indi_controller::sqrt_keep_sign(v), q = mr::utils::squared_keep_sign(v);
  Vx n1 = mr::utils::sqrt_keep_sign(Vx(-v)), n2 = indi_controller::sqrt_keep_sign(Vx(-v)), nq = mr::utils::squared_keep_sign(Vx(-v));
  Vx b1 = mr::utils::squared_keep_sign(s1), b2 = mr::utils::sqrt_keep_sign(q);
  Vx us = mr::utils::sqrt_keep_sign(u), us2 = indi_controller::sqrt_keep_sign(u), uq = mr::utils::squared_keep_sign(u);
  for (int i = 0; i < NR; i++) {
    LD x = v(i);
    nearm("signed root", "utils", s1(i), ref::ssqrt(x), sqrtl(fabsl(x)));
    nearm("signed root", "allocation", s2(i), ref::ssqrt(x), sqrtl(fabsl(x)));
    nearm("signed square", "utils", q(i), ref::ssq(x), x * x);
    nearm("signed root and square", "root then square", b1(i), x, fabsl(x));
    nearm("signed root and square", "square then root", b2(i), x, fabsl(x));
    vh::ev(3);
    if (n1(i) != -s1(i) || n2(i) != -s2(i) || nq(i) != -q(i)) vh::fail("signed/odd", "not odd at %.9g", vh::D(x));
    if (v(i) < u(i) && (s1(i) > us(i) || s2(i) > us2(i) || q(i) > uq(i))) vh::fail("signed/monotone", "not monotone between %.9g and %.9g", vh::D(x), (double)u(i));
    if ((x > 0 && !(s1(i) > 0 && s2(i) > 0)) || (x < 0 && !(s1(i) < 0 && s2(i) < 0)) || (x == 0 && (s1(i) != 0 || s2(i) != 0 || q(i) != 0))) vh::fail("signed/sign", "sign lost at %.9g", vh::D(x));
  }
  // limiting a vector to a range
  float lo = (float)r.wide(100), hi = lo + (float)(r.chance(0.1) ? 0 : r.logu(1e-3, 1e3));
  Vx c     = v;
  for (int i = 0; i < NR; i++)
    if (r.chance(0.6)) c(i) = (TP)(lo + (hi - lo) * r.uni(-1, 2));
  Vx c0 = c;
  mr::utils::clamp_vector(c, lo, hi);
  for (int i = 0; i < NR; i++) {
    vh::ev();
    if (c(i) != std::min(std::max(c0(i), (TP)lo), (TP)hi)) vh::fail("range", "component %d, %.9g limited to [%.9g, %.9g], is %.9g", i, (double)c0(i), lo, hi, (double)c(i));
  }
  vh::bin("signed root and square");
  vh::nontrivial(vh::hashd(2, (double)s1(0)));
}
void run_case(long idx, Rng &r) {
  switch (idx % 4) {
    case 0: mixers(r); break;
    case 1: squares(r); break;
    default: allocate(r);
  }
}
