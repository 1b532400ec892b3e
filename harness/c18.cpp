// C18: odometry against a reference integrator, and against the true motion.
#include "sim.hpp"
using Odo = imu::InertialOdometry<TP>;
struct RefOdo {
  LD alpha = 1;
  ref::Q q0, q;
  ref::V3 g, a, aw, v, p;
  LD sp = 0, sv = 0, sa = 0, sg = 0, sq = 0;
  void reset() { q = q0, g = a = aw = v = p = ref::V3(), sp = sv = sa = sg = 0, sq = 0; }
  void update(ref::V3 gy, ref::V3 ac, LD dt) {
    LD b = 1 - alpha;
    g = gy * alpha + g * b, a = ac * alpha + a * b;
    sg = ref::filter_scale(alpha, ref::norm(gy), sg), sa = ref::filter_scale(alpha, ref::norm(ac), sa);
    aw = ref::rot(q, a);
    q  = ref::qstep(q, g, dt);
    v  = v + aw * dt;
    p  = p + v * dt;
    sq += 1 + sg * dt;  // rounding accumulates with every turn
    sv += sa * dt * (1 + sq), sp += sv * dt;
  }
};
static bool compare(const Odo &o, const RefOdo &w, const std::string &ctx) {
  V3 p, v, g, a;
  Eigen::Quaternion<TP> q;
  o.get_measurement(p, q, v, g, a);
  vh::ev(6);
  if (o.get_position() != p || o.get_orientation().coeffs() != q.coeffs() || o.get_linear_velocity() != v || o.get_angular_velocity() != g || o.get_linear_acceleration() != a) {
    vh::fail("read", "%s: the ways of reading the odometry disagree", ctx.c_str());
    return false;
  }
  bool ok = true;
  LD rel  = vh::rel<TP>();
  auto chk = [&](const char *f, const V3 &x, ref::V3 want, LD s) {
    if (ref::finite3(rv(x)) && ref::dist(rv(x), want) <= rel * s + 1e-30L) return;
    vh::fail(std::string("integrate/") + f, "%s: %s (%.9g %.9g %.9g) expected (%.9g %.9g %.9g) scale %.3g", ctx.c_str(), f, (double)x(0), (double)x(1), (double)x(2), vh::D(want.x), vh::D(want.y), vh::D(want.z), vh::D(s));
    ok = false;
  };
  LD ke = (LD)std::numeric_limits<TP>::epsilon() / rel;  // rounding growth relative to the tolerance
  LD gr = 1 + ke * 8 * w.sq;
  chk("angular velocity", g, w.g, w.sg);
  chk("linear acceleration", a, w.aw, w.sa * gr * 2);
  chk("linear velocity", v, w.v, (w.sv * ke * 8 + ref::norm(w.v) + w.sa) * gr);
  chk("position", p, w.p, (w.sp * ke * 8 + ref::norm(w.p) + ref::norm(w.v) + w.sa) * gr * 2);
  LD ang = ref::qangle(ref::qunit(rq(q)), w.q);
  if (!(ang <= rel * 4 * gr)) {
    vh::fail("integrate/orientation", "%s: orientation %.6g rad away", ctx.c_str(), vh::D(ang));
    ok = false;
  }
  return ok;
}
static void direct(Rng &r) {
  bool plain = r.chance(0.1);  // the default estimator takes the readings unfiltered
  OdoP p     = plain ? OdoP() : gen::odo(r);
  Odo o  = r.chance(0.5) ? Odo(p) : Odo(p.alpha, p.initial_world_orientation);
  if (p.initial_world_orientation.coeffs() == OdoP().initial_world_orientation.coeffs() && r.chance(0.4)) {  // left to the documented defaults
    o = plain ? Odo() : Odo(p.alpha);
    vh::bin("default arguments");
  }
  RefOdo w;
  w.alpha = plain ? (TP)1 : p.alpha, w.q0 = ref::qunit(rq(p.initial_world_orientation));
  w.reset();
  SimP sp;
  bool via = r.chance(0.2);
  if (via) sp.inertial_odometry_params = p;
  Sim sim(sp);
  if (via) {  // a moving vehicle in the simulator feeds it
    sp = gen::simp(r, true);
    sp.inertial_odometry_params = p;
    sim = Sim(sp);
    sim.arm();
  }
  const Odo &oo = via ? sim.get_inertial_odometry_const() : o;
  if (!compare(oo, w, "new odometry")) return;
  int n = r.chance(0.03) ? 400 : r.history(3, 60);
  double wm = r.logu(0.1, 10) * (r.chance(0.05) ? r.logu(1e-4, 1) : 1.0), am = r.logu(0.1, 30) * r.far();
  V3 cg = gen::v3(r, wm), ca = gen::v3(r, am);
  bool constant = r.chance(0.3);
  for (int k = 0; k < n; k++) {
    std::string ctx = vh::fmt("update %d of %d, factor %.4g%s", k, n, vh::D(w.alpha), via ? ", in the simulator" : "");
    int op = r.below(40);
    if (op == 0) {
      if (via) sim.get_inertial_odometry().reset();
      else o.reset();
      w.reset(), ctx += " reset", vh::bin("reset");
    } else if (op == 1) {
      auto q = eq<TP>(gen::quat(r));
      if (via) sim.get_inertial_odometry().set_initial_orientation(q);
      else o.set_initial_orientation(q);
      w.q0 = w.q = ref::qunit(rq(q)), ctx += " set_initial_orientation", vh::bin("orientation set");
    } else {
      TP dt = (TP)(r.chance(0.05) ? r.logu(1e-8, 1e-4) : r.chance(0.8) ? r.logu(1e-4, 0.02) : r.logu(0.02, 0.3));
      V3 g = constant ? cg : gen::v3(r, wm), a = constant ? ca : gen::v3(r, am);
      if (via) {
        sim.update_dynamics(std::min(dt, (TP)0.01)), sim.update_imu(dt);
        sim.get_imu_measurement(g, a);
        if (!(g.norm() < 100) || !(a.norm() < 1e5)) return;
        sim.update_inertial_odometry(dt);
        vh::bin("updated by the simulator");
      } else o.update(g, a, dt);
      w.update(rv(g), rv(a), dt);
      vh::bin(w.alpha == 1 ? "unfiltered update" : "filtered update");
      if (w.alpha < 0.01L) vh::bin("heavily filtered update");
    }
    if (!compare(oo, w, ctx)) return;
    if (via) {
      auto kk = sim.get_odometry();
      mr::state::internal::Kinematics<TP> k2;
      sim.get_odometry(k2);
      vh::ev();
      if (kk.position != oo.get_position() || k2.position != kk.position || kk.orientation.coeffs() != oo.get_orientation().coeffs() || k2.orientation.coeffs() != kk.orientation.coeffs() || kk.linear_velocity != oo.get_linear_velocity() || k2.linear_velocity != kk.linear_velocity || kk.angular_velocity != oo.get_angular_velocity() || k2.angular_velocity != kk.angular_velocity || kk.linear_acceleration != oo.get_linear_acceleration() || k2.linear_acceleration != kk.linear_acceleration)
        vh::fail("read", "the simulator reports another odometry than its estimator");
    }
    vh::nontrivial(vh::hashd(k, vh::D(w.p.x + w.q.w)));
  }
}
static void track(Rng &r) {
  gen::VehOpt vo;
  vo.noise = false;
  SimP p   = gen::simp(r, false, vo);
  p.imu_params = ImuP();
  auto &v  = p.dynamics_params.model_params;
  v.vehicle_inertia *= (TP)r.logu(5, 50);
  auto &st = p.dynamics_params.state;
  st       = St();
  st.kinematics.position         = gen::v3(r, 10);
  st.kinematics.orientation      = eq<TP>(gen::quat(r));
  st.kinematics.angular_velocity = gen::v3(r, 3);
  p.inertial_odometry_params.alpha = 1;
  p.inertial_odometry_params.initial_world_orientation = st.kinematics.orientation;
  Sim s(p);
  s.arm();
  s.set_control_mode(mr::ControlMode::MOTOR_W);
  VN c = gen::command<TP, NR>(r, v, false);
  s.set_refence_motors_angular_velocity(c);
  TP dt = (TP)(sizeof(TP) == 4 ? 2e-3 : 5e-4);
  int n = r.range(100, 400);
  LD eq_ = 0, ev = 0, ep = 0, V = 0;
  V3 wl = st.kinematics.angular_velocity;
  ref::V3 p0 = rv(st.kinematics.position);
  for (int k = 0; k < n; k++) {
    if (r.chance(0.01)) s.set_refence_motors_angular_velocity(gen::command<TP, NR>(r, v, false));
    s.update_controller(dt), s.update_dynamics(dt), s.update_imu(dt), s.update_inertial_odometry(dt);
    auto &kin = s.get_state().kinematics;
    if (!(kin.angular_velocity.norm() < 40) || !(kin.linear_velocity.norm() < 300)) {
      vh::bin("tracking run cut short");
      return;
    }
    LD W = kin.angular_velocity.norm(), A = kin.linear_acceleration.norm(), h = dt;
    LD ep0 = (LD)std::numeric_limits<TP>::epsilon();
    eq_ += h * (LD)(kin.angular_velocity - wl).norm() + W * W * W * h * h * h + ep0 * 16;
    ev += h * (A * (eq_ + 2 * W * h)) + ep0 * 16 * ((LD)kin.linear_velocity.norm() + A * h);
    V = std::max(V, (LD)kin.linear_velocity.norm());
    ep += h * ev + h * h * A + ep0 * 16 * (ref::norm(rv(kin.position)) + 1);
    wl = kin.angular_velocity;
    if (k % 20 && k != n - 1) continue;
    auto o = s.get_odometry();
    std::string ctx = vh::fmt("after %.4g s, mass %.4g, rate %.4g", (k + 1) * (double)dt, (double)v.vehicle_mass, vh::D(W));
    vh::ev(3);
    LD aq = ref::qangle(ref::qunit(rq(o.orientation)), ref::qunit(rq(kin.orientation)));
    LD av = ref::dist(rv(o.linear_velocity), rv(kin.linear_velocity)), apos = ref::dist(rv(o.position), rv(kin.position) - p0);
    if (!(aq <= 2 * eq_ + 1e-9L)) vh::fail("track/orientation", "%s: %.6g rad off, integration error allows %.6g", ctx.c_str(), vh::D(aq), vh::D(2 * eq_));
    if (!(av <= 2 * ev + 1e-9L)) vh::fail("track/velocity", "%s: %.6g m/s off, integration error allows %.6g", ctx.c_str(), vh::D(av), vh::D(2 * ev));
    if (!(apos <= 2 * ep + 2 * V * dt * 0 + 1e-9L)) vh::fail("track/position", "%s: %.6g m off, integration error allows %.6g", ctx.c_str(), vh::D(apos), vh::D(2 * ep));
    if (av > 0 && ref::norm(rv(kin.linear_velocity)) > 20 * ev) vh::bin("tracking tight");
    vh::bin("tracked");
    vh::nontrivial(vh::hashd(k, (double)o.position(0)));
    if (k == n - 1) vh::sample("%s: odometry %.3g m, %.3g m/s, %.3g rad off after moving %.4g m", ctx.c_str(), vh::D(apos), vh::D(av), vh::D(aq), vh::D(ref::dist(rv(kin.position), p0)));
  }
}
void run_case(long idx, Rng &r) {
  if (idx % 4 == 3) track(r);
  else direct(r);
}
