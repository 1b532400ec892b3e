// C02: elapsed simulated time. Analytic motions (uniform motion, constant force, first-order rotors), comparison with
// short steps, rejection of non-positive steps.
#include <limits>
#include <stdexcept>
#include "gen.hpp"
using Veh = mr::model::ModelParams<TP, NR>;
using St  = mr::state::State<TP, NR>;
using Dyn = mr::dynamics::Dynamics<TP, NR>;
using Mod = mr::model::Model<TP, NR>;
using VN  = Eigen::Matrix<TP, NR, 1>;
using V3  = Eigen::Matrix<TP, 3, 1>;
static const LD EPS = std::numeric_limits<TP>::epsilon();

static TP pick_dt(Rng &r) {
  switch (r.below(9)) {
    case 0: return (TP)(0.01 * r.range(1, 40));
    case 1: return (TP)0.01 * (TP)r.range(1, 40);
    case 2: return std::nextafter((TP)0.01, (TP)1);
    case 3: return (TP)(0.01 + r.logu(1e-9, 1e-3));
    case 4: return (TP)(0.01 * r.range(1, 40) + r.sgn() * r.logu(1e-9, 4e-3));
    case 5: return (TP)r.logu(1e-5, 0.01);
    case 6: return (TP)r.uni(0.01, 0.1);
    case 7: return (TP)r.logu(0.01, 2);
    default: return r.chance(0.02) ? (TP)r.logu(60, 700) : r.chance(0.1) ? (TP)r.uni(2, 60) : (TP)r.uni(0.01, 1);
  }
}
static const char *dtclass(TP dt) {
  return dt <= (TP)0.01 ? "dt<=10ms" : dt < (TP)0.02 ? "dt 10-20ms" : dt < (TP)0.1 ? "dt 20-100ms" : dt < 1 ? "dt 0.1-1s" : "dt>1s";
}
// rotors that cannot turn, no aerodynamics
static Veh inert(Rng &r) {
  gen::VehOpt o;
  o.aero = false;
  Veh p  = gen::vehicle<TP, NR>(r, o);
  for (auto &m : p.motors_params) m.min_speed = 0, m.max_speed = (TP)r.uni(10, 1000);
  TP i             = (TP)r.logu(1e-4, 10);
  p.vehicle_inertia = Eigen::Matrix<TP, 3, 3>::Identity() * i;
  if (!r.chance(0.3)) p.force_process_noise_auto_correlation = p.moment_process_noise_auto_correlation = 0;
  return p;
}
static void quiet(Dyn &d, const VN &c, TP dt, const V3 &f) { d.process_euler_explicit(c, dt, f, false); }

static void analytic(Rng &r) {
  Veh p = inert(r);
  St s  = gen::state<TP, NR>(r, p, 20, 20, 20);
  s.actuators.motor_angular_velocity.setZero();
  Dyn d(p, s);
  ref::State a = rstate<TP, NR>(s);
  LD m         = p.vehicle_mass;
  ref::V3 acc;
  V3 ext;
  bool uniform = r.chance(0.4);
  if (uniform) ext = -(p.gravity * p.vehicle_mass);
  else ext = r.chance(0.2) ? V3(V3::Zero()) : V3(ev3<TP>(gen::vec(r, 20 * (double)m)));
  acc = rv(p.gravity) + rv(ext) * (1 / m);
  if (uniform) acc = ref::V3();
  bool sim_path = !uniform && ext.norm() == 0 && p.force_process_noise_auto_correlation == 0 && p.moment_process_noise_auto_correlation == 0 && r.chance(0.7);
  mr::SimulatorParams<TP, NR> sp;
  sp.dynamics_params.model_params = p;
  sp.dynamics_params.state        = s;
  mr::Simulator<TP, NR> sim(sp);
  // walk a span in a random number of steps of random length
  int steps = r.range(1, 4);
  LD T = 0, n = 0, tw = ref::norm(a.w);
  LD hmax = 0;
  for (int k = 0; k < steps; k++) {
    TP dt = pick_dt(r);
    if (sim_path) sim.update_controller(dt), sim.update_dynamics(dt);
    else quiet(d, VN::Zero(), dt, ext);
    T += dt;
    n += ceill((LD)dt / 0.01L) + 1;
    hmax = std::max(hmax, std::min((LD)dt, (LD)0.0100001));
    vh::bin(dtclass(dt));
  }
  ref::State g = rstate<TP, NR>(sim_path ? sim.get_state() : d.get_state());
  vh::bin(uniform ? "uniform motion" : sim_path ? "free fall (simulator)" : "constant force");
  LD ascale = ref::norm(acc) + ref::norm(rv(p.gravity)) + ref::norm(rv(ext)) / m;
  LD tolv   = EPS * (n + 20) * 4 * (ref::norm(a.v) + ascale * T);
  ref::V3 dv = g.v - a.v - acc * T;
  vh::ev();
  if (!(ref::norm(dv) <= tolv))
    vh::fail("time/velocity", "after %.9g s in %d steps velocity changed by (%.9g %.9g %.9g), constant acceleration gives (%.9g %.9g %.9g)", vh::D(T), steps, vh::D(g.v.x - a.v.x),
             vh::D(g.v.y - a.v.y), vh::D(g.v.z - a.v.z), vh::D(acc.x * T), vh::D(acc.y * T), vh::D(acc.z * T));
  // explicit Euler lags by at most half a sub-step of acceleration
  LD tolp   = EPS * (n + 20) * 4 * (ref::norm(a.p) + ref::norm(a.v) * T + ascale * T * T);
  ref::V3 dp = g.p - a.p - a.v * T - acc * (T * T / 2);
  LD along  = ref::norm(acc) > 0 ? ref::dot(dp, ref::unit(acc)) : 0;
  ref::V3 cr = ref::norm(acc) > 0 ? dp - ref::unit(acc) * along : dp;
  vh::ev();
  if (!(ref::norm(cr) <= tolp && along <= tolp && along >= -tolp - ref::norm(acc) * T * hmax / 2 * 1.001L))
    vh::fail("time/position", "after %.9g s in %d steps position is off by (%.9g %.9g %.9g) from v*t+a*t^2/2, a=(%.9g %.9g %.9g)", vh::D(T), steps, vh::D(dp.x), vh::D(dp.y), vh::D(dp.z),
             vh::D(acc.x), vh::D(acc.y), vh::D(acc.z));
  // constant body rate (spherical inertia, no torque)
  ref::Q q = ref::mul(a.q, tw > 0 ? ref::axis_angle(a.w, tw * T) : ref::Q{1, 0, 0, 0});
  LD ang   = ref::qangle(ref::qunit(q), ref::qunit(g.q));
  vh::ev();
  LD tolq = tw * T * (tw * hmax) * (tw * hmax) / 12 * 1.05L + EPS * (n + 20) * 20 * (1 + tw * T);
  if (!(ang <= tolq)) vh::fail("time/rotation", "after %.9g s at body rate %.9g the orientation is off by %.9g rad (bound %.3g)", vh::D(T), vh::D(tw), vh::D(ang), vh::D(tolq));
  vh::nontrivial(vh::hashd(vh::hashd(0, vh::D(T)), vh::D(g.p.x)));
  vh::sample("T=%.9g s in %d steps: dv=(%.6g %.6g %.6g) agrees with a*T", vh::D(T), steps, vh::D(g.v.x - a.v.x), vh::D(g.v.y - a.v.y), vh::D(g.v.z - a.v.z));
}

static void rotors(Rng &r) {
  gen::VehOpt o;
  o.taumin = 0.03;
  Veh p    = gen::vehicle<TP, NR>(r, o);
  St s     = gen::state<TP, NR>(r, p, 5, 0, 5);
  Dyn d(p, s);
  auto c = gen::command<TP, NR>(r, p, r.chance(0.3));
  TP dt  = pick_dt(r);
  if (dt > 1) dt = 1;
  quiet(d, c, dt, V3::Zero());
  for (int i = 0; i < NR; i++) {
    auto &m = p.motors_params[i];
    LD des = ref::clampl(c(i), m.min_speed, m.max_speed), w0 = s.actuators.motor_angular_velocity(i), w = d.get_state().actuators.motor_angular_velocity(i), tau = m.time_constant;
    LD hi = expl(-(LD)dt / tau), lo = powl(1 - std::min((LD)0.01L, (LD)dt) / tau, (LD)dt / std::min((LD)0.01L, (LD)dt));
    LD tol = (fabsl(w0) + fabsl(des)) * (EPS * 2000 + 1e-9L), x = (w - des), x0 = (w0 - des);
    LD b1 = x0 * lo, b2 = x0 * hi;
    vh::ev();
    if (!(x >= std::min(b1, b2) - tol && x <= std::max(b1, b2) + tol))
      vh::fail("time/rotor", "rotor %d after %.9g s (tau %.9g): distance to command %.9g, first-order response gives %.9g .. %.9g", i, (double)dt, vh::D(tau), vh::D(x), vh::D(b1), vh::D(b2));
  }
  vh::bin("rotor response");
  vh::nontrivial(vh::hashd(vh::hashd(1, (double)dt), (double)c(0)));
}

static Veh mild(Rng &r) {
  gen::VehOpt o;
  o.taumin = 0.08;
  o.noise  = false;
  Veh p    = gen::vehicle<TP, NR>(r, o);
  LD I     = (LD)p.vehicle_mass * 0.05L;
  p.vehicle_inertia = em3<TP>(gen::spd(r, (double)I, (double)I * 2, true));
  for (auto &m : p.motors_params) m.rotational_inertia = 0, m.pose.translation() *= (TP)0.02, m.torque_coefficient *= (TP)0.02;
  p.vehicle_drag_coefficient *= (TP)0.1;
  p.vehicle_aero_moment_coefficient *= (TP)0.01;
  return p;
}
static void compare(Rng &r) {
  Veh p = mild(r);
  St s  = gen::state<TP, NR>(r, p, 5, 1.0, 5);
  TP dt = pick_dt(r);
  if (dt > (TP)0.4) dt = (TP)r.uni(0.02, 0.4);
  auto c   = gen::command<TP, NR>(r, p, false);
  V3 ext   = r.chance(0.5) ? V3(ev3<TP>(gen::vec(r, 5 * (double)p.vehicle_mass))) : V3(V3::Zero());
  Dyn a(p, s), b(p, s), f(p, s);
  quiet(a, c, dt, ext);
  int n = (int)ceill((LD)dt / 0.01L - 1e-6L);
  if (n < 1) n = 1;
  for (int i = 0; i < n; i++) quiet(b, c, dt / n, ext);
  for (int i = 0; i < n * 16; i++) quiet(f, c, dt / (n * 16), ext);
  ref::State A = rstate<TP, NR>(a.get_state()), B = rstate<TP, NR>(b.get_state()), F = rstate<TP, NR>(f.get_state()), S0 = rstate<TP, NR>(s);
  auto cmp = [&](const char *nm, LD ea, LD eb, LD change, LD scale) {
    vh::ev();
    if (!(ea <= 3 * eb + 0.02L * change + EPS * 3000 * scale))
      vh::fail(std::string("time/long-vs-short-") + nm, "one step of %.9g s differs from many short ones by %.6g in %s; %d steps of at most 10 ms differ by %.6g; total change %.6g", (double)dt, vh::D(ea),
               nm, n, vh::D(eb), vh::D(change));
  };
  cmp("position", ref::dist(A.p, F.p), ref::dist(B.p, F.p), ref::dist(S0.p, F.p), ref::norm(F.p) + 1);
  cmp("velocity", ref::dist(A.v, F.v), ref::dist(B.v, F.v), ref::dist(S0.v, F.v), ref::norm(F.v) + 10);
  cmp("rate", ref::dist(A.w, F.w), ref::dist(B.w, F.w), ref::dist(S0.w, F.w), ref::norm(F.w) + 1);
  cmp("orientation", ref::qangle(A.q, F.q), ref::qangle(B.q, F.q), ref::qangle(S0.q, F.q), 1);
  vh::bin(std::string("long against short steps, ") + dtclass(dt));
  vh::nontrivial(vh::hashd(vh::hashd(2, (double)dt), vh::D(F.p.x)));
}

static void rejected(Rng &r) {
  Veh p = gen::vehicle<TP, NR>(r);
  St s  = gen::state<TP, NR>(r, p);
  Dyn d(p, s), twin(p, s);
  auto c = gen::command<TP, NR>(r, p, true);
  V3 ext = ev3<TP>(gen::vec(r, 10));
  for (int k = 0; k < 3; k++) {
    if (r.chance(0.5)) {
      TP dt = (TP)r.logu(1e-4, 0.03);
      d.process_euler_explicit(c, dt, ext, true);
      twin.process_euler_explicit(c, dt, ext, true);
    }
    static const double bad[] = {0.0, -0.0, -1e-300, -1e-40, -1e-9, -0.005, -0.01, -0.02, -1, -1e10, -HUGE_VAL};
    TP dt  = (TP)bad[r.below(11)];
    auto before = flat<TP, NR>(d.get_state());
    bool threw  = false;
    try {
      d.process_euler_explicit(c, dt, ext, r.chance(0.5));
    } catch (const std::exception &) {
      threw = true;
    }
    vh::ev(2);
    if (!threw) vh::fail("time/nonpositive-accepted", "a step of %g s was accepted", (double)dt);
    int fd = first_diff(before, flat<TP, NR>(d.get_state()));
    if (fd != -1) vh::fail("time/nonpositive-changed-state", "a rejected step of %g s changed state entry %d", (double)dt, fd);
  }
  TP dt = (TP)0.005;
  d.process_euler_explicit(c, dt, ext, true);
  twin.process_euler_explicit(c, dt, ext, true);
  vh::ev();
  if (!same(flat<TP, NR>(d.get_state()), flat<TP, NR>(twin.get_state()))) vh::fail("time/nonpositive-left-trace", "the step after a rejected step differs from the same step without it");
  // the simulator
  mr::SimulatorParams<TP, NR> sp;
  sp.dynamics_params.model_params = p;
  sp.dynamics_params.state        = s;
  mr::Simulator<TP, NR> sim(sp);
  sim.update_dynamics((TP)0.002);
  auto before = flat<TP, NR>(sim);
  bool threw  = false;
  try {
    sim.update_dynamics(r.chance(0.5) ? (TP)0 : (TP)-r.logu(1e-9, 1));
  } catch (const std::exception &) {
    threw = true;
  }
  vh::ev(2);
  if (!threw) vh::fail("time/nonpositive-accepted", "the simulator accepted a non-positive step");
  int fd = first_diff(before, flat<TP, NR>(sim));
  if (fd != -1) vh::fail("time/nonpositive-changed-state", "a rejected simulator step changed entry %d", fd);
  vh::bin("rejected step");
  vh::nontrivial(vh::hashd(3, (double)c(0)));
}

// very short steps count like any other
static void tiny(Rng &r) {
  Veh p = inert(r);
  p.force_process_noise_auto_correlation = p.moment_process_noise_auto_correlation = 0;
  St s;
  s.kinematics.linear_velocity = ev3<TP>(gen::vec(r, 20));
  Dyn d(p, s);
  mr::SimulatorParams<TP, NR> sp;
  sp.dynamics_params.model_params = p;
  sp.dynamics_params.state        = s;
  mr::Simulator<TP, NR> sim(sp);
  double lo = r.chance(0.5) ? 1e-12 : sizeof(TP) == 4 ? 1e-28 : 1e-150;
  LD T      = 0;
  ref::V3 v0 = rv(s.kinematics.linear_velocity), g = rv(p.gravity);
  int n = r.range(1, 4);
  for (int k = 0; k < n; k++) {
    TP dt = (TP)r.logu(lo, lo * 1e5);
    try {
      d.process_euler_explicit(VN::Zero(), dt, V3::Zero(), r.chance(0.5)), sim.update_dynamics(dt);
    } catch (const std::exception &) {
      return vh::fail("time/short rejected", "a step of %g s was rejected", (double)dt);
    }
    T += dt;
  }
  for (int w = 0; w < 2; w++) {
    ref::State a = rstate<TP, NR>(w ? sim.get_state() : d.get_state());
    vh::ev();
    if (!(ref::dist(a.p, v0 * T) <= EPS * 40 * ref::norm(v0) * T + ref::norm(g) * T * T + (LD)std::numeric_limits<TP>::min() * 100))
      return vh::fail("time/short", "%d steps of together %g s moved the vehicle by (%.9g %.9g %.9g), its velocity was (%.9g %.9g %.9g)", n, vh::D(T), vh::D(a.p.x), vh::D(a.p.y), vh::D(a.p.z), vh::D(v0.x), vh::D(v0.y), vh::D(v0.z));
  }
  vh::bin("very short steps");
  vh::nontrivial(vh::hashd(4, vh::D(T)));
}

void run_case(long idx, Rng &r) {
  switch (idx % 5) {
    case 0:
    case 1: return analytic(r);
    case 2: return rotors(r);
    case 3: return compare(r);
    default:
      tiny(r);
      return rejected(r);
  }
}
