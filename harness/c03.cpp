// C03: rotor speeds stay inside their own limits and follow their own command with a first-order response.
#include "sim.hpp"

static bool inside(const char *ctx, const St &s, const Veh &p) {
  bool ok = true;
  for (int i = 0; i < NR; i++) {
    TP w = s.actuators.motor_angular_velocity(i);
    vh::ev();
    if (!(w >= p.motors_params[i].min_speed && w <= p.motors_params[i].max_speed)) {
      ok = false;
      vh::fail("rotor/limit", "%s: rotor %d at %.12g outside [%.12g, %.12g]", ctx, i, (double)w, (double)p.motors_params[i].min_speed, (double)p.motors_params[i].max_speed);
    }
  }
  return ok;
}
static VN wild(Rng &r, const Veh &p) {
  VN c = gen::command<TP, NR>(r, p, r.chance(0.7));
  for (int i = 0; i < NR; i++)
    if (r.chance(0.08)) c(i) = (TP)r.sgn() * std::numeric_limits<TP>::infinity();
    else if (r.chance(0.03)) c(i) = (TP)r.sgn() * std::numeric_limits<TP>::max();
    else if (r.chance(0.03)) c(i) = std::numeric_limits<TP>::min();
  return c;
}

void run_case(long idx, Rng &r) {
  gen::VehOpt vo;
  vo.far    = idx % 3 != 0;
  vo.taumin = r.chance(0.3) ? 1e-4 : 0.01;
  Veh p     = gen::vehicle<TP, NR>(r, vo);
  St s      = gen::state<TP, NR>(r, p, 5, 5, 10);
  if (r.chance(0.1)) {  // a start outside the limits
    for (int i = 0; i < NR; i++) s.actuators.motor_angular_velocity(i) = (TP)(r.chance(0.5) ? r.wide(5000) : p.motors_params[i].max_speed * r.uni(-1, 2));
    vh::bin("start outside the limits");
  }
  if (idx % 3 == 0) {
    // through the simulator, all modes, random tuning
    SimP sp                        = gen::simp(r, r.chance(0.5), vo);
    Sim sim(sp);
    Veh v = sp.dynamics_params.model_params;
    sim.arm();
    sim.set_control_mode(gen::mode(r));
    int len = r.history(3, 40);
    for (int k = 0; k < len; k++) {
      const char *what = r.chance(0.4) ? gen::call(r, sim) : "";
      if (r.chance(0.05)) sim.set_refence_motors_angular_velocity(wild(r, v));
      if (r.chance(0.03)) {
        Veh n = gen::vehicle<TP, NR>(r, vo);
        sim.get_dynamics().get_model().update_params(n);
        v = n;
        vh::bin("limits changed in flight");
      }
      TP dt = (TP)(r.chance(0.05) ? r.logu(1e-8, 1e-4) : r.chance(0.8) ? r.logu(1e-4, 0.01) : r.uni(0.01, 0.1));
      VN b  = sim.get_state().actuators.motor_angular_velocity;
      sim.update_controller(dt);
      VN act = sim.get_actuation_motors_angular_velocity();
      sim.update_dynamics(dt);
      bool nan = !(sim.get_state().kinematics.angular_velocity.norm() < 200) || !(sim.get_state().kinematics.linear_velocity.norm() < 500) || !(sim.get_state().kinematics.position.norm() < 1e4);
      bool actnan = false;
      for (int i = 0; i < NR; i++) actnan |= std::isnan((double)act(i));
      if (!actnan && !inside(vh::fmt("simulator step %d in %s after %s", k, gen::mode_name(sim.get_control_mode()), what).c_str(), sim.get_state(), v)) return;
      vh::bin(std::string("simulator ") + gen::mode_name(sim.get_control_mode()));
      if (!actnan && dt <= (TP)0.01)
        for (int i = 0; i < NR; i++) {
          const auto &mp = v.motors_params[i];
          LD des = ref::clampl(act(i), mp.min_speed, mp.max_speed), b0 = b(i), a0 = sim.get_state().actuators.motor_angular_velocity(i), tau = mp.time_constant, want = ref::clampl(b0 + (des - b0) * (LD)dt / tau, mp.min_speed, mp.max_speed);
          if (!(dt <= tau)) continue;
          vh::ev();
          if (!vh::near(a0, want, vh::rel<TP>() * (fabsl(des) + fabsl(b0)) + 1e-30L))
            return vh::fail("rotor/simulator response", "step %d dt %.6g in %s, rotor %d: from %.12g to %.12g, first order gives %.12g (command %.6g, time constant %.6g)", k, (double)dt, gen::mode_name(sim.get_control_mode()), i, vh::D(b0), vh::D(a0), vh::D(want), vh::D(des), vh::D(tau));
          vh::bin("first-order response in the simulator");
        }
      if (nan || actnan) sim.get_dynamics().set_state(gen::state<TP, NR>(r, v, 5, 5, 10)), sim.get_controller().reset_controller();
      uint64_t h = 0;
      for (int i = 0; i < NR; i++) h = vh::hashd(h, (double)sim.get_state().actuators.motor_angular_velocity(i));
      vh::nontrivial(h);
    }
    return;
  }
  Dyn d(p, s);
  // a twin whose other rotors differ in parameters, speed and command
  int keep = r.below(NR);
  Veh p2   = gen::vehicle<TP, NR>(r, vo);
  p2.motors_params[keep] = p.motors_params[keep];
  St s2                  = gen::state<TP, NR>(r, p2, 5, 5, 10);
  s2.actuators.motor_angular_velocity(keep) = s.actuators.motor_angular_velocity(keep);
  Dyn d2(p2, s2);
  int len = r.history(1, 30);
  for (int k = 0; k < len; k++) {
    VN c = wild(r, p), c2 = wild(r, p2);
    c2(keep)  = c(keep);
    bool big  = r.chance(0.2);
    TP dt     = (TP)(big ? r.uni(0.0101, 0.5) : r.chance(0.1) ? 0.01 : r.logu(1e-7, 0.01));
    VN before = d.get_state().actuators.motor_angular_velocity;
    d.process_euler_explicit(c, dt, V3::Zero(), r.chance(0.5));
    d2.process_euler_explicit(c2, dt, V3::Zero(), r.chance(0.5));
    VN after        = d.get_state().actuators.motor_angular_velocity;
    std::string ctx = vh::fmt("step %d of %d dt %.6g", k, len, (double)dt);
    if (!inside(ctx.c_str(), d.get_state(), p) || !inside(ctx.c_str(), d2.get_state(), p2)) return;
    vh::ev();
    TP other = d2.get_state().actuators.motor_angular_velocity(keep);
    LD m     = fabsl((LD)before(keep)) + fabsl((LD)p.motors_params[keep].max_speed);
    if (!vh::near(other, after(keep), vh::rel<TP>() * m))
      vh::fail("rotor/independence", "%s: rotor %d went to %.12g, but to %.12g when only other rotors differed", ctx.c_str(), keep, (double)after(keep), (double)other);
    vh::bin("independence twin");
    uint64_t h = 0;
    for (int i = 0; i < NR; i++) {
      const auto &mp = p.motors_params[i];
      LD des = ref::clampl(c(i), mp.min_speed, mp.max_speed), b = before(i), a = after(i), tau = mp.time_constant;
      LD sc = fabsl(des) + fabsl(b);
      if (!std::isfinite(c(i))) vh::bin("infinite command");
      if ((LD)c(i) > mp.max_speed || (LD)c(i) < mp.min_speed) vh::bin("command outside limits");
      else vh::bin("command inside limits");
      bool b_in = b >= mp.min_speed && b <= mp.max_speed;
      if (dt <= tau && !b_in && !big) {  // the same response, brought back inside the limits
        vh::ev();
        LD want = ref::clampl(b + (des - b) * (LD)dt / tau, mp.min_speed, mp.max_speed);
        if (!vh::near(a, want, vh::rel<TP>() * sc + 1e-30L))
          vh::fail("rotor/response from outside", "%s rotor %d: from %.12g outside the limits to %.12g, first order gives %.12g (command %.6g, time constant %.6g)", ctx.c_str(), i, vh::D(b), vh::D(a), vh::D(want), vh::D(des), vh::D(tau));
        vh::bin("response from outside the limits");
      }
      if (dt <= tau && b_in) {
        vh::ev(2);
        LD lo = std::min(b, des) - vh::rel<TP>() * sc - 1e-30L, hi = std::max(b, des) + vh::rel<TP>() * sc + 1e-30L;
        if (!(a >= lo && a <= hi)) vh::fail("rotor/overshoot", "%s rotor %d: from %.12g towards %.12g arrived at %.12g", ctx.c_str(), i, vh::D(b), vh::D(des), vh::D(a));
        if (!big) {
          LD want = b + (des - b) * (LD)dt / tau;
          if (!vh::near(a, want, vh::rel<TP>() * sc + 1e-30L))
            vh::fail("rotor/response", "%s rotor %d: from %.12g to %.12g, first order gives %.12g (command %.6g, time constant %.6g)", ctx.c_str(), i, vh::D(b), vh::D(a), vh::D(want), vh::D(des), vh::D(tau));
          vh::bin("first-order response");
        } else {
          // between the one-step response and the end value, and close to the exponential
          LD n = ceill((LD)dt / 0.01L - 1e-3L), f1 = 1 - powl(1 - (LD)dt / n / tau, n), want = b + (des - b) * f1, ex = b + (des - b) * (1 - expl(-(LD)dt / tau));
          if (dt / n <= tau && !(fabsl(a - want) <= fabsl(want - ex) + fabsl(des - b) * 2e-3L + vh::rel<TP>() * 100 * sc + 1e-30L))
            vh::fail("rotor/long response", "%s rotor %d: from %.12g to %.12g, first order gives %.12g", ctx.c_str(), i, vh::D(b), vh::D(a), vh::D(want));
          vh::bin("long response");
        }
      } else if (b_in) vh::bin("step longer than the time constant");
      // reported acceleration
      h = vh::hashd(h, vh::D(a));
    }
    vh::nontrivial(h);
    if (k == 0) vh::sample("dt %.4g rotor 0: %.6g -> %.6g, command %.6g, limits [%.4g, %.4g], tau %.4g", (double)dt, (double)before(0), (double)after(0), (double)c(0), (double)p.motors_params[0].min_speed, (double)p.motors_params[0].max_speed, (double)p.motors_params[0].time_constant);
    if (!(d.get_state().kinematics.angular_velocity.norm() < 200)) {
      St n = gen::state<TP, NR>(r, p, 5, 5, 10);
      n.actuators = d.get_state().actuators;
      d.set_state(n);
    }
    if (!(d2.get_state().kinematics.angular_velocity.norm() < 200)) {
      St n = gen::state<TP, NR>(r, p2, 5, 5, 10);
      n.actuators = d2.get_state().actuators;
      d2.set_state(n);
    }
    if (!vh::X().failures.empty() && vh::X().failures.back().c == idx) return;
  }
}
