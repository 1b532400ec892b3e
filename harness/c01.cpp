// C01: lockstep of the real dynamics against the Newton-Euler reference, resynchronised at every step.
#include "gen.hpp"
using Veh = mr::model::ModelParams<TP, NR>;
using St  = mr::state::State<TP, NR>;
using Dyn = mr::dynamics::Dynamics<TP, NR>;
using Mod = mr::model::Model<TP, NR>;

void run_case(long idx, Rng &r) {
  gen::VehOpt vo;
  vo.far = true;
  Veh p  = gen::vehicle<TP, NR>(r, vo);
  St s   = gen::state<TP, NR>(r, p);
  int how = r.below(6);
  mr::dynamics::DynamicsParams<TP, NR> dp;
  dp.model_params = p;
  dp.model_seed   = (int)r.below(1000);
  dp.state        = s;
  Dyn d1(p, s), d2(Mod(p), s), d3(p, 5, s), d4(dp), d5;
  Dyn *d;
  mr::SimulatorParams<TP, NR> sp;
  sp.dynamics_params                   = dp;
  sp.controller_params.indi_controller_params.inertia = p.vehicle_inertia;
  mr::Simulator<TP, NR> sim(sp);
  bool via_sim = false;
  switch (how) {
    case 0: d = &d1; break;
    case 1: d = &d2; break;
    case 2: d = &d3; break;
    case 3: d = &d4; break;
    case 4: {
      d5.set_model(Mod(p));
      d5.set_state(s);
      d = &d5;
      break;
    }
    default: {
      // noise cannot be switched off in the simulator, so use a vehicle without noise
      p.force_process_noise_auto_correlation = p.moment_process_noise_auto_correlation = 0;
      sim.get_dynamics().get_model().update_params(p);
      sim.arm();
      via_sim = true;
      d       = &sim.get_dynamics();
    }
  }
  int steps  = r.history(1, 12);
  uint64_t h = vh::hashd(0, (double)p.vehicle_mass);
  for (int k = 0; k < steps; k++) {
    double dtd = r.chance(0.1) ? 0.01 : r.chance(0.5) ? r.logu(1e-8, 0.01) : r.logu(1e-4, 0.01);
    TP dt      = (TP)dtd;
    if (dt > (TP)0.01) dt = (TP)0.01;
    if (dtd == 0.01) vh::bin("dt=10ms");
    auto cmd    = gen::command<TP, NR>(r, p, r.chance(0.5));
    ref::V3 ext = (r.chance(0.5) && !via_sim) ? gen::vec(r, 100) : ref::V3();
    auto extE   = ev3<TP>(ext);
    ext         = rv(extE);
    if (r.chance(0.2)) {  // a different vehicle in mid-flight, or one with a single difference
      auto n = p;
      if (r.chance(0.3)) n = gen::vehicle<TP, NR>(r);
      else vh::bin(vh::fmt("in flight: %s", gen::retune<TP, NR>(r, n)));
      for (int i = 0; i < NR; i++) {
        n.motors_params[i].min_speed = p.motors_params[i].min_speed;
        n.motors_params[i].max_speed = p.motors_params[i].max_speed;
      }
      if (via_sim) n.force_process_noise_auto_correlation = n.moment_process_noise_auto_correlation = 0;
      p = n;
      if (r.chance(0.5)) d->get_model().update_params(p);
      else d->set_model(Mod(p));
      vh::bin("vehicle changed in flight");
    }
    ref::Model rmod = rmodel<TP, NR>(p);
    ref::State before = rstate<TP, NR>(d->get_state());
    ref::Scale sc;
    ref::State want = ref::step(rmod, before, rvec(cmd), dt, ext, ref::V3(), ref::V3(), &sc);
    if (via_sim) {
      sim.set_refence_motors_angular_velocity(cmd);
      sim.update_controller(dt);
      sim.update_dynamics(dt);
    } else if (ext.x == 0 && ext.y == 0 && ext.z == 0 && p.force_process_noise_auto_correlation == 0 && p.moment_process_noise_auto_correlation == 0)
      d->process_euler_explicit(cmd, dt);
    else
      d->process_euler_explicit(cmd, dt, extE, false);
    std::string ctx = vh::fmt("step %d of %d (how %d) dt %.9g", k, steps, how, (double)dt);
    if (!check_state<TP, NR>("step", d->get_state(), want, sc, ctx.c_str())) return;
    h = vh::hashd(h, vh::D(want.p.x + want.w.x));
    vh::nontrivial(h);
    LD tilt = ref::norm(ref::V3{rmod.m[0].R.a[0][2], rmod.m[0].R.a[1][2], 0});
    vh::bin(tilt > 1e-6 ? "tilted rotors" : "upright rotors");
    vh::bin(vh::fmt("speed 1e%d", (int)floorl(log10l(ref::norm(before.v) + 1e-9L))));
    vh::bin(vh::fmt("rate 1e%d", (int)floorl(log10l(ref::norm(before.w) + 1e-9L))));
    bool satur = false;
    for (int i = 0; i < NR; i++) satur |= (LD)cmd(i) > rmod.m[i].mx || (LD)cmd(i) < rmod.m[i].mn;
    vh::bin(satur ? "command outside limits" : "command inside limits");
    if (ref::norm(ext) > 0) vh::bin("external force");
    if (k == 0)
      vh::sample("mass %.4g, %d rotors, dt %.4g, |v| %.4g, |w| %.4g, step agreed: a=(%.6g %.6g %.6g) dw=(%.6g %.6g %.6g)", vh::D(rmod.mass), NR, (double)dt,
                 vh::D(ref::norm(before.v)), vh::D(ref::norm(before.w)), vh::D(want.a.x), vh::D(want.a.y), vh::D(want.a.z), vh::D(want.dw.x), vh::D(want.dw.y), vh::D(want.dw.z));
    // keep the run inside physical ranges
    ref::State g = rstate<TP, NR>(d->get_state());
    if (ref::norm(g.w) > 300 || ref::norm(g.v) > 1e4) {
      d->set_state(gen::state<TP, NR>(r, p));
      vh::bin("restart");
    }
  }
}
