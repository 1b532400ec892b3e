// C06: reproducibility, copies, isolation of independent simulators (interleaved and concurrent).
#include <atomic>
#include <memory>
#include <thread>

#include "sim.hpp"

// one scripted action; all randomness comes from r, so equal generators give equal scripts
static void act(Rng &r, Sim &s) {
  switch (r.below(12)) {
    case 0:
    case 1:
    case 2: gen::call(r, s); break;
    case 3:
      if (r.chance(0.1)) s.get_controller().reset_controller();
      else if (r.chance(0.1)) s.get_imu().set_random_seed(gen::seed(r));
      else if (r.chance(0.1)) s.set_controller_params(gen::controller(r, s.get_dynamics_const().get_model_const().get_params()));
      else if (r.chance(0.1)) s.set_imu_params(gen::imu(r, true));
      else if (r.chance(0.1)) s.set_inertial_odometry_params(gen::odo(r));
      break;
    default: gen::tick(r, s, (TP)(r.chance(0.85) ? r.logu(5e-4, 0.01) : r.uni(0.01, 0.05)));
  }
}
static bool compare(const char *key, const Sim &a, const Sim &b, const char *ctx, int k) {
  vh::ev();
  auto x = flat<TP, NR>(a), y = flat<TP, NR>(b);
  if (same(x, y)) return true;
  int i = first_diff(x, y);
  vh::fail(key, "%s, action %d: observable %d differs: %.17g and %.17g", ctx, k, i, i >= 0 ? x[i] : 0.0, i >= 0 ? y[i] : 0.0);
  return false;
}
static uint64_t digest(const Sim &s, uint64_t h) {
  for (double d : flat<TP, NR>(s)) h = vh::hashd(h, std::isnan(d) ? 0.5 : d);
  return h;
}
static uint64_t run(const SimP &p, Rng r, int n) {
  Sim s(p);
  uint64_t h = 1;
  for (int k = 0; k < n; k++) act(r, s), h = digest(s, h);
  return h;
}

static void twins(Rng &r) {
  SimP p  = gen::simp(r, r.chance(0.8));
  SimP p2 = gen::simp(r, true);
  Sim a(p), b(p), other(p2);
  Rng ra(r.u64()), rb = ra, ro(r.u64());
  int n = r.history(5, 60);
  compare("twin/construction", a, b, "at construction", -1);
  for (int k = 0; k < n; k++) {
    act(ra, a);
    for (int j = r.below(4); j-- > 0;) act(ro, other);
    if (r.chance(0.05)) {  // objects that come and go in between
      std::unique_ptr<Sim> t(new Sim(p2));
      t->arm();
      for (int j = 0; j < 3; j++) gen::tick(ro, *t, (TP)0.005);
    }
    act(rb, b);
    if (!compare("twin", a, b, "same parameters, same calls", k)) return;
    vh::nontrivial(digest(a, k));
  }
  vh::bin("twin run");
  vh::sample("twins agreed bit for bit through %d actions with %s in between", n, "a third simulator");
}
static void copies(Rng &r) {
  SimP p = gen::simp(r, r.chance(0.8));
  Sim a(p);
  Rng r0(r.u64());
  int pre = r.below(40), n = r.range(3, 40);
  for (int k = 0; k < pre; k++) act(r0, a);
  // copy construction, assignment over a used object, or by parts
  int how = r.below(4);
  Sim used(gen::simp(r, true));
  for (int k = r.below(6); k-- > 0;) act(r, used);
  std::unique_ptr<Sim> b;
  if (how == 0) b.reset(new Sim(a));
  else if (how == 1) b.reset(new Sim(used)), *b = a;
  else if (how == 2) {
    Sim t(a);
    b.reset(new Sim(std::move(t)));
  } else {
    std::vector<Sim> v(2, a);
    v.push_back(used);
    v.insert(v.begin(), used);
    b.reset(new Sim(v[2]));
  }
  static const char *hn[] = {"copied", "assigned", "moved", "stored in a container"};
  if (!compare("copy/start", a, *b, hn[how], -1)) return;
  auto before = flat<TP, NR>(*b);
  Rng ra(r.u64()), rb = ra;
  std::vector<std::vector<double>> tr;
  for (int k = 0; k < n; k++) act(ra, a), tr.push_back(flat<TP, NR>(a));
  vh::ev();
  if (!same(before, flat<TP, NR>(*b))) {
    vh::fail("copy/influence", "%s: running the original changed observable %d of the copy", hn[how], first_diff(before, flat<TP, NR>(*b)));
    return;
  }
  auto enda = flat<TP, NR>(a);
  for (int k = 0; k < n; k++) {
    act(rb, *b);
    vh::ev();
    auto y = flat<TP, NR>(*b);
    if (!same(tr[k], y)) {
      int i = first_diff(tr[k], y);
      vh::fail("copy/continues", "%s after %d actions, action %d: observable %d is %.17g, the original had %.17g", hn[how], pre, k, i, y[i], tr[k][i]);
      return;
    }
  }
  vh::ev();
  if (!same(enda, flat<TP, NR>(a))) vh::fail("copy/influence", "%s: running the copy changed the original", hn[how]);
  vh::bin(std::string("copy ") + hn[how]);
  vh::nontrivial(digest(a, n));
  // parts
  {
    Dyn d;
    Ctl c;
    imu::IMU<TP> im;
    imu::InertialOdometry<TP> io;
    a.get_dynamics(d), a.get_controller(c), a.get_imu(im), a.get_inertial_odometry(io);
    Sim x(a);
    for (int k = 0; k < 4; k++) {
      VN cm = gen::command<TP, NR>(r, p.dynamics_params.model_params, false);
      TP dt = (TP)r.logu(1e-3, 0.02);
      d.process_euler_explicit(cm, dt), x.get_dynamics().process_euler_explicit(cm, dt);
      V3 f = gen::v3(r, 3), w = gen::v3(r, 3);
      im.update(dt, f, w), x.get_imu().update(dt, f, w);
      io.update(w, f, dt), x.get_inertial_odometry().update(w, f, dt);
      VN ca = c.compute_acro_control(w, (TP)5, f, dt), cb = x.get_controller().compute_acro_control(w, (TP)5, f, dt);
      vh::ev(4);
      V3 g1 = im.get_measurement_gyro(), g2 = x.get_imu().get_measurement_gyro(), a1 = im.get_measurement_accel(), a2 = x.get_imu().get_measurement_accel();
      auto eqv = [](const auto &u, const auto &v) {
        for (int i = 0; i < u.size(); i++)
          if (!(u(i) == v(i)) && !(std::isnan(u(i)) && std::isnan(v(i)))) return false;
        return true;
      };
      if (!same(flat<TP, NR>(d.get_state()), flat<TP, NR>(x.get_state()))) vh::fail("copy/part", "copied dynamics goes another way at step %d", k);
      if (!eqv(g1, g2) || !eqv(a1, a2)) vh::fail("copy/part", "copied IMU reads something else at step %d", k);
      if (!eqv(io.get_position(), x.get_inertial_odometry().get_position())) vh::fail("copy/part", "copied odometry goes another way at step %d", k);
      if (!eqv(ca, cb)) vh::fail("copy/part", "copied controller commands something else at step %d", k);
    }
    vh::bin("copied parts");
  }
}
static void seeds(Rng &r) {
  SimP p = gen::simp(r, true);
  p.dynamics_params.model_params.force_process_noise_auto_correlation = (TP)r.logu(1e-2, 1);
  p.imu_params.gyro_noise_var = p.imu_params.accel_noise_var = (TP)r.logu(1e-3, 1);
  int s1 = r.chance(0.3) ? 2 + std::abs(gen::seed(r) / 2) : 2 + r.below(1000000), s2 = s1 + 1 + r.below(r.chance(0.5) ? 3 : 100000);
  if (s1 < 1000000 && r.chance(0.1)) s1 = -s1;
  for (int which = 0; which < 2; which++) {
    SimP q = p;
    if (which == 0) p.dynamics_params.model_seed = s1, q.dynamics_params.model_seed = s2;
    else p.imu_params.seed = s1, q.imu_params.seed = s2, q.dynamics_params.model_seed = p.dynamics_params.model_seed;
    Sim a(p), b(q);
    V3 g1, a1, g2, a2;
    bool diff = false;
    for (int k = 0; k < 4 && !diff; k++) {
      a.update_dynamics((TP)0.005), b.update_dynamics((TP)0.005);
      a.update_imu((TP)0.005), b.update_imu((TP)0.005);
      a.get_imu_measurement(g1, a1), b.get_imu_measurement(g2, a2);
      V3 f1 = a.get_state().dynamics.force, f2 = b.get_state().dynamics.force;
      if (!f1.allFinite()) return;
      vh::ev();
      if (which == 0) diff = f1 != f2;
      else {
        diff = g1 != g2 && a1 != a2;
        if (f1 != f2) vh::fail("seed/leak", "the IMU seed changes the process noise");
      }
    }
    if (!diff) vh::fail("seed", "seeds %d and %d give the same %s noise", s1, s2, which ? "IMU" : "process");
  }
  vh::bin("different seeds");
  vh::nontrivial(vh::hashd(s1, s2));
}
static void threads(Rng &r) {
  int T = r.range(2, 6), n = r.range(5, 25);
  std::vector<SimP> ps;
  std::vector<Rng> rs;
  for (int i = 0; i < T; i++) {
    if (i && r.chance(0.3)) ps.push_back(ps[0]);
    else ps.push_back(gen::simp(r, true));
    rs.push_back(Rng(r.u64()));
  }
  const std::vector<SimP> &cps = ps;
  std::vector<uint64_t> want(T), got(T);
  for (int i = 0; i < T; i++) want[i] = run(cps[i], rs[i], n);
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (int i = 0; i < T; i++)
    th.emplace_back([&, i] {
      ready++;
      while (ready.load() < T) std::this_thread::yield();
      got[i] = run(cps[i], rs[i], n);
    });
  for (auto &t : th) t.join();
  for (int i = 0; i < T; i++) {
    vh::ev();
    if (want[i] != got[i]) vh::fail("threads", "simulator %d of %d behaves differently when the others run at the same time", i, T);
    vh::nontrivial(got[i]);
  }
  vh::bin("concurrent run");
  vh::bin(vh::fmt("%d threads", T));
}
static void pids(Rng &r) {
  auto p = pidh::params<TP, 3>(r, true);
  pid_controller::PID<TP, 3> a(p), c(pidh::params<TP, 3>(r, true));
  for (int k = r.below(10); k-- > 0;) a.compute_control((TP)0.01, gen::v3(r, 3));
  pid_controller::PID<TP, 3> b(a);
  std::vector<V3> o, e;
  for (int k = 0; k < 15; k++) e.push_back(gen::v3(r, 3)), o.push_back(a.compute_control((TP)0.01, e[k])), c.compute_control((TP)0.01, gen::v3(r, 9));
  for (int k = 0; k < 15; k++) {
    vh::ev();
    V3 y = b.compute_control((TP)0.01, e[k]);
    c.compute_control((TP)0.02, gen::v3(r, 9));
    if (y != o[k]) {
      vh::fail("copy/pid", "a copied PID gives another output at call %d", k);
      return;
    }
  }
  vh::bin("copied PID");
  vh::nontrivial(vh::hashd(3, (double)o[14](0)));
}
void run_case(long idx, Rng &r) {
#ifdef V_TSAN
  threads(r);
  return;
#endif
  switch (idx % 8) {
    case 0:
    case 1:
    case 2: twins(r); break;
    case 3:
    case 4: copies(r); break;
    case 5: seeds(r); break;
    case 6: pids(r); break;
    default:
      if (idx % 5 == 0) threads(r);
      else twins(r);
  }
}
