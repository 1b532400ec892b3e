// C24: airframe builders: documented geometry, order, spin and balance.
#include "sim.hpp"
using Mot = mr::model::MotorParams<TP>;
static bool check(const char *name, const std::vector<Mot> &m, const std::vector<ref::V3> &pos, TP kf, TP kt, TP mn, TP mx, TP tau, TP J) {
  bool ok = true;
  auto bad = [&](const char *k, const std::string &w) {
    vh::fail(std::string(name) + "/" + k, "%s: %s", name, w.c_str());
    ok = false;
  };
  vh::ev(2);
  if (m.size() != pos.size()) {
    bad("count", vh::fmt("%zu rotors", m.size()));
    return false;
  }
  LD size = 0;
  for (auto &p : pos) size = std::max(size, ref::norm(p));
  for (size_t i = 0; i < m.size(); i++) {
    auto &k = m[i];
    vh::ev(9);
    if (!(ref::dist(rv(k.pose.translation()), pos[i]) <= vh::rel<TP>() * size)) bad("position", vh::fmt("rotor %zu at (%.9g %.9g %.9g), documented (%.9g %.9g %.9g)", i + 1, (double)k.pose.translation()(0), (double)k.pose.translation()(1), (double)k.pose.translation()(2), vh::D(pos[i].x), vh::D(pos[i].y), vh::D(pos[i].z)));
    Eigen::Matrix<TP, 3, 3> R = k.pose.linear();
    if (!(R - Eigen::Matrix<TP, 3, 3>::Identity()).isZero((TP)vh::rel<TP>())) bad("upright", vh::fmt("rotor %zu is not upright", i + 1));
    if (k.motor_rotation_direction != (i % 2 ? -1 : 1)) bad("spin", vh::fmt("rotor %zu turns %d", i + 1, k.motor_rotation_direction));
    if (k.thrust_coefficient != kf) bad("thrust coefficient", vh::fmt("rotor %zu has %.9g not %.9g", i + 1, (double)k.thrust_coefficient, (double)kf));
    if (k.torque_coefficient != kt) bad("torque coefficient", vh::fmt("rotor %zu has %.9g not %.9g", i + 1, (double)k.torque_coefficient, (double)kt));
    if (k.min_speed != mn) bad("minimum", vh::fmt("rotor %zu has %.9g not %.9g", i + 1, (double)k.min_speed, (double)mn));
    if (k.max_speed != mx) bad("maximum", vh::fmt("rotor %zu has %.9g not %.9g", i + 1, (double)k.max_speed, (double)mx));
    if (k.time_constant != tau) bad("time constant", vh::fmt("rotor %zu has %.9g not %.9g", i + 1, (double)k.time_constant, (double)tau));
    if (k.rotational_inertia != J) bad("rotor inertia", vh::fmt("rotor %zu has %.9g not %.9g", i + 1, (double)k.rotational_inertia, (double)J));
  }
  return ok;
}
// the wrench of the model built from the airframe: balance, and the sign of each differential pattern
template <int N>
static void wrench(Rng &r, const char *name, const std::vector<Mot> &m, double kf, double kt, double wmax, double size) {
  mr::model::ModelParams<TP, N> p;
  p.motors_params = m;
  p.vehicle_mass  = 1;
  p.vehicle_inertia.setIdentity();
  mr::model::Model<TP, N> md(p);
  using VNn = Eigen::Matrix<TP, N, 1>;
  TP w = (TP)(wmax * r.uni(0.2, 0.9));
  VNn eqs = VNn::Constant(w), acc = VNn::Constant((TP)r.uni(-100, 100));
  LD rel = vh::rel<TP>() * 4, T = N * (LD)kf * w * w, sT = T * size + N * (LD)kt * w * w + fabsl((LD)acc(0) * m[0].rotational_inertia) * N;
  V3 F = md.get_force_vector_thrust_by_motors(eqs), M = md.get_torque_by_motors(eqs, acc);
  vh::ev(7);
  if (!vh::near(F(0), 0, rel * T) || !vh::near(F(1), 0, rel * T) || !vh::near(F(2), T, rel * T) || !vh::near(md.get_force_thrust_by_motors(eqs), T, rel * T))
    vh::fail(std::string(name) + "/thrust", "%s: equal speeds give force (%.9g %.9g %.9g), expected thrust %.9g", name, (double)F(0), (double)F(1), (double)F(2), vh::D(T));
  if (!(ref::norm(rv(M)) <= rel * sT)) vh::fail(std::string(name) + "/balance", "%s: equal speeds give torque (%.9g %.9g %.9g)", name, (double)M(0), (double)M(1), (double)M(2));
  // roll: rotors at positive y faster; pitch: rotors at negative x faster; yaw: the +1 rotors faster.
  // the increments of w^2 are proportional to y, -x and spin, so that the other two torques cancel
  for (int ax = 0; ax < 3; ax++) {
    VNn s;
    LD want = 0, k = (LD)w * w * 0.3L;
    for (int i = 0; i < N; i++) {
      LD y = m[i].pose.translation()(1) / size, x = m[i].pose.translation()(0) / size;
      LD c = ax == 0 ? y : ax == 1 ? -x : (i % 2 ? -1 : 1);
      s(i) = (TP)sqrtl((LD)w * w + k * c);
      want += k * c * (ax == 2 ? kt * (i % 2 ? -1 : 1) : kf * size * c);
    }
    V3 f = md.get_force_vector_thrust_by_motors(s), t = md.get_torque_by_motors(s, VNn::Zero());
    vh::ev(3);
    if (!(t(ax) > 0) || !vh::near(t(ax), want, rel * sT)) vh::fail(std::string(name) + "/pattern", "%s: differential pattern %d gives torque %.9g, expected %.9g", name, ax, (double)t(ax), vh::D(want));
    for (int o = 0; o < 3; o++)
      if (o != ax && !(fabsl((LD)t(o)) <= rel * sT)) vh::fail(std::string(name) + "/coupling", "%s: differential pattern %d also gives torque %.9g about axis %d", name, ax, (double)t(o), o);
    if (!vh::near(f(2), T, rel * T)) vh::fail(std::string(name) + "/thrust", "%s: differential pattern %d changes the thrust", name, ax);
  }
  vh::bin(std::string(name) + " wrench");
}
void run_case(long, Rng &r) {
  for (int k = 0; k < 8; k++) {
    double wmax = r.logu(20, 5000), lx = r.logu(0.01, 5) * r.far(0.03), ly = r.chance(0.3) ? lx : r.logu(lx * 0.2, lx * 5);
    TP kf = (TP)r.logu(1e-9, 1e-2), kt = (TP)((double)kf * r.logu(0.01, 1)), mx = (TP)wmax, mn = (TP)(r.chance(0.4) ? 0 : r.chance(0.5) ? -wmax * r.unit() : wmax * r.uni(0, 0.9));
    TP tau = (TP)r.logu(1e-3, 2), J = (TP)(r.chance(0.2) ? 0.0 : r.logu(1e-9, 1e-2)), X = (TP)lx, Y = (TP)ly;
    if (r.chance(0.05)) kt = 0, kf = 0;
    bool w = kf > 0;
    int air = r.below(3);
    if (air == 0) {
      auto m = mr::model::Model<TP, 4>::create_quadrotor_x_config(kf, kt, X, Y, mn, mx, tau, J);
      LD x = X, y = Y;
      if (check("X", m, {{x, -y, 0}, {x, y, 0}, {-x, y, 0}, {-x, -y, 0}}, kf, kt, mn, mx, tau, J) && w) {
        // with unequal arms the pattern proportional to y still cancels about the other axes
        wrench<4>(r, "X", m, kf, kt, wmax, std::max(lx, ly));
      }
    } else if (air == 1) {
      auto m = mr::model::Model<TP, 4>::create_quadrotor_plus_config(kf, kt, X, Y, mn, mx, tau, J);
      LD x = X, y = Y;
      if (check("plus", m, {{x, 0, 0}, {0, y, 0}, {-x, 0, 0}, {0, -y, 0}}, kf, kt, mn, mx, tau, J) && w) wrench<4>(r, "plus", m, kf, kt, wmax, std::max(lx, ly));
    } else {
      auto m = mr::model::Model<TP, 6>::create_hexacopter_config(kf, kt, X, mn, mx, tau, J);
      LD x = X;
      std::vector<ref::V3> pos;
      for (int i = 0; i < 6; i++) pos.push_back({x * cosl(i * M_PIl / 3), x * sinl(i * M_PIl / 3), 0});
      if (check("hexacopter", m, pos, kf, kt, mn, mx, tau, J) && w) wrench<6>(r, "hexacopter", m, kf, kt, wmax, lx);
    }
    const char *nm[] = {"X", "plus", "hexacopter"};
    vh::bin(std::string(nm[air]) + (lx == ly ? " equal arms" : " unequal arms"));
    vh::nontrivial(vh::hashd(vh::hashd(air, lx), ly));
    if (k == 0) vh::sample("%s, arms %.4g %.4g, kf %.4g, kt %.4g", nm[air], lx, ly, (double)kf, (double)kt);
  }
}
