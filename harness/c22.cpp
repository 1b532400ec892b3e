// C22: text written for states and odometry, parsed back; Euler angles against the rotation they stand for.
#include <iomanip>
#include <sstream>
#include "sim.hpp"
using KinT = mr::state::internal::Kinematics<TP>;
static const LD EPS = std::numeric_limits<TP>::epsilon();
static std::vector<std::string> split(const std::string &s) {
  std::vector<std::string> o;
  std::string c;
  for (char ch : s) {
    if (ch == ',') o.push_back(c), c.clear();
    else c += ch;
  }
  o.push_back(c);
  for (auto &f : o) {
    size_t a = f.find_first_not_of(" \t\n"), b = f.find_last_not_of(" \t\n");
    f        = a == std::string::npos ? "" : f.substr(a, b - a + 1);
  }
  return o;
}
struct Prec {
  int p, mode;
  LD tol(LD v) const { return mode == 2 ? powl(10, -p) * 0.51L + fabsl(v) * 2 * EPS : powl(10, mode == 1 ? -p : 1 - p) * fabsl(v) * 0.51L + fabsl(v) * 2 * EPS + 1e-320L; }
  void set(std::ostream &os) const {
    os << std::setprecision(p);
    if (mode == 1) os << std::scientific;
    if (mode == 2) os << std::fixed;
  }
};
static Prec prec(Rng &r) {
  int k = r.below(6);
  if (k == 0) return {6, 0};
  if (k == 1) return {r.range(1, 5), 0};
  if (k == 2) return {r.range(3, 17), 1};
  if (k == 3) return {r.range(3, 12), 2};
  return {r.range(7, 17), 0};
}
static bool number(const std::string &s, LD &v) {
  if (s.empty()) return false;
  char *e;
  v = strtold(s.c_str(), &e);
  return *e == 0;
}
// the fields of one record, in order, against the values they stand for
static bool record(const char *what, const std::string &text, const std::vector<LD> &want, const std::vector<std::string> &names, const Prec &pr, bool labelled) {
  auto f = split(text);
  vh::ev(1 + want.size());
  if (f.size() != want.size()) {
    vh::fail(std::string(what) + "/count", "%s: %zu fields instead of %zu in '%.200s'", what, f.size(), want.size(), text.c_str());
    return false;
  }
  for (size_t i = 0; i < f.size(); i++) {
    std::string v = f[i];
    if (labelled) {
      size_t c = v.find(':');
      if (c == std::string::npos || v.substr(0, c) != names[i]) {
        vh::fail(std::string(what) + "/label", "%s: field %zu is '%s', expected label '%s'", what, i, f[i].c_str(), names[i].c_str());
        return false;
      }
      v = split(v.substr(c + 1))[0];
    }
    LD x;
    if (!number(v, x) || !(fabsl(x - want[i]) <= pr.tol(want[i]))) {
      vh::fail(std::string(what) + "/value", "%s: field %zu (%s) reads '%s', the value is %.17Lg", what, i, names[i].c_str(), v.c_str(), want[i]);
      return false;
    }
  }
  return true;
}
static ref::M3 rpy(LD r, LD p, LD y) { return ref::rotm(ref::mul(ref::mul(ref::axis_angle({0, 0, 1}, y), ref::axis_angle({0, 1, 0}, p)), ref::axis_angle({1, 0, 0}, r))); }
// roll, pitch and yaw as logged are those of the orientation. slack: error of the printed number
static bool euler(const char *what, const Eigen::Quaternion<TP> &q, LD ro, LD pi, LD ya, LD slack) {
  ref::Q u = ref::qunit(rq(q));
  ref::M3 R = ref::rotm(u);
  LD sp = -R.a[2][0], cp = hypotl(R.a[0][0], R.a[1][0]);
  vh::ev(3);
  const LD PI = M_PIl;
  if (!(std::isfinite(ro) && std::isfinite(pi) && std::isfinite(ya))) {
    vh::fail(std::string(what) + "/finite", "%s: angles (%.9Lg %.9Lg %.9Lg) for quaternion (%.17g %.17g %.17g %.17g)", what, ro, pi, ya, (double)q.w(), (double)q.x(), (double)q.y(), (double)q.z());
    return false;
  }
  if (fabsl(ro) > PI * (1 + 2 * EPS) + slack || fabsl(ya) > PI * (1 + 2 * EPS) + slack || fabsl(pi) > PI / 2 * (1 + 2 * EPS) + slack) {
    vh::fail(std::string(what) + "/range", "%s: angles (%.9Lg %.9Lg %.9Lg) out of range", what, ro, pi, ya);
    return false;
  }
  LD pe = fabsl(atan2l(sp, cp) - pi);
  if (!(pe <= 8 * sqrtl(EPS) + slack)) {
    vh::fail(std::string(what) + "/pitch", "%s: pitch %.12Lg, the orientation has %.12Lg", what, pi, atan2l(sp, cp));
    return false;
  }
  if (cp < 1e-2L) {
    vh::bin("vertical pitch");
    return true;
  }
  ref::M3 E = rpy(ro, pi, ya);
  LD d = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) d = std::max(d, fabsl(E.a[i][j] - R.a[i][j]));
  if (!(d <= 40 * EPS / cp + 3 * slack)) {
    vh::fail(std::string(what) + "/angles", "%s: roll, pitch, yaw (%.12Lg %.12Lg %.12Lg) do not give back the rotation of (%.17g %.17g %.17g %.17g): off by %.3Lg", what, ro, pi, ya, (double)q.w(), (double)q.x(), (double)q.y(), (double)q.z(), d);
    return false;
  }
  vh::bin("angles judged");
  if (fabsl(ro) > PI / 2) vh::bin("upside down");
  if (cp < 0.1L) vh::bin("nearly vertical pitch");
  return true;
}
static Eigen::Quaternion<TP> orient(Rng &r) {
  ref::Q q = gen::quat(r);
  LD h = sqrtl(0.5L);
  int k = r.below(10);
  if (k == 0) q = ref::mul(ref::axis_angle({0, 0, 1}, r.uni(-M_PI, M_PI)), ref::mul(ref::Q{h, 0, r.sgn() * h, 0}, ref::axis_angle({1, 0, 0}, r.uni(-M_PI, M_PI))));  // vertical
  if (k == 1) q = ref::mul(ref::axis_angle({0, 0, 1}, r.uni(-M_PI, M_PI)), ref::mul(ref::axis_angle({0, 1, 0}, r.sgn() * (M_PI / 2 - r.logu(1e-9, 0.2))), ref::axis_angle({1, 0, 0}, r.uni(-M_PI, M_PI))));
  if (k == 2) q = ref::mul(ref::axis_angle({0, 0, 1}, r.sgn() * (M_PI - r.logu(1e-12, 1e-2))), ref::axis_angle({1, 0, 0}, r.uni(-0.2, 0.2)));  // heading at the wrap
  LD s = r.chance(0.3) ? r.logu(1e-6, 1e6) : 1;  // unnormalised
  if (s != 1) vh::bin("unnormalised quaternion");
  Eigen::Quaternion<TP> e((TP)(q.w * s), (TP)(q.x * s), (TP)(q.y * s), (TP)(q.z * s));
  return e;
}
static TP val(Rng &r) {
  int k = r.below(8);
  if (k == 0) return 0;
  if (k == 1) return (TP)(r.sgn() * r.logu(1e-30, 1e30));
  if (k == 2) return (TP)r.range(-1000, 1000);
  return (TP)r.wide(r.logu(1e-3, 1e4));
}
static V3 vals(Rng &r) { return V3(val(r), val(r), val(r)); }
static const std::vector<std::string> KN = {"position_x", "position_y", "position_z", "orientation_roll", "orientation_pitch", "orientation_yaw", "linear_velocity_x", "linear_velocity_y", "linear_velocity_z", "angular_velocity_x", "angular_velocity_y", "angular_velocity_z", "linear_acceleration_x", "linear_acceleration_y", "linear_acceleration_z", "angular_acceleration_x", "angular_acceleration_y", "angular_acceleration_z"};
static const std::vector<std::string> DN = {"force_x", "force_y", "force_z", "torque_x", "torque_y", "torque_z"};
static void put(std::vector<LD> &o, const V3 &v) {
  for (int i = 0; i < 3; i++) o.push_back(v(i));
}
static std::vector<LD> operator+(std::vector<LD> a, const std::vector<LD> &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
static std::vector<std::string> operator+(std::vector<std::string> a, const std::vector<std::string> &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
// the angles in a record are judged against the orientation, then taken as they are for the comparison of the rest
static bool angles(const char *what, const std::string &text, const Eigen::Quaternion<TP> &q, std::vector<LD> &want, const Prec &pr, bool labelled) {
  auto f = split(text);
  if (f.size() < 6) return true;  // reported by record()
  LD a[3];
  for (int i = 0; i < 3; i++) {
    std::string v = f[3 + i];
    if (labelled && v.find(':') != std::string::npos) v = split(v.substr(v.find(':') + 1))[0];
    if (!number(v, a[i])) return true;
    want[3 + i] = a[i];
  }
  LD slack = 0;
  for (LD x : a) slack = std::max(slack, pr.tol(x));
  return euler(what, q, a[0], a[1], a[2], slack);
}
template <int N>
static void logs(Rng &r) {
  mr::state::State<TP, N> s;
  auto &k = s.kinematics;
  k.position = vals(r), k.orientation = orient(r), k.linear_velocity = vals(r), k.angular_velocity = vals(r), k.linear_acceleration = vals(r), k.angular_acceleration = vals(r);
  s.dynamics.force = vals(r), s.dynamics.torque = vals(r);
  for (int i = 0; i < N; i++) s.actuators.motor_angular_velocity(i) = val(r), s.actuators.motor_angular_acceleration(i) = val(r);
  std::vector<LD> wk, wd, wa;
  put(wk, k.position), put(wk, V3::Zero()), put(wk, k.linear_velocity), put(wk, k.angular_velocity), put(wk, k.linear_acceleration), put(wk, k.angular_acceleration);
  put(wd, s.dynamics.force), put(wd, s.dynamics.torque);
  for (int i = 0; i < N; i++) wa.push_back(s.actuators.motor_angular_velocity(i));
  for (int i = 0; i < N; i++) wa.push_back(s.actuators.motor_angular_acceleration(i));
  std::vector<std::string> an;
  for (int i = 0; i < N; i++) an.push_back(vh::fmt("motor_%d_angular_velocity", i));
  for (int i = 0; i < N; i++) an.push_back(vh::fmt("motor_%d_angular_acceleration", i));
  Prec pr = prec(r);
  std::ostringstream os;
  pr.set(os);
  auto take = [&](auto f) {
    os.str("");
    f();
    return os.str();
  };
  for (int rep = 0; rep < 2; rep++) {  // the second record of a stream is as good as the first
    std::string t = take([&] { os << k; });
    if (!angles("kinematics", t, k.orientation, wk, pr, false) || !record("kinematics", t, wk, KN, pr, false)) return;
    t = take([&] { os << s.dynamics; });
    if (!record("dynamics", t, wd, DN, pr, false)) return;
    t = take([&] { os << s.actuators; });
    if (!record("actuators", t, wa, an, pr, false)) return;
    t = take([&] { os << s; });
    auto all = wk + wd + wa;
    if (!angles("state", t, k.orientation, all, pr, false) || !record("state", t, all, KN + DN + an, pr, false)) return;
    t = take([&] { mr::state::internal::print_kinematics(os, k); });
    if (!angles("labelled kinematics", t, k.orientation, wk, pr, true) || !record("labelled kinematics", t, wk, KN, pr, true)) return;
    t = take([&] { mr::state::internal::print_dynamics(os, s.dynamics); });
    if (!record("labelled dynamics", t, wd, DN, pr, true)) return;
    t = take([&] { mr::state::internal::print_actuators(os, s.actuators); });
    if (!record("labelled actuators", t, wa, an, pr, true)) return;
    std::ostringstream co;
    auto *old = std::cout.rdbuf(co.rdbuf());
    auto fl = std::cout.flags();
    auto pc = std::cout.precision();
    pr.set(std::cout);
    mr::state::print_state(s);
    std::cout.rdbuf(old), std::cout.flags(fl), std::cout.precision(pc);
    t = co.str();
    if (!angles("labelled state", t, k.orientation, all, pr, true) || !record("labelled state", t, all, KN + DN + an, pr, true)) return;
  }
  if (pr.mode == 0 && pr.p >= 3 && wk[0] != 0) vh::sample("%d rotors, precision %d: record parsed back field by field, roll %.6Lg pitch %.6Lg yaw %.6Lg", N, pr.p, wk[3], wk[4], wk[5]);
  vh::bin(vh::fmt("%d rotors", N));
  vh::bin(pr.mode == 0 ? "default format" : pr.mode == 1 ? "scientific format" : "fixed format");
  vh::nontrivial(vh::hashd(vh::hashd(N, (double)k.position(0)), (double)k.orientation.x()));
}
static void odometry(Rng &r) {
  OdoP p = gen::odo(r);
  p.initial_world_orientation = orient(r);
  imu::InertialOdometry<TP> o(p);
  int n = r.below(4);
  for (int i = 0; i < n; i++) {
    V3 g = gen::v3(r, 5), a = gen::v3(r, 30);
    o.update(g, a, (TP)r.logu(1e-3, 0.3));
  }
  if (n && r.chance(0.5)) o.set_initial_orientation(orient(r));
  std::vector<LD> w;
  put(w, o.get_position()), put(w, V3::Zero()), put(w, o.get_linear_velocity()), put(w, o.get_angular_velocity()), put(w, o.get_linear_acceleration());
  std::vector<std::string> names(KN.begin(), KN.begin() + 15);
  Prec pr = prec(r);
  std::ostringstream os;
  pr.set(os);
  os << o;
  std::string t = os.str();
  if (!angles("odometry", t, o.get_orientation(), w, pr, false) || !record("odometry", t, w, names, pr, false)) return;
  os.str("");
  print_state(os, o);
  t = os.str();
  if (!angles("labelled odometry", t, o.get_orientation(), w, pr, true) || !record("labelled odometry", t, w, names, pr, true)) return;
  vh::bin("odometry record");
  vh::nontrivial(vh::hashd(99, (double)o.get_position()(0)));
}
static void convert(Rng &r) {
  for (int i = 0; i < 20; i++) {
    auto q = orient(r);
    TP a, b, c, a2, b2, c2;
    mr::state::internal::quaternion_to_Euler(q, a, b, c);
    if (!euler("conversion", q, a, b, c, 0)) return;
    Eigen::Quaternion<TP> m(-q.w(), -q.x(), -q.y(), -q.z());
    mr::state::internal::quaternion_to_Euler(m, a2, b2, c2);
    if (!euler("conversion of the opposite quaternion", m, a2, b2, c2, 0)) return;
    vh::nontrivial(vh::hashd(vh::hashd(7, (double)a), (double)c));
  }
}
void run_case(long, Rng &r) {
  switch (r.below(8)) {
    case 0:
    case 1: logs<NR>(r); break;
    case 2: r.chance(0.5) ? logs<1>(r) : logs<2>(r); break;
    case 3: r.chance(0.5) ? logs<3>(r) : logs<5>(r); break;
    case 4: r.chance(0.5) ? logs<7>(r) : logs<12>(r); break;
    case 5: odometry(r); break;
    default: convert(r);
  }
}
