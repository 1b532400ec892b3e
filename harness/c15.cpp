// C15: thrust vector, collective thrust and body rate commands.
#include "sim.hpp"
using M33 = Eigen::Matrix<TP, 3, 3>;
using Acro = acro_controller::AcroController<TP>;
static ref::M3 rot_to(ref::V3 thrust, LD yaw) {
  ref::V3 z = ref::unit(thrust), xc{cosl(yaw), sinl(yaw), 0}, y = ref::unit(ref::cross(z, xc)), x = ref::cross(y, z);
  ref::M3 R;
  for (int i = 0; i < 3; i++) R.a[i][0] = x[i], R.a[i][1] = y[i], R.a[i][2] = z[i];
  return R;
}
void run_case(long idx, Rng &r) {
  Veh veh;
  acro_controller::AcroControllerParams<TP> ap;
  ap.vehicle_mass = (TP)(r.logu(0.02, 60) * r.far());
  ap.gravity      = r.chance(0.5) ? V3(0, 0, (TP)-9.81) : r.chance(0.7) ? V3(0, 0, (TP)-r.logu(0.5, 30)) : gen::v3(r, 15);
  for (int i = 0; i < 3; i++) ap.kp_rot(i, i) = (TP)(r.logu(0.1, 20) * r.far(0.03));
  bool diag = r.chance(0.7);
  if (!diag)
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        if (i != j) ap.kp_rot(i, j) = (TP)r.uni(-2, 2);
  CtlP cp;
  cp.acro_controller_params = ap;
  int how = r.below(4);
  Ctl ctl = how == 0 ? Ctl(CtlP()) : Ctl(cp);
  Acro ac = how == 1 ? Acro(ap.vehicle_mass, ap.kp_rot, ap.gravity) : Acro(ap);
  if (how == 0) ctl.update_acro_controller_params(ap);
  if (how == 2) ac = Acro(), ac.update_vehicle_mass(ap.vehicle_mass), ac.update_gravity(ap.gravity), ac.update_kp_rot(ap.kp_rot);
  if (how == 3) ac = Acro(), ac.update_params(ap);
  ref::M3 kp = rm(ap.kp_rot);
  LD mass = ap.vehicle_mass;
  ref::V3 g = rv(ap.gravity);
  for (int k = 0; k < 6; k++) {
    V3 a = gen::v3(r, r.logu(0.1, 40) * r.far(0.03));
    if (r.chance(0.05)) a.setZero();
    TP yaw = (TP)(r.chance(0.2) ? r.range(-4, 4) * M_PI / 2 : r.chance(0.1) ? r.wide(30) : r.uni(-M_PI, M_PI));
    M33 R  = eq<TP>(gen::quat(r)).toRotationMatrix();
    int degenerate = r.below(40);
    if (degenerate == 0) a = ap.gravity;                                                                          // no thrust wanted at all
    if (degenerate == 1) a = ap.gravity + V3(cos(yaw), sin(yaw), 0) * (TP)(r.sgn() * r.logu(0.1, 30));             // thrust along the heading
    if (degenerate == 2) a = ap.gravity + V3(0, 0, (TP)-r.logu(0.1, 30));                                          // straight down
    if (degenerate == 3) yaw = 0, a = ap.gravity + V3((TP)(r.sgn() * 4), 0, 0);                                    // exactly along the heading
    ref::V3 want_t = (rv(a) - g) * mass;
    LD st          = mass * (ref::norm(rv(a)) + ref::norm(g));
    V3 t           = ac.acceleration_to_thrust(a);
    vh::ev();
    if (!(ref::finite3(rv(t)) && ref::dist(rv(t), want_t) <= vh::rel<TP>() * st + 1e-30L)) vh::fail("thrust vector", "acceleration (%.6g %.6g %.6g) mass %.6g: thrust (%.9g %.9g %.9g) expected (%.9g %.9g %.9g)", (double)a(0), (double)a(1), (double)a(2), vh::D(mass), (double)t(0), (double)t(1), (double)t(2), vh::D(want_t.x), vh::D(want_t.y), vh::D(want_t.z));
    if (!vh::near(ac.get_desired_thrust(), ref::norm(want_t), vh::rel<TP>() * st + 1e-30L)) vh::fail("thrust/reported", "reported thrust %.9g, size of the thrust vector %.9g", (double)ac.get_desired_thrust(), vh::D(ref::norm(want_t)));
    V3 w = ac.yaw_angle_to_angular_velocity(R, yaw, t);
    auto res = ctl.convert_linear_acceleration_to_acro(a, R, yaw, (TP)0.01);
    std::string ctx = vh::fmt("thrust (%.6g %.6g %.6g) yaw %.6g", (double)t(0), (double)t(1), (double)t(2), (double)yaw);
    vh::ev(4);
    if (!w.allFinite() || !std::isfinite(res.first) || !res.second.allFinite()) {
      vh::fail("finite", "%s: command not finite", ctx.c_str());
      continue;
    }
    if (ac.get_desired_angular_velocity() != w) vh::fail("rate/reported", "%s: reported body rate is not the returned one", ctx.c_str());
    if (degenerate < 4) vh::bin("degenerate direction");
    // collective thrust
    ref::V3 bz{(LD)R(0, 2), (LD)R(1, 2), (LD)R(2, 2)};
    LD Tb = ref::dot(want_t, ref::unit(bz));
    if (!(res.first >= 0)) vh::fail("thrust/negative", "%s: collective thrust %.9g", ctx.c_str(), (double)res.first);
    if (!vh::near(res.first, std::max(Tb, (LD)0), vh::rel<TP>() * st * 2 + 1e-30L)) vh::fail("thrust/projection", "%s: collective thrust %.9g, the component along the body vertical is %.9g", ctx.c_str(), (double)res.first, vh::D(Tb));
    bool edge = fabsl(Tb) <= (sizeof(TP) == 4 ? 1e-4L : 1e-9L) * st;
    if (Tb < 0 && !edge) {
      vh::bin("thrust below the vehicle");
      if (res.first != 0 || res.second.norm() != 0) vh::fail("below", "%s: thrust %.9g and rate %.9g although the thrust would point below the vehicle", ctx.c_str(), (double)res.first, (double)res.second.norm());
    } else if (!edge && !((res.second - w).norm() <= (TP)vh::rel<TP>() * 10 * w.norm())) vh::fail("rate/paths", "%s: the cascade commands another rate than the attitude law", ctx.c_str());
    // body rate, from the thrust vector the code was given
    ref::V3 tt = rv(t);
    LD tn = ref::norm(tt), sh = tn > 0 ? ref::norm(ref::cross(tt * (1 / tn), {cosl(yaw), sinl(yaw), 0})) : 0;
    bool tiny = !(tn > (sizeof(TP) == 4 ? 1e-12L : 1e-100L));
    LD ill    = (1 + fabsl(yaw)) / std::max(sh, (LD)1e-30);
    if (!tiny && sh > 1e-3L) {
      ref::V3 want = ref::rate_law(rm(R), yaw, tt, kp);
      vh::ev();
      if (!(ref::dist(rv(w), want) <= vh::rel<TP>() * 20 * ref::normF(kp) * ill)) vh::fail("rate", "%s: body rate (%.9g %.9g %.9g) expected (%.9g %.9g %.9g)", ctx.c_str(), (double)w(0), (double)w(1), (double)w(2), vh::D(want.x), vh::D(want.y), vh::D(want.z));
      vh::bin("rate judged");
      vh::nontrivial(vh::hashd(k, (double)w(0)));
      // same yaw, a full turn away
      TP yaw2 = (TP)((LD)yaw + 2 * M_PIl * r.range(-3, 3));
      V3 w2   = ac.yaw_angle_to_angular_velocity(R, yaw2, t);
      vh::ev();
      LD ty = (LD)std::numeric_limits<TP>::epsilon() * 60 * ref::normF(kp) / sh * 4;
      if (!(ref::dist(rv(w2), rv(w)) <= vh::rel<TP>() * 20 * ref::normF(kp) / sh + ty)) vh::fail("yaw period", "%s: body rate changes by %.6g when yaw turns full circles", ctx.c_str(), vh::D(ref::dist(rv(w2), rv(w))));
      // the size of the thrust does not matter
      V3 w3 = ac.yaw_angle_to_angular_velocity(R, yaw, V3(t * (TP)r.logu(0.01, 100)));
      if (!(ref::dist(rv(w3), rv(w)) <= vh::rel<TP>() * 20 * ref::normF(kp) * ill)) vh::fail("thrust size", "%s: body rate depends on the size of the thrust", ctx.c_str());
      // at the desired attitude
      ref::M3 Rd = rot_to(tt, yaw);
      V3 w0      = ac.yaw_angle_to_angular_velocity(em3<TP>(Rd), yaw, t);
      vh::ev();
      if (!((LD)w0.norm() <= vh::rel<TP>() * 20 * ref::normF(kp) * ill)) vh::fail("equilibrium", "%s: body rate %.9g at the desired attitude", ctx.c_str(), (double)w0.norm());
      // near it, the commanded rate reduces the error
      if (diag && sh > 0.05L) {
        LD ang    = r.uni(0.05, 1.0);
        ref::V3 ax = gen::dir(r);
        ref::M3 R1 = Rd * ref::rotm(ref::axis_angle(ax, ang));
        V3 w1      = ac.yaw_angle_to_angular_velocity(em3<TP>(R1), yaw, t);
        // with equal gains the rate points back along the axis; with positive gains it always has a component that way
        LD back = -ref::dot(rv(w1), ax);
        LD kmin = std::min({kp.a[0][0], kp.a[1][1], kp.a[2][2]});
        vh::ev();
        if (!(back >= kmin * sinl(ang) * 0.99L)) vh::fail("direction", "%s: turned by %.6g about (%.4g %.4g %.4g), the commanded rate along the way back is %.6g", ctx.c_str(), vh::D(ang), vh::D(ax.x), vh::D(ax.y), vh::D(ax.z), vh::D(back));
        vh::bin("turned away");
      }
      if (k == 0) vh::sample("%s: body rate (%.4g %.4g %.4g), collective %.5g", ctx.c_str(), (double)w(0), (double)w(1), (double)w(2), (double)res.first);
    } else vh::bin("heading undefined");
    // the acceleration entry of the cascade uses the same thing
    if (r.chance(0.2)) {
      ctl.compute_acceleration_control(R, V3::Zero(), a, yaw, (TP)0.01);
      vh::ev();
      if (ctl.get_desired_thrust() != res.first || !((ctl.get_desired_angular_velocity() - res.second).norm() <= (TP)1e-6 * res.second.norm())) vh::fail("cascade", "%s: the acceleration command of the cascade uses another thrust or rate", ctx.c_str());
    }
  }
}
