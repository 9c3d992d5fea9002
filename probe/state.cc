// Entry points of the actor state library, used as analysis roots.
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/curves/t_curve.hh"
#include "resim/curves/two_jet.hh"
#include "resim/time/timestamp.hh"
#include "resim/transforms/se3.hh"

namespace probe {
using namespace resim;
using transforms::SE3;
using RBS = actor::state::RigidBodyState<SE3>;
using JR = curves::TwoJetR<SE3>;
using JL = curves::TwoJetL<SE3>;
using F3 = transforms::Frame<3>;
using V3 = Eigen::Vector3d;
using V6 = Eigen::Matrix<double, 6, 1>;

RBS rbs_default() { return RBS(); }
RBS rbs_pose(SE3 a) { return RBS(a); }
RBS rbs_deriv(SE3 a, V3 v, V3 w, V3 dv, V3 dw) {
  return RBS(
      a,
      {.velocity = {.linear_mps = v, .angular_radps = w},
       .acceleration = {.linear_mpss = dv, .angular_radpss = dw}});
}
RBS rbs_jet(JR j) { return RBS(j); }
RBS rbs_identity() { return RBS::identity(); }
RBS rbs_identity_framed(const F3 &a, const F3 &b) {
  return RBS::identity(a, b);
}
RBS rbs_mul(const RBS &a, const RBS &b) { return a * b; }
RBS rbs_inverse_times(const RBS &a, const RBS &b) { return a.inverse_times(b); }
SE3 rbs_ref_from_body(const RBS &a) { return a.ref_from_body(); }
JR rbs_two_jet(const RBS &a) { return a.ref_from_body_two_jet(); }
V3 rbs_v(const RBS &a) { return a.body_linear_velocity_mps(); }
V3 rbs_w(const RBS &a) { return a.body_angular_velocity_radps(); }
V3 rbs_dv(const RBS &a) { return a.body_linear_acceleration_mpss(); }
V3 rbs_dw(const RBS &a) { return a.body_angular_acceleration_radpss(); }
V3 rbs_d_v(const RBS &a) { return a.body_derivatives().velocity.linear_mps; }
V3 rbs_d_w(const RBS &a) { return a.body_derivatives().velocity.angular_radps; }
V3 rbs_d_dv(const RBS &a) {
  return a.body_derivatives().acceleration.linear_mpss;
}
V3 rbs_d_dw(const RBS &a) {
  return a.body_derivatives().acceleration.angular_radpss;
}
void rbs_set_pose(RBS &a, SE3 p) { a.set_ref_from_body(p); }
void rbs_set_v(RBS &a, V3 x) { a.set_body_linear_velocity_mps(x); }
void rbs_set_w(RBS &a, V3 x) { a.set_body_angular_velocity_radps(x); }
void rbs_set_dv(RBS &a, V3 x) { a.set_body_linear_acceleration_mpss(x); }
void rbs_set_dw(RBS &a, V3 x) { a.set_body_angular_acceleration_radpss(x); }
double v3_at(const V3 &v, long i) { return v(i); }
double v6_at(const V6 &v, long i) { return v(i); }

using Traj = actor::state::Trajectory;
using TrajC = actor::state::Trajectory::Control;
using TC = curves::TCurve<SE3>;
Traj traj_default() { return Traj(); }
Traj traj_from_curve(TC c, time::Timestamp t) { return Traj(c, t); }
Traj traj_il(TrajC a, TrajC b, TrajC c) { return Traj{a, b, c}; }
void traj_append(Traj &t, const TrajC &c) { t.append(c); }
void traj_append2(Traj &t, const TrajC &c, const TrajC &d) {
  t.append({c, d});
}
RBS traj_at(const Traj &t, const time::Timestamp &at) { return t.point_at(at); }
RBS traj_at_d(const Traj &t, const time::Duration &at) {
  return t.point_at(at);
}
JL traj_curve_at(const Traj &t, double at) { return t.curve().point_at(at); }
unsigned long traj_size(const Traj &t) {
  return t.curve().control_pts().size();
}
double traj_ctrl_time(const Traj &t, unsigned long i) {
  return t.curve().control_pts().at(i).time;
}
JL traj_ctrl_point(const Traj &t, unsigned long i) {
  return t.curve().control_pts().at(i).point;
}
TC traj_curve(const Traj &t) { return t.curve(); }
time::Timestamp traj_start(const Traj &t) { return t.start_time(); }
time::Timestamp traj_end(const Traj &t) { return t.end_time(); }
time::Duration traj_duration(const Traj &t) { return t.time_duration(); }
F3 traj_ref(const Traj &t) { return t.reference_frame(); }
F3 traj_body(const Traj &t) { return t.body_frame(); }
long ts_count(const time::Timestamp &t) {
  return t.time_since_epoch().count();
}
long dur_count(const time::Duration &t) { return t.count(); }

}  // namespace probe
