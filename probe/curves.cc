// Entry points for the analysis: the curves library. Only ever parsed.
#include <utility>
#include <vector>

#include "resim/curves/d_curve.hh"
#include "resim/curves/quintic_poly_coeffs.hh"
#include "resim/curves/t_curve.hh"
#include "resim/curves/t_curve_segment.hh"
#include "resim/curves/two_jet.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"

namespace probe {
using namespace resim::curves;
using resim::transforms::SE3;
using resim::transforms::SO3;
using F3 = resim::transforms::Frame<3>;

#define JETS(G, N)                                                             \
  using N##JL = TwoJetL<G>;                                                    \
  using N##JR = TwoJetR<G>;                                                    \
  using N##TV = G::TangentVector;                                              \
  N##JL N##_jl(G g, N##TV d, N##TV d2) { return N##JL(g, d, d2); }             \
  N##JR N##_jr(G g, N##TV d, N##TV d2) { return N##JR(g, d, d2); }             \
  N##JL N##_jl_id() { return N##JL::identity(); }                              \
  N##JR N##_jr_id() { return N##JR::identity(); }                              \
  N##JL N##_jl_idf(const F3 &a, const F3 &b) { return N##JL::identity(a, b); } \
  N##JR N##_jr_idf(const F3 &a, const F3 &b) { return N##JR::identity(a, b); } \
  N##JL N##_jl_mul(const N##JL &a, const N##JL &b) { return a * b; }           \
  N##JR N##_jr_mul(const N##JR &a, const N##JR &b) { return a * b; }           \
  N##JL N##_jl_inv(const N##JL &a) { return a.inverse(); }                     \
  N##JR N##_jr_inv(const N##JR &a) { return a.inverse(); }                     \
  N##JR N##_jl_right(const N##JL &a) { return a.right_two_jet(); }             \
  N##JL N##_jr_left(const N##JR &a) { return a.left_two_jet(); }               \
  bool N##_jl_approx(const N##JL &a, const N##JL &b) {                         \
    return a.is_approx(b);                                                     \
  }                                                                            \
  bool N##_jr_approx(const N##JR &a, const N##JR &b) {                         \
    return a.is_approx(b);                                                     \
  }                                                                            \
  void N##_jl_set(N##JL &j, G g) { j.set_frame_from_ref(g); }                  \
  void N##_jl_set_d(N##JL &j, N##TV v) { j.set_d_frame_from_ref(v); }          \
  void N##_jl_set_d2(N##JL &j, N##TV v) { j.set_d2_frame_from_ref(v); }        \
  void N##_jr_set(N##JR &j, G g) { j.set_ref_from_frame(g); }                  \
  void N##_jr_set_d(N##JR &j, N##TV v) { j.set_d_ref_from_frame(v); }          \
  void N##_jr_set_d2(N##JR &j, N##TV v) { j.set_d2_ref_from_frame(v); }        \
  N##JL N##_jl_copy(const N##JL &a) { return a; }                              \
  N##JR N##_jr_copy(const N##JR &a) { return a; }                              \
  void N##_jl_assign(N##JL &a, const N##JL &b) { a = b; }                      \
  void N##_jr_assign(N##JR &a, const N##JR &b) { a = b; }                      \
  using N##Seg = TCurveSegment<G>;                                             \
  N##Seg N##_seg(N##JL a, N##JL b) { return N##Seg(a, b); }                    \
  N##JL N##_seg_at(const N##Seg &s, double t) { return s.point_at(t); }        \
  bool N##_seg_framed(const N##Seg &s) { return s.is_framed(); }               \
  F3 N##_seg_ref(const N##Seg &s) { return s.reference_frame(); }              \
  F3 N##_seg_pt(const N##Seg &s) { return s.point_frame(); }                   \
  N##JL N##_seg_orig(const N##Seg &s) { return s.orig(); }                     \
  N##JL N##_seg_dest(const N##Seg &s) { return s.dest(); }                     \
  N##JL N##_seg_mk_at(const N##JL &a, const N##JL &b, double t) {              \
    return N##Seg(a, b).point_at(t);                                           \
  }                                                                            \
  using N##TC = TCurve<G>;                                                     \
  using N##TCc = TCurve<G>::Control;                                           \
  N##TC N##_tc_default() { return N##TC(); }                                   \
  N##TC N##_tc_vec(const std::vector<N##TCc> &p) { return N##TC(p); }          \
  N##TC N##_tc_il(N##TCc a, N##TCc b, N##TCc c) { return N##TC{a, b, c}; }     \
  void N##_tc_append(N##TC &c, N##TCc p) { c.append(p); }                      \
  void N##_tc_append2(N##TC &c, N##TCc p, N##TCc q) { c.append({p, q}); }      \
  N##JL N##_tc_at(const N##TC &c, double t) { return c.point_at(t); }          \
  double N##_tc_start(const N##TC &c) { return c.start_time(); }               \
  double N##_tc_end(const N##TC &c) { return c.end_time(); }                   \
  bool N##_tc_framed(const N##TC &c) { return c.is_framed(); }                 \
  F3 N##_tc_ref(const N##TC &c) { return c.reference_frame(); }                \
  F3 N##_tc_pt(const N##TC &c) { return c.point_frame(); }                     \
  std::vector<N##TCc> N##_tc_ctrl(const N##TC &c) { return c.control_pts(); }  \
  N##TC N##_tc_copy(const N##TC &c) { return c; }

JETS(SE3, se3)
JETS(SO3, so3)

TwoJetPolyCoeffs quintic_dest_from_orig(double t) {
  return QuinticPolyCoeffs::dest_from_orig(t);
}
TwoJetPolyCoeffs quintic_d_orig(double t) {
  return QuinticPolyCoeffs::d_orig(t);
}
TwoJetPolyCoeffs quintic_d_dest(double t) {
  return QuinticPolyCoeffs::d_dest(t);
}
TwoJetPolyCoeffs quintic_d2_orig(double t) {
  return QuinticPolyCoeffs::d2_orig(t);
}
TwoJetPolyCoeffs quintic_d2_dest(double t) {
  return QuinticPolyCoeffs::d2_dest(t);
}
double quintic_a(const TwoJetPolyCoeffs &c) { return c.a; }
double quintic_da(const TwoJetPolyCoeffs &c) { return c.da; }
double quintic_d2a(const TwoJetPolyCoeffs &c) { return c.d2a; }

using DC = DCurve<SE3>;
DC dc_default() { return DC(); }
DC dc_vec(const std::vector<SE3> &p) { return DC(p); }
DC dc_il(SE3 a, SE3 b, SE3 c) { return DC{a, b, c}; }
void dc_append(DC &c, SE3 p) { c.append(p); }
void dc_append2(DC &c, SE3 p, SE3 q) { c.append({p, q}); }
SE3 dc_at(const DC &c, double s) { return c.point_at(s); }
double dc_length(const DC &c) { return c.curve_length(); }
bool dc_framed(const DC &c) { return c.is_framed(); }
F3 dc_ref(const DC &c) { return c.reference_frame(); }
F3 dc_pt(const DC &c) { return c.point_frame(); }
DC dc_copy(const DC &c) { return c; }
unsigned long dc_size(const DC &c) { return c.control_pts().size(); }
double dc_ctrl_len(const DC &c, unsigned long i) {
  return c.control_pts().at(i).arc_length;
}
SE3 dc_ctrl_pose(const DC &c, unsigned long i) {
  return *c.control_pts().at(i).ref_from_control;
}
unsigned long dc_segs(const DC &c) { return c.segments().size(); }
double dc_seg_orig(const DC &c, unsigned long i) {
  return c.segments().at(i).orig_arc_length;
}
double dc_seg_dest(const DC &c, unsigned long i) {
  return c.segments().at(i).dest_arc_length;
}
SE3 dc_seg_from(const DC &c, unsigned long i) {
  return *c.segments().at(i).ref_from_orig;
}
SE3 dc_seg_to(const DC &c, unsigned long i) {
  return *c.segments().at(i).ref_from_dest;
}
SE3 dc_seg_rel(const DC &c, unsigned long i) {
  return c.segments().at(i).orig_from_dest;
}

}  // namespace probe
