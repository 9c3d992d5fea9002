// Entry points for the analysis: one per public operation of the transforms library.
// They are only ever parsed; nothing here is executed.
#include <utility>

#include "resim/transforms/cross_matrix.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/framed_vector.hh"
#include "resim/transforms/liegroup_exp_diff.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"

namespace probe {
using namespace resim::transforms;
using F3 = Frame<3>;
using FV = FramedVector<3>;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;

#define GROUP(G, N)                                                            \
  G N##_default() { return G(); }                                              \
  G N##_identity() { return G::identity(); }                                   \
  G N##_identity_f(const F3 &into, const F3 &from) {                           \
    return G::identity(into, from);                                            \
  }                                                                            \
  G N##_identity_mm(F3 into, F3 from) {                                        \
    return G::identity(std::move(into), std::move(from));                      \
  }                                                                            \
  G N##_identity_cm(const F3 &into, F3 from) {                                 \
    return G::identity(into, std::move(from));                                 \
  }                                                                            \
  G N##_identity_mc(F3 into, const F3 &from) {                                 \
    return G::identity(std::move(into), from);                                 \
  }                                                                            \
  G N##_mul(const G &a, const G &b) { return a * b; }                          \
  V3 N##_act(const G &a, const V3 &v) { return a * v; }                        \
  V3 N##_rotate(const G &a, const V3 &v) { return a.rotate(v); }               \
  FV N##_rotate_f(const G &a, const FV &v) { return a.rotate(v); }             \
  G N##_inverse(const G &a) { return a.inverse(); }                            \
  G N##_interp(const G &a, double t) { return a.interp(t); }                   \
  G N##_interp_f(const G &a, double t, const F3 &from) {                       \
    return a.interp(t, from);                                                  \
  }                                                                            \
  G N##_exp(const G::TangentVector &v) { return G::exp(v); }                   \
  G N##_exp_f(const G::TangentVector &v, const F3 &into, const F3 &from) {     \
    return G::exp(v, into, from);                                              \
  }                                                                            \
  G N##_exp_mm(const G::TangentVector &v, F3 into, F3 from) {                  \
    return G::exp(v, std::move(into), std::move(from));                        \
  }                                                                            \
  G N##_exp_cm(const G::TangentVector &v, const F3 &into, F3 from) {           \
    return G::exp(v, into, std::move(from));                                   \
  }                                                                            \
  G N##_exp_mc(const G::TangentVector &v, F3 into, const F3 &from) {           \
    return G::exp(v, std::move(into), from);                                   \
  }                                                                            \
  G::TangentVector N##_log(const G &a) { return a.log(); }                     \
  G::TangentMapping N##_adjoint(const G &a) { return a.adjoint(); }            \
  G::TangentMapping N##_adjoint_alg(const G::TangentVector &v) {               \
    return G::adjoint(v);                                                      \
  }                                                                            \
  G::TangentVector N##_adjoint_times(                                          \
      const G &a,                                                              \
      const G::TangentVector &v) {                                             \
    return a.adjoint_times(v);                                                 \
  }                                                                            \
  G::TangentVector N##_bracket(                                                \
      const G::TangentVector &a,                                               \
      const G::TangentVector &b) {                                             \
    return G::adjoint_times(a, b);                                             \
  }                                                                            \
  bool N##_is_approx(const G &a, const G &b) { return a.is_approx(b); }        \
  bool N##_is_approx_transform(const G &a, const G &b) {                       \
    return a.is_approx_transform(b);                                           \
  }                                                                            \
  void N##_set_frames(G &a, const F3 &into, const F3 &from) {                  \
    a.set_frames(into, from);                                                  \
  }                                                                            \
  void N##_set_unframed(G &a) { a.set_unframed(); }                            \
  F3 N##_into(const G &a) { return a.into(); }                                 \
  F3 N##_from(const G &a) { return a.from(); }                                 \
  bool N##_is_framed(const G &a) { return a.is_framed(); }                     \
  bool N##_verify_into(const G &a, const F3 &f) { return a.verify_into(f); }   \
  bool N##_verify_from(const G &a, const F3 &f) { return a.verify_from(f); }   \
  bool N##_verify_frames(const G &a, const F3 &f, const F3 &g) {               \
    return a.verify_frames(f, g);                                              \
  }                                                                            \
  G N##_copy(const G &a) { return a; }                                         \
  void N##_assign(G &a, const G &b) { a = b; }                                 \
  G N##_move(G &a) { return std::move(a); }                                    \
  void N##_move_assign(G &a, G &b) { a = std::move(b); }

GROUP(SO3, so3)
GROUP(SE3, se3)

SO3 so3_aa(const Eigen::AngleAxisd &aa) { return SO3(aa); }
SO3 so3_aa_f(const Eigen::AngleAxisd &aa, F3 into, F3 from) {
  return SO3(aa, into, from);
}
SO3 so3_angle(double angle, const V3 &axis) { return SO3(angle, axis); }
SO3 so3_angle_f(double angle, const V3 &axis, F3 into, F3 from) {
  return SO3(angle, axis, into, from);
}
SO3 so3_quat(const Eigen::Quaterniond &q) { return SO3(q); }
SO3 so3_quat_f(const Eigen::Quaterniond &q, F3 into, F3 from) {
  return SO3(q, into, from);
}
SO3 so3_mat(const M3 &m) { return SO3(m); }
SO3 so3_mat_f(const M3 &m, F3 into, F3 from) { return SO3(m, into, from); }
M3 so3_rotation_matrix(const SO3 &a) { return a.rotation_matrix(); }
Eigen::Quaterniond so3_quaternion(const SO3 &a) { return a.quaternion(); }
SO3::TangentMapping so3_exp_diff(const V3 &v) { return SO3::exp_diff(v); }

SE3 se3_r(const SO3 &r) { return SE3(r); }
SE3 se3_r_f(const SO3 &r, F3 into, F3 from) { return SE3(r, into, from); }
SE3 se3_t(const V3 &t) { return SE3(t); }
SE3 se3_t_f(const V3 &t, F3 into, F3 from) { return SE3(t, into, from); }
SE3 se3_rt(const SO3 &r, const V3 &t) { return SE3(r, t); }
SE3 se3_rt_f(const SO3 &r, const V3 &t, F3 into, F3 from) {
  return SE3(r, t, into, from);
}
SO3 se3_rotation(const SE3 &a) { return a.rotation(); }
V3 se3_translation(const SE3 &a) { return a.translation(); }
double se3_arc_length(const SE3 &a) { return a.arc_length(); }
double se3_dist(const SE3 &a, const SE3 &b) { return se3_distance(a, b); }
double se3_inv_dist(const SE3 &a, const SE3 &b) {
  return se3_inverse_distance(a, b);
}
V3 se3_rot_part(const SE3::TangentVector &v) {
  return SE3::tangent_vector_rotation_part(v);
}
V3 se3_trans_part(const SE3::TangentVector &v) {
  return SE3::tangent_vector_translation_part(v);
}
SE3::TangentVector se3_parts(const V3 &r, const V3 &t) {
  return SE3::tangent_vector_from_parts(r, t);
}
void se3_set_rot_part(SE3::TangentVector &v, const V3 &r) {
  SE3::tangent_vector_rotation_part(v) = r;
}
void se3_set_trans_part(SE3::TangentVector &v, const V3 &t) {
  SE3::tangent_vector_translation_part(v) = t;
}
M3 cross_mat(const V3 &v) { return cross_matrix(v); }
ExpDiffCoeffs exp_coeffs(double square_angle) {
  return derivative_of_exp_so3(square_angle);
}
double coeff_a(const ExpDiffCoeffs &c) { return c.a; }
double coeff_b(const ExpDiffCoeffs &c) { return c.b; }
double coeff_c(const ExpDiffCoeffs &c) { return c.c; }
double tiny_square_angle() { return TINY_SQUARE_ANGLE; }

// frames and framed vectors
bool frame_eq(const F3 &a, const F3 &b) { return a == b; }
bool frame_ne(const F3 &a, const F3 &b) { return a != b; }
bool frame_is_null(const F3 &a) { return a.is_null(); }
F3 frame_null() { return F3::null_frame(); }
F3 frame_default() { return F3(); }
F3 frame_of(const resim::UUID &id) { return F3(id); }
resim::UUID frame_id(const F3 &f) { return f.id(); }
F3 frame_new() { return F3::new_frame(); }

FV fv_make(const V3 &v, const F3 &f) { return FV(v, f); }
FV fv_make_new(const V3 &v) { return FV(v); }
FV fv_add(const FV &a, const FV &b) { return a + b; }
V3 fv_add_v(const FV &a, const V3 &b) { return a + b; }
FV fv_scale(const FV &a, double d) { return a * d; }
FV fv_scale_l(double d, const FV &a) { return d * a; }
bool fv_eq(const FV &a, const FV &b) { return a == b; }
bool fv_approx(const FV &a, const FV &b) { return a.isApprox(b); }
bool fv_approx_v(const FV &a, const V3 &b) { return a.isApprox(b); }
F3 fv_frame(const FV &a) { return a.frame(); }
V3 fv_vector(const FV &a) { return a.vector(); }
void fv_set_frame(FV &a, const F3 &f) { a.set_frame(f); }
FV fv_copy(const FV &a) { return a; }
void fv_assign(FV &a, const FV &b) { a = b; }
bool fv_approx_lv(FV &a, FV &b) { return a.isApprox(b); }
bool fv_approx_rv(const FV &a, const FV &b) { return a.isApprox(a * 1.0); }
bool fv_approx_p(const FV &a, const FV &b, double p) { return a.isApprox(b, p); }
bool fv_approx_lvp(FV &a, FV &b, double p) { return a.isApprox(b, p); }
bool fv_approx_vp(const FV &a, const V3 &b, double p) { return a.isApprox(b, p); }
bool fv_ne(const FV &a, const FV &b) { return a != b; }


}  // namespace probe
