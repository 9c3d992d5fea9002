// Entry points of the protobuf converters, used as analysis roots.
#include <Eigen/Dense>
#include <vector>

#include "resim/actor/state/proto/trajectory.pb.h"
#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/curves/proto/d_curve.pb.h"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve.pb.h"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_so3_to_proto.hh"
#include "resim/curves/proto/two_jet.pb.h"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_so3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_so3_to_proto.hh"
#include "resim/math/proto/matrix_to_proto.hh"
#include "resim/transforms/proto/frame_3.pb.h"
#include "resim/transforms/proto/frame_3_to_proto.hh"
#include "resim/transforms/proto/framed_vector_3.pb.h"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/se3.pb.h"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3.pb.h"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/utils/inout.hh"
#include "resim/utils/proto/uuid.pb.h"
#include "resim/utils/proto/uuid_to_proto.hh"
#include "resim/visualization/proto/view_primitive.pb.h"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update.pb.h"
#include "resim/visualization/proto/view_update_to_proto.hh"

namespace probe {
using namespace resim;

#define CONVERTER(N, T, M)                                             \
  M N##_fresh() { return M{}; }                                        \
  void N##_pack(const T &in, M *out) { pack(in, out); }                \
  void N##_pack_null(const T &in) {                                    \
    M *out = nullptr;                                                  \
    pack(in, out);                                                     \
  }                                                                    \
  T N##_unpack(const M &in) { return unpack(in); }                     \
  T N##_trip(const T &in) {                                            \
    M m;                                                               \
    pack(in, &m);                                                      \
    return unpack(m);                                                  \
  }                                                                    \
  T N##_retrip(const T &first, const T &in) {                          \
    M m;                                                               \
    pack(first, &m);                                                   \
    pack(in, &m);                                                      \
    return unpack(m);                                                  \
  }

CONVERTER(p_uuid, UUID, proto::UUID)
CONVERTER(p_frame, transforms::Frame<3>, transforms::proto::Frame_3)
CONVERTER(
    p_fvec,
    transforms::FramedVector<3>,
    transforms::proto::FramedVector_3)
CONVERTER(p_se3, transforms::SE3, transforms::proto::SE3)
CONVERTER(p_so3, transforms::SO3, transforms::proto::SO3)
CONVERTER(
    p_jl_se3,
    curves::TwoJetL<transforms::SE3>,
    curves::proto::TwoJetL_SE3)
CONVERTER(
    p_jl_so3,
    curves::TwoJetL<transforms::SO3>,
    curves::proto::TwoJetL_SO3)
CONVERTER(
    p_jr_se3,
    curves::TwoJetR<transforms::SE3>,
    curves::proto::TwoJetR_SE3)
CONVERTER(
    p_jr_so3,
    curves::TwoJetR<transforms::SO3>,
    curves::proto::TwoJetR_SO3)
CONVERTER(p_tc_se3, curves::TCurve<transforms::SE3>, curves::proto::TCurve_SE3)
CONVERTER(p_tc_so3, curves::TCurve<transforms::SO3>, curves::proto::TCurve_SO3)
CONVERTER(p_dc, curves::DCurve<transforms::SE3>, curves::proto::DCurve_SE3)
CONVERTER(
    p_traj,
    actor::state::Trajectory,
    actor::state::proto::Trajectory)
CONVERTER(p_vp, visualization::ViewPrimitive, visualization::proto::ViewPrimitive)
CONVERTER(p_vu, visualization::ViewUpdate, visualization::proto::ViewUpdate)

using RF = google::protobuf::RepeatedField<double>;
using M23 = Eigen::Matrix<double, 2, 3>;
using M33 = Eigen::Matrix<double, 3, 3>;
using V4 = Eigen::Matrix<double, 4, 1>;
#define MATRIX(N, T)                                                  \
  void N##_pack(const T &in, RF *out) {                               \
    math::proto::pack_matrix(in, out);                                \
  }                                                                   \
  void N##_pack_null(const T &in) {                                   \
    RF *out = nullptr;                                                \
    math::proto::pack_matrix(in, out);                                \
  }                                                                   \
  void N##_unpack(const RF &in, T &out) {                             \
    math::proto::unpack_matrix(in, InOut<T>{out});                    \
  }                                                                   \
  void N##_trip(const T &in, T &out) {                                \
    RF f;                                                             \
    math::proto::pack_matrix(in, &f);                                 \
    math::proto::unpack_matrix(f, InOut<T>{out});                     \
  }                                                                   \
  void N##_retrip(const T &first, const T &in, T &out) {              \
    RF f;                                                             \
    math::proto::pack_matrix(first, &f);                              \
    math::proto::pack_matrix(in, &f);                                 \
    math::proto::unpack_matrix(f, InOut<T>{out});                     \
  }
MATRIX(m23, M23)
MATRIX(m33, M33)
MATRIX(v4, V4)
void m33_into_23(const M33 &in, M23 &out) {
  RF f;
  math::proto::pack_matrix(in, &f);
  math::proto::unpack_matrix(f, InOut<M23>{out});
}
void m23_into_33(const M23 &in, M33 &out) {
  RF f;
  math::proto::pack_matrix(in, &f);
  math::proto::unpack_matrix(f, InOut<M33>{out});
}

#define VP(N, T)                                                     \
  visualization::ViewPrimitive vp_##N(                               \
      const visualization::ViewPrimitive &p,                         \
      const T &x) {                                                  \
    visualization::ViewPrimitive r = p;                              \
    r.payload = T(x);                                                \
    return r;                                                        \
  }                                                                  \
  bool vp_has_##N(const visualization::ViewPrimitive &p) {           \
    return std::holds_alternative<T>(p.payload);                     \
  }                                                                  \
  T vp_get_##N(const visualization::ViewPrimitive &p) {              \
    return std::get<T>(p.payload);                                   \
  }
VP(se3, transforms::SE3)
VP(so3, transforms::SO3)
VP(dc, curves::DCurve<transforms::SE3>)
VP(tc, curves::TCurve<transforms::SE3>)
VP(traj, actor::state::Trajectory)
VP(frame, transforms::Frame<3>)
VP(fvec, transforms::FramedVector<3>)
visualization::ViewPrimitive vp_make(
    const UUID &id,
    const std::string &file,
    int line) {
  return visualization::ViewPrimitive{
      .id = id, .file_name = file, .line_number = line};
}
visualization::ViewPrimitive vp_make_named(
    const UUID &id,
    const std::string &name,
    const std::string &file,
    int line) {
  return visualization::ViewPrimitive{
      .id = id,
      .user_defined_name = name,
      .file_name = file,
      .line_number = line};
}
UUID vp_id(const visualization::ViewPrimitive &p) { return p.id; }
bool vp_named(const visualization::ViewPrimitive &p) {
  return p.user_defined_name.has_value();
}
std::string vp_name(const visualization::ViewPrimitive &p) {
  return p.user_defined_name.value();
}
std::string vp_file(const visualization::ViewPrimitive &p) {
  return p.file_name;
}
int vp_line(const visualization::ViewPrimitive &p) { return p.line_number; }
visualization::ViewUpdate vu_make(
    const std::vector<visualization::ViewPrimitive> &v) {
  return visualization::ViewUpdate{.primitives = v};
}
unsigned long vu_size(const visualization::ViewUpdate &u) {
  return u.primitives.size();
}


// contents of the messages
std::string c_uuid(const proto::UUID &m) { return m.data(); }
UUID c_frame(const transforms::proto::Frame_3 &m) { return unpack(m.id()); }
double c_fvec_vec(const transforms::proto::FramedVector_3 &m, int i) {
  return m.algebra(i);
}
UUID c_fvec_frame(const transforms::proto::FramedVector_3 &m) {
  return unpack(m.frame().id());
}
#define GROUP_MSG(N, M)                                        \
  int c_##N##_size(const M &m) { return m.algebra_size(); }    \
  double c_##N##_alg(const M &m, int i) { return m.algebra(i); } \
  UUID c_##N##_into(const M &m) { return unpack(m.into().id()); } \
  UUID c_##N##_from(const M &m) { return unpack(m.from().id()); }
GROUP_MSG(se3, transforms::proto::SE3)
GROUP_MSG(so3, transforms::proto::SO3)
int c_fvec_size(const transforms::proto::FramedVector_3 &m) {
  return m.algebra_size();
}
#define JET_MSG(N, M, A, D, D2)                        \
  int c_##N##_d_size(const M &m) { return m.D##_size(); }  \
  int c_##N##_d2_size(const M &m) { return m.D2##_size(); }  \
  int c_##N##_alg_size(const M &m) { return m.A().algebra_size(); }  \
  auto c_##N##_pose(const M &m) { return unpack(m.A()); } \
  double c_##N##_d(const M &m, int i) { return m.D(i); }  \
  double c_##N##_d2(const M &m, int i) { return m.D2(i); }
JET_MSG(jl_se3, curves::proto::TwoJetL_SE3, frame_from_ref, d_frame_from_ref, d2_frame_from_ref)
JET_MSG(jl_so3, curves::proto::TwoJetL_SO3, frame_from_ref, d_frame_from_ref, d2_frame_from_ref)
JET_MSG(jr_se3, curves::proto::TwoJetR_SE3, ref_from_frame, d_ref_from_frame, d2_ref_from_frame)
JET_MSG(jr_so3, curves::proto::TwoJetR_SO3, ref_from_frame, d_ref_from_frame, d2_ref_from_frame)
int c_tc_size(const curves::proto::TCurve_SE3 &m) { return m.points_size(); }
double c_tc_time(const curves::proto::TCurve_SE3 &m, int i) {
  return m.points(i).time();
}
curves::TwoJetL<transforms::SE3> c_tc_point(
    const curves::proto::TCurve_SE3 &m,
    int i) {
  return unpack(m.points(i).point());
}
int c_dc_size(const curves::proto::DCurve_SE3 &m) {
  return m.ref_from_control_size();
}
transforms::SE3 c_dc_point(const curves::proto::DCurve_SE3 &m, int i) {
  return unpack(m.ref_from_control(i));
}
long c_traj_secs(const actor::state::proto::Trajectory &m) {
  return m.start_time().seconds();
}
int c_traj_nanos(const actor::state::proto::Trajectory &m) {
  return m.start_time().nanos();
}
curves::TCurve<transforms::SE3> c_traj_curve(
    const actor::state::proto::Trajectory &m) {
  return unpack(m.curve());
}
UUID c_vp_id(const visualization::proto::ViewPrimitive &m) {
  return unpack(m.id());
}
std::string c_vp_name(const visualization::proto::ViewPrimitive &m) {
  return m.user_defined_name();
}
std::string c_vp_file(const visualization::proto::ViewPrimitive &m) {
  return m.file_name();
}
int c_vp_line(const visualization::proto::ViewPrimitive &m) {
  return m.line_number();
}
#define VP_MSG(N, F)                                             \
  bool c_vp_has_##N(const visualization::proto::ViewPrimitive &m) { \
    return m.has_##F();                                          \
  }                                                              \
  auto c_vp_get_##N(const visualization::proto::ViewPrimitive &m) { \
    return unpack(m.F());                                        \
  }
VP_MSG(se3, se3)
VP_MSG(so3, so3)
VP_MSG(dc, d_curve_se3)
VP_MSG(tc, t_curve_se3)
VP_MSG(traj, trajectory)
VP_MSG(frame, frame)
VP_MSG(fvec, framed_vector)
visualization::ViewPrimitive vp_unpack_unset(
    const UUID &id,
    const std::string &name,
    const std::string &file,
    int line) {
  visualization::proto::ViewPrimitive m;
  pack(id, m.mutable_id());
  m.set_user_defined_name(name);
  m.set_file_name(file);
  m.set_line_number(line);
  return unpack(m);
}
int c_vu_size(const visualization::proto::ViewUpdate &m) {
  return m.primitive_size();
}
std::string c_vu_file(const visualization::proto::ViewUpdate &m, int i) {
  return m.primitive(i).file_name();
}

}  // namespace probe
