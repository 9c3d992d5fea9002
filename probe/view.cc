// Entry points of the visualization front end, used as analysis roots.
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "resim/actor/state/trajectory.hh"
#include "resim/curves/d_curve.hh"
#include "resim/curves/t_curve.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/framed_vector.hh"
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/view_client_interface.hh"
#include "resim/visualization/view_primitive.hh"

// set_client() is private, and only the tests replace the client
#define private public
#include "resim/visualization/view.hh"
#undef private

namespace probe {
using namespace resim;
using visualization::View;
using visualization::ViewObject;

void v_flush(View &v) { v.flush(); }
bool v_flush_caught(View &v) {
  try {
    v.flush();
  } catch (...) {
    return true;
  }
  return false;
}
bool v_again(View &v, const transforms::SE3 &x) {
  try {
    v << x;
  } catch (...) {
  }
  v.flush();
  return true;
}
void v_set_client(
    View &v,
    std::unique_ptr<visualization::ViewClientInterface> &&c) {
  v.set_client(std::move(c));
}
bool v_instance() { return &View::get_instance() == &resim::view; }
std::optional<std::string> v_name(const std::string &name) { return name; }
std::optional<std::string> v_no_name() { return std::nullopt; }
#define SHOW(NAME, T)                                                        \
  void v_show_##NAME(View &v, const T &x) { v << x; }                        \
  void v_object_##NAME(View &v, const ViewObject<T> &x) { v.view_object(x); } \
  ViewObject<T> v_unnamed_##NAME(const T &x, int line, const char *file) {   \
    return visualization::view_impl(x, file, line);                          \
  }                                                                          \
  ViewObject<T> v_named_##NAME(                                              \
      const T &x, const std::string &name, int line, const char *file) {     \
    return visualization::view_impl(x, name, file, line);                    \
  }                                                                          \
  void v_stream_##NAME(ViewObject<T> &x, const std::string &name) {          \
    x << name;                                                               \
  }                                                                          \
  visualization::ViewPrimitive v_primitive_##NAME(                           \
      const UUID &id, const T &x, const std::optional<std::string> &name,    \
      const std::string &file, int line) {                                   \
    return visualization::ViewPrimitive{                                     \
        .id = id, .payload = x, .user_defined_name = name,                   \
        .file_name = file, .line_number = line};                             \
  }
SHOW(se3, transforms::SE3)
SHOW(so3, transforms::SO3)
SHOW(frame, transforms::Frame<3>)
SHOW(fvec, transforms::FramedVector<3>)
SHOW(dcurve, curves::DCurve<transforms::SE3>)
SHOW(tcurve, curves::TCurve<transforms::SE3>)
SHOW(trajectory, actor::state::Trajectory)

// the place at which the macro was used
// clang-format off
auto v_macro_line(const transforms::SE3 &x, int &line, std::string &file) {
  file = __FILE__;
  line = __LINE__; return VIEW(x);
}
void v_macro_named(const transforms::SE3 &x, const std::string &name, int &line, std::string &file) {
  file = __FILE__;
  line = __LINE__; VIEW(x, name);
}
void v_macro_streamed(const transforms::SE3 &x, const std::string &name, int &line, std::string &file) {
  file = __FILE__;
  line = __LINE__; VIEW(x) << name;
}
// clang-format on

Status c_send(
    visualization::ViewClient &c,
    const visualization::ViewUpdate &update) {
  return c.send_view_update(update);
}
}  // namespace probe
