// Equivalent ways to write the same computation with Eigen.
#include <Eigen/Dense>
#include <cmath>

namespace eq {
using M3 = Eigen::Matrix3d;
using V3 = Eigen::Vector3d;
using V6 = Eigen::Matrix<double, 6, 1>;
using M6 = Eigen::Matrix<double, 6, 6>;

M3 diag_0(const M3 &m, double a) { return m + a * M3::Identity(); }
M3 diag_1(const M3 &m, double a) {
  M3 r = m;
  r.diagonal().array() += a;
  return r;
}
M3 diag_2(const M3 &m, double a) {
  M3 r{m};
  for (int i = 0; i < 3; ++i) {
    r(i, i) += a;
  }
  return r;
}
M3 diag_3(const M3 &m, double a) {
  M3 r = m;
  r += M3::Identity() * a;
  return r;
}
M3 diag_4(const M3 &m, double a) {
  M3 r = m;
  r.diagonal() += V3::Constant(a);
  return r;
}
M3 diag_5(const M3 &m, double a) {
  M3 r = V3::Constant(a).asDiagonal();
  return r + m;
}
M3 diag_6(const M3 &m, double a) {
  M3 r = m;
  r.diagonal() = r.diagonal() + V3(a, a, a);
  return r;
}
M3 diag_x(const M3 &m, double a) {
  M3 r = m;
  r.array() += a;
  return r;
}

double dot_0(const V3 &a, const V3 &b) { return a.dot(b); }
double dot_1(const V3 &a, const V3 &b) { return a.transpose() * b; }
double dot_2(const V3 &a, const V3 &b) {
  return a.x() * b.x() + a.y() * b.y() + a.z() * b.z();
}
double dot_3(const V3 &a, const V3 &b) { return a.cwiseProduct(b).sum(); }
double dot_4(const V3 &a, const V3 &b) {
  double s = 0.;
  for (int i = 0; i < a.size(); ++i) {
    s += a[i] * b(i);
  }
  return s;
}
double dot_5(const V3 &a, const V3 &b) { return (a.array() * b.array()).sum(); }
double dot_6(const V3 &a, const V3 &b) { return (a.transpose() * b).value(); }
double dot_7(const V3 &a, const V3 &b) { return (a.transpose() * b)(0, 0); }
double dot_8(const V3 &a, const V3 &b) { return (a * b.transpose()).trace(); }

double norm_0(const V3 &a) { return a.norm(); }
double norm_1(const V3 &a) { return std::sqrt(a.squaredNorm()); }
double norm_2(const V3 &a) { return std::sqrt(a.dot(a)); }
double norm_3(const V3 &a) { return sqrt(a.array().square().sum()); }
double norm_4(const V3 &a) { return std::sqrt(a.cwiseAbs2().sum()); }
double norm_5(const V3 &a) { return (-a).norm(); }
double norm_6(const V3 &a) {
  return std::sqrt(std::pow(a.x(), 2) + std::pow(a.y(), 2) + std::pow(a.z(), 2));
}

V3 cross_0(const V3 &a, const V3 &b) { return a.cross(b); }
V3 cross_1(const V3 &a, const V3 &b) { return -b.cross(a); }
V3 cross_2(const V3 &a, const V3 &b) {
  return {a.y() * b.z() - a.z() * b.y(), a.z() * b.x() - a.x() * b.z(),
          a.x() * b.y() - a.y() * b.x()};
}
V3 cross_3(const V3 &a, const V3 &b) {
  M3 k;
  k << 0, -a.z(), a.y(), a.z(), 0, -a.x(), -a.y(), a.x(), 0;
  return k * b;
}
V3 cross_4(const V3 &a, const V3 &b) {
  V3 r;
  for (int i = 0; i < 3; ++i) {
    const int j = (i + 1) % 3;
    const int k = (i + 2) % 3;
    r(i) = a(j) * b(k) - a(k) * b(j);
  }
  return r;
}
V3 cross_5(const V3 &a, const V3 &b) {
  M3 k = M3::Zero();
  k(0, 1) = -a[2];
  k(0, 2) = a[1];
  k(1, 2) = -a[0];
  k -= k.transpose().eval();
  return k * b;
}

V6 parts_0(const V3 &a, const V3 &b) {
  V6 r;
  r.head<3>() = a;
  r.tail<3>() = b;
  return r;
}
V6 parts_1(const V3 &a, const V3 &b) {
  V6 r;
  r << a, b;
  return r;
}
V6 parts_2(const V3 &a, const V3 &b) {
  return (V6() << a, b).finished();
}
V6 parts_3(const V3 &a, const V3 &b) {
  V6 r;
  r.segment<3>(0) = a;
  r.segment<3>(3) = b;
  return r;
}
V6 parts_4(const V3 &a, const V3 &b) {
  V6 r;
  for (int i = 0; i < 3; ++i) {
    r[i] = a[i];
    r[i + 3] = b[i];
  }
  return r;
}
V6 parts_5(const V3 &a, const V3 &b) {
  V6 r = V6::Zero();
  r.topRows<3>() += a;
  r.bottomRows<3>() += b;
  return r;
}
V6 parts_6(const V3 &a, const V3 &b) {
  V6 r;
  r.block<3, 1>(0, 0) = a;
  r.block(3, 0, 3, 1) = b;
  return r;
}
V6 parts_7(const V3 &a, const V3 &b) {
  V6 r;
  r.head(3) = a;
  r.tail(3) = b;
  return r;
}
V6 parts_x(const V3 &a, const V3 &b) {
  V6 r;
  r << b, a;
  return r;
}

M6 blocks_0(const M3 &a, const M3 &b) {
  M6 r = M6::Zero();
  r.block<3, 3>(0, 0) = a;
  r.block<3, 3>(3, 0) = b * a;
  r.block<3, 3>(3, 3) = a;
  return r;
}
M6 blocks_1(const M3 &a, const M3 &b) {
  M6 r;
  r << a, M3::Zero(), b * a, a;
  return r;
}
M6 blocks_2(const M3 &a, const M3 &b) {
  M6 r;
  r.setZero();
  r.topLeftCorner<3, 3>() = a;
  r.bottomLeftCorner(3, 3) = b * a;
  r.bottomRightCorner<3, 3>() = r.topLeftCorner<3, 3>();
  return r;
}
M6 blocks_3(const M3 &a, const M3 &b) {
  M6 r{M6::Identity()};
  r.topLeftCorner<3, 3>() *= a;
  r.bottomRightCorner<3, 3>() = a;
  r.bottomLeftCorner<3, 3>().noalias() = b * a;
  return r;
}
M6 blocks_4(const M3 &a, const M3 &b) {
  M6 r = M6::Constant(0.0);
  const auto put = [&r](int i, int j, const M3 &m) { r.block<3, 3>(i, j) = m; };
  put(0, 0, a);
  put(3, 3, a);
  put(3, 0, b * a);
  return r;
}
M6 blocks_5(const M3 &a, const M3 &b) {
  M6 r = M6::Zero();
  const M3 ba = b * a;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      r(i, j) = a(i, j);
      r(i + 3, j + 3) = a(i, j);
      r(i + 3, j) = ba(i, j);
    }
  }
  return r;
}

V3 normalized_0(const V3 &a) { return a.normalized(); }
V3 normalized_1(const V3 &a) {
  V3 r = a;
  r.normalize();
  return r;
}

M3 outer_0(const V3 &a, double c) { return c * a * a.transpose(); }
M3 outer_1(const V3 &a, double c) { return a * (c * a.transpose()); }
M3 outer_2(const V3 &a, double c) {
  M3 r;
  r.col(0) = a * a(0);
  r.col(1) = a * a(1);
  r.col(2) = a * a(2);
  return r * c;
}
M3 outer_3(const V3 &a, double c) {
  M3 r;
  for (int i = 0; i < 3; ++i) {
    r.row(i) = c * a(i) * a.transpose();
  }
  return r;
}
M3 outer_4(const V3 &a, double c) {
  const V3 s = a * c;
  M3 r = M3::NullaryExpr([&](Eigen::Index i, Eigen::Index j) { return s(i) * a(j); });
  return r;
}

V3 lin_0(const V3 &a, const V3 &b, double s) { return a * s + b / 2.0 - a; }
V3 lin_1(const V3 &a, const V3 &b, double s) {
  V3 r = a;
  r *= s - 1;
  r += 0.5 * b;
  return r;
}
V3 lin_2(const V3 &a, const V3 &b, double s) {
  V3 r = s * a;
  r -= a;
  r.noalias() += b * 0.5;
  return r;
}
V3 lin_3(const V3 &a, const V3 &b, double s) {
  return (s - 1.) * a + b.array().matrix() / 2;
}
V3 lin_4(const V3 &a, const V3 &b, double s) {
  V3 r;
  r.x() = a.x() * s + b.x() / 2 - a.x();
  r.y() = a.y() * s + b.y() / 2 - a.y();
  r.z() = a.z() * s + b.z() / 2 - a.z();
  return r;
}
V3 lin_5(const V3 &a, const V3 &b, double s) {
  return a.binaryExpr(b, [s](double x, double y) { return x * s + y / 2 - x; });
}
V3 lin_6(const V3 &a, const V3 &b, double s) {
  V3 r{a};
  V3 t{b};
  std::swap(r, t);
  r /= 2.;
  return r + t * s - t;
}

M3 rot_0(const M3 &m) { return m.transpose(); }
M3 rot_1(const M3 &m) {
  M3 r = m;
  r.transposeInPlace();
  return r;
}
M3 rot_2(const M3 &m) { return m.transpose().eval(); }
M3 rot_3(const M3 &m) {
  M3 r;
  r << m.col(0).transpose(), m.col(1).transpose(), m.col(2).transpose();
  return r;
}
M3 rot_4(const M3 &m) { return m.adjoint(); }

V3 alog_0(const M3 &m) {
  const Eigen::AngleAxisd aa(m);
  return aa.axis() * aa.angle();
}
V3 alog_1(const M3 &m) {
  Eigen::AngleAxisd aa;
  aa.fromRotationMatrix(m);
  return aa.angle() * aa.axis();
}
V3 alog_2(const M3 &m) {
  const Eigen::AngleAxisd aa{m};
  V3 r = aa.axis();
  r *= aa.angle();
  return r;
}
V3 alog_3(const M3 &m) {
  Eigen::AngleAxisd aa;
  aa = m;
  return aa.angle() * aa.axis();
}

M3 aexp_0(const V3 &v) {
  return Eigen::AngleAxisd(v.norm(), v.normalized()).toRotationMatrix();
}
M3 aexp_1(const V3 &v) {
  const double angle = v.norm();
  const V3 axis = v.normalized();
  const Eigen::AngleAxisd aa{angle, axis};
  return aa.matrix();
}
M3 aexp_2(const V3 &v) {
  M3 r;
  r = Eigen::AngleAxisd(v.norm(), v.normalized());
  return r;
}

bool zero_0(const V3 &a) { return a.x() == 0 && a.y() == 0 && a.z() == 0; }
bool zero_1(const V3 &a) { return a == V3::Zero(); }
bool zero_2(const V3 &a) { return (a.array() == 0.0).all(); }
bool zero_3(const V3 &a) { return !(a.array() != 0.0).any(); }
bool zero_4(const V3 &a) { return a.cwiseEqual(V3::Zero()).all(); }
bool zero_5(const V3 &a) { return a.cwiseAbs().maxCoeff() == 0.0; }

double maxabs_0(const V3 &a) { return a.cwiseAbs().maxCoeff(); }
double maxabs_1(const V3 &a) { return a.lpNorm<Eigen::Infinity>(); }
double maxabs_2(const V3 &a) {
  return std::max({std::abs(a.x()), std::abs(a.y()), std::abs(a.z())});
}
double maxabs_3(const V3 &a) { return std::max(a.maxCoeff(), -a.minCoeff()); }
}  // namespace eq
