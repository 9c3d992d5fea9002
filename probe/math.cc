// Entry points of the statistics code, used as analysis roots.
#include <random>
#include <vector>

#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/sample_statistics.hh"
#include "resim/testing/random_matrix.hh"

namespace probe {
using namespace resim;
using math::Gaussian;

Gaussian g_make(const Eigen::VectorXd &mu, const Eigen::MatrixXd &cov) {
  return Gaussian(mu, cov);
}
unsigned int g_dims(const Gaussian &g) { return g.dimensionality(); }
Eigen::VectorXd g_mu(const Gaussian &g) { return g.mu(); }
Eigen::MatrixXd g_cov(const Gaussian &g) { return g.cov(); }
Eigen::VectorXd g_eigenvalues(const Gaussian &g) { return g.eigenvalues(); }
Eigen::MatrixXd g_eigenvectors(const Gaussian &g) { return g.eigenvectors(); }
Eigen::MatrixXd g_roots(const Gaussian &g) { return g.sqrt_eigenvalues_mat(); }
Eigen::MatrixXd g_samples(
    const Eigen::VectorXd &mu,
    const Eigen::MatrixXd &cov,
    unsigned int n) {
  Gaussian g(mu, cov);
  return g.samples(n);
}
std::vector<Eigen::MatrixXd> g_twice(
    const Eigen::VectorXd &mu,
    const Eigen::MatrixXd &cov,
    unsigned int n) {
  Gaussian g(mu, cov);
  std::vector<Eigen::MatrixXd> out;
  out.push_back(g.samples(n));
  out.push_back(g.samples(n));
  return out;
}
std::vector<Eigen::MatrixXd> g_sample(
    const Eigen::VectorXd &mu,
    const Eigen::MatrixXd &cov) {
  Gaussian g(mu, cov);
  std::vector<Eigen::MatrixXd> out;
  out.push_back(g.sample());
  out.push_back(g.sample());
  return out;
}

Eigen::VectorXd n_mean(const Eigen::MatrixXd &x) { return math::mean(x); }
Eigen::MatrixXd n_cov(const Eigen::MatrixXd &x) { return math::covariance(x); }

template <typename M>
std::vector<M> two_random(std::mt19937 &rng) {
  std::vector<M> out;
  out.push_back(testing::random_matrix<M>(rng));
  out.push_back(testing::random_matrix<M>(rng));
  return out;
}
std::vector<Eigen::Vector3d> r_vector(std::mt19937 &rng) {
  std::vector<Eigen::Vector3d> out;
  out.push_back(testing::random_vector<Eigen::Vector3d>(rng));
  out.push_back(testing::random_vector<Eigen::Vector3d>(rng));
  return out;
}
std::vector<Eigen::Matrix3d> r_matrix(std::mt19937 &rng) {
  return two_random<Eigen::Matrix3d>(rng);
}
std::vector<Eigen::Vector2d> r_given(std::mt19937 &rng, double mean, double dev) {
  std::normal_distribution<double> dist{mean, dev};
  std::vector<Eigen::Vector2d> out;
  out.push_back(testing::random_vector<Eigen::Vector2d>(rng, dist));
  out.push_back(testing::random_vector<Eigen::Vector2d>(rng, dist));
  return out;
}
double r_quaternion_norm(std::mt19937 &rng) {
  return testing::random_quaternion(rng).coeffs().squaredNorm();
}
}  // namespace probe
