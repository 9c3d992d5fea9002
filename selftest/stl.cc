// Equivalent ways to write the same computation with the standard library.
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <functional>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace eq {
struct P {
  double t;
  int id;
};

// ---- summing
double total_0(const std::vector<double> &xs) {
  double s = 0;
  for (double x : xs) {
    s += x;
  }
  return s;
}
double total_1(const std::vector<double> &xs) { return std::accumulate(xs.begin(), xs.end(), 0.); }
double total_2(const std::vector<double> &xs) {
  double s = 0;
  for (std::size_t i = 0; i < xs.size(); ++i) {
    s = s + xs[i];
  }
  return s;
}
double total_3(const std::vector<double> &xs) {
  double s = 0;
  for (auto it = xs.begin(); it != xs.end(); ++it) {
    s += *it;
  }
  return s;
}
double total_4(const std::vector<double> &xs) {
  double s = 0;
  std::for_each(xs.begin(), xs.end(), [&s](double x) { s += x; });
  return s;
}
double total_5(const std::vector<double> &xs) {
  return std::accumulate(xs.cbegin(), xs.cend(), 0., [](double a, double b) { return a + b; });
}
double total_6(const std::vector<double> &xs) {
  double s = 0;
  std::size_t i = 0;
  while (i < xs.size()) {
    s += xs.at(i++);
  }
  return s;
}
double total_7(const std::vector<double> &xs) {
  double s = 0;
  for (std::size_t i = xs.size(); i > 0; --i) {
    s += xs[i - 1];
  }
  return s;
}
double total_8(const std::vector<double> &xs) { return std::reduce(xs.begin(), xs.end()); }
double total_x(const std::vector<double> &xs) {
  double s = 0;
  for (std::size_t i = 1; i < xs.size(); ++i) {
    s += xs[i];
  }
  return s;
}

// ---- searching
bool has_0(const std::vector<P> &xs, int id) {
  for (const P &p : xs) {
    if (p.id == id) {
      return true;
    }
  }
  return false;
}
bool has_1(const std::vector<P> &xs, int id) {
  return std::any_of(xs.begin(), xs.end(), [&](const auto &p) { return p.id == id; });
}
bool has_2(const std::vector<P> &xs, int id) {
  return std::find_if(xs.begin(), xs.end(), [id](const P &p) { return id == p.id; }) != xs.end();
}
bool has_3(const std::vector<P> &xs, int id) {
  bool found = false;
  for (const P &p : xs) {
    if (p.id == id) {
      found = true;
      break;
    }
  }
  return found;
}
bool has_4(const std::vector<P> &xs, int id) {
  return !std::none_of(xs.begin(), xs.end(), [&](const auto &p) { return p.id == id; });
}
bool has_5(const std::vector<P> &xs, int id) {
  return !std::all_of(xs.begin(), xs.end(), [&](const auto &p) { return p.id != id; });
}
bool has_6(const std::vector<P> &xs, int id) {
  bool found = false;
  for (const P &p : xs) {
    found = found || p.id == id;
  }
  return found;
}
bool has_7(const std::vector<P> &xs, int id) {
  std::size_t i = 0;
  while (i < xs.size() && xs[i].id != id) {
    ++i;
  }
  return i < xs.size();
}
bool has_8(const std::vector<P> &xs, int id) {
  return std::count_if(xs.begin(), xs.end(), [&](const auto &p) { return p.id == id; }) > 0;
}
bool has_9(const std::vector<P> &xs, int id) {
  bool found = false;
  for (std::size_t i = 0; !found && i < xs.size(); ++i) {
    found = xs[i].id == id;
  }
  return found;
}
bool has_x(const std::vector<P> &xs, int id) {
  for (std::size_t i = 0; i + 1 < xs.size(); ++i) {
    if (xs[i].id == id) {
      return true;
    }
  }
  return false;
}

// ---- the first element satisfying a condition
double firstover_0(const std::vector<P> &xs, double t) {
  for (const auto &p : xs) {
    if (p.t > t) {
      return p.t;
    }
  }
  return -1;
}
double firstover_1(const std::vector<P> &xs, double t) {
  const auto it = std::find_if(xs.begin(), xs.end(), [&](const P &p) { return p.t > t; });
  return it == xs.end() ? -1. : it->t;
}
double firstover_2(const std::vector<P> &xs, double t) {
  auto it = xs.cbegin();
  while (it != xs.cend() && !(it->t > t)) {
    it++;
  }
  if (it == xs.cend()) {
    return -1;
  }
  return (*it).t;
}
double firstover_3(const std::vector<P> &xs, double t) {
  std::size_t i = 0;
  for (; i < xs.size(); ++i) {
    if (t < xs[i].t) {
      break;
    }
  }
  return i < xs.size() ? xs[i].t : -1;
}
double firstover_4(const std::vector<P> &xs, double t) {
  const P *found = nullptr;
  for (const auto &p : xs) {
    if (p.t > t) {
      found = &p;
      break;
    }
  }
  return found == nullptr ? -1 : found->t;
}
double firstover_5(const std::vector<P> &xs, double t) {
  std::optional<double> found;
  for (const auto &p : xs) {
    if (!found.has_value() && p.t > t) {
      found = p.t;
    }
  }
  return found.value_or(-1.);
}
double firstover_x(const std::vector<P> &xs, double t) {
  double r = -1;
  for (const auto &p : xs) {
    if (p.t > t) {
      r = p.t;
    }
  }
  return r;
}

// ---- building a vector
std::vector<double> twice_0(const std::vector<double> &xs) {
  std::vector<double> r;
  r.reserve(xs.size());
  for (const double x : xs) {
    r.push_back(2 * x);
  }
  return r;
}
std::vector<double> twice_1(const std::vector<double> &xs) {
  std::vector<double> r(xs.size());
  std::transform(xs.begin(), xs.end(), r.begin(), [](double x) { return 2 * x; });
  return r;
}
std::vector<double> twice_2(const std::vector<double> &xs) {
  std::vector<double> r;
  std::transform(xs.begin(), xs.end(), std::back_inserter(r), [](double x) { return x + x; });
  return r;
}
std::vector<double> twice_3(const std::vector<double> &xs) {
  std::vector<double> r(xs.size(), 0.);
  for (std::size_t i = 0; i < xs.size(); ++i) {
    r[i] = xs[i] * 2;
  }
  return r;
}
std::vector<double> twice_4(const std::vector<double> &xs) {
  std::vector<double> r = xs;
  for (double &x : r) {
    x *= 2;
  }
  return r;
}
std::vector<double> twice_5(const std::vector<double> &xs) {
  std::vector<double> r;
  for (std::size_t i = 0; i < xs.size(); i++) {
    r.emplace_back(xs.at(i) * 2.);
  }
  return r;
}
std::vector<double> twice_6(std::vector<double> xs) {
  std::for_each(xs.begin(), xs.end(), [](double &x) { x *= 2; });
  return xs;
}
std::vector<double> twice_7(const std::vector<double> &xs) {
  std::vector<double> r;
  r.resize(xs.size());
  for (std::size_t i = 0; i < r.size(); ++i) {
    r.at(i) = 2 * xs.at(i);
  }
  return r;
}
std::vector<double> twice_x(const std::vector<double> &xs) {
  std::vector<double> r;
  for (const double x : xs) {
    if (x != 0) {
      r.push_back(2 * x);
    }
  }
  return r;
}

// ---- filtering
std::vector<double> pos_0(const std::vector<double> &xs) {
  std::vector<double> r;
  for (double x : xs) {
    if (x > 0) {
      r.push_back(x);
    }
  }
  return r;
}
std::vector<double> pos_1(const std::vector<double> &xs) {
  std::vector<double> r;
  std::copy_if(xs.begin(), xs.end(), std::back_inserter(r), [](double x) { return x > 0; });
  return r;
}
std::vector<double> pos_2(const std::vector<double> &xs) {
  std::vector<double> r;
  for (double x : xs) {
    if (x <= 0) {
      continue;
    }
    r.push_back(x);
  }
  return r;
}
std::vector<double> pos_3(std::vector<double> xs) {
  xs.erase(std::remove_if(xs.begin(), xs.end(), [](double x) { return !(x > 0); }), xs.end());
  return xs;
}
std::vector<double> pos_4(std::vector<double> xs) {
  std::erase_if(xs, [](double x) { return !(x > 0); });
  return xs;
}
std::vector<double> pos_x(const std::vector<double> &xs) {
  std::vector<double> r;
  for (double x : xs) {
    if (x >= 0) {
      r.push_back(x);
    }
  }
  return r;
}

// ---- joining
std::vector<int> join_0(const std::vector<int> &a, const std::vector<int> &b) {
  std::vector<int> r = a;
  r.insert(r.end(), b.begin(), b.end());
  return r;
}
std::vector<int> join_1(std::vector<int> a, const std::vector<int> &b) {
  for (int x : b) {
    a.push_back(x);
  }
  return a;
}
std::vector<int> join_2(const std::vector<int> &a, const std::vector<int> &b) {
  std::vector<int> r;
  r.reserve(a.size() + b.size());
  std::copy(a.begin(), a.end(), std::back_inserter(r));
  std::copy(b.begin(), b.end(), std::back_inserter(r));
  return r;
}
std::vector<int> join_3(const std::vector<int> &a, const std::vector<int> &b) {
  std::vector<int> r;
  for (const auto *v : {&a, &b}) {
    for (int x : *v) {
      r.push_back(x);
    }
  }
  return r;
}
std::vector<int> join_x(const std::vector<int> &a, const std::vector<int> &b) {
  std::vector<int> r = b;
  r.insert(r.end(), a.begin(), a.end());
  return r;
}

// ---- counting
int count_0(const std::vector<P> &xs, double t) {
  int n = 0;
  for (const auto &p : xs) {
    if (p.t < t) {
      ++n;
    }
  }
  return n;
}
int count_1(const std::vector<P> &xs, double t) {
  return static_cast<int>(std::count_if(xs.begin(), xs.end(), [t](const P &p) { return p.t < t; }));
}
int count_2(const std::vector<P> &xs, double t) {
  int n = 0;
  for (const auto &p : xs) {
    n += p.t < t ? 1 : 0;
  }
  return n;
}
int count_3(const std::vector<P> &xs, double t) {
  return std::accumulate(xs.begin(), xs.end(), 0, [t](int n, const P &p) { return n + static_cast<int>(p.t < t); });
}
int count_x(const std::vector<P> &xs, double t) {
  int n = 0;
  for (const auto &p : xs) {
    if (p.t <= t) {
      ++n;
    }
  }
  return n;
}

// ---- maximum
double biggest_0(const std::vector<double> &xs) {
  double m = 0;
  for (double x : xs) {
    if (x > m) {
      m = x;
    }
  }
  return m;
}
double biggest_1(const std::vector<double> &xs) {
  double m = 0;
  for (double x : xs) {
    m = std::max(m, x);
  }
  return m;
}
double biggest_2(const std::vector<double> &xs) {
  return std::accumulate(xs.begin(), xs.end(), 0., [](double a, double b) { return std::max(a, b); });
}
double biggest_3(const std::vector<double> &xs) {
  if (xs.empty()) {
    return 0;
  }
  return std::max(0., *std::max_element(xs.begin(), xs.end()));
}
double biggest_x(const std::vector<double> &xs) {
  double m = 0;
  for (double x : xs) {
    m = x;
  }
  return m;
}

// ---- optional
std::optional<int> half_0(int x) {
  if (x % 2 == 0) {
    return x / 2;
  }
  return std::nullopt;
}
std::optional<int> half_1(int x) {
  std::optional<int> r;
  if (!(x % 2)) {
    r.emplace(x / 2);
  }
  return r;
}
std::optional<int> half_2(int x) { return x % 2 != 0 ? std::nullopt : std::make_optional(x / 2); }
std::optional<int> half_3(int x) {
  std::optional<int> r{x / 2};
  if (x % 2 != 0) {
    r.reset();
  }
  return r;
}
std::optional<int> half_x(int x) {
  if (x % 2 == 1) {
    return std::nullopt;
  }
  return x / 2;
}

int orzero_0(const std::optional<int> &x) { return x.value_or(0); }
int orzero_1(const std::optional<int> &x) { return x.has_value() ? *x : 0; }
int orzero_2(const std::optional<int> &x) { return x ? x.value() : 0; }
int orzero_3(const std::optional<int> &x) {
  if (x == std::nullopt) {
    return 0;
  }
  return *x;
}
int orzero_x(const std::optional<int> &x) { return x.value_or(1); }

// ---- variant
using Var = std::variant<int, double>;
double asd_0(const Var &v) {
  return std::visit([](auto x) { return static_cast<double>(x); }, v);
}
double asd_1(const Var &v) {
  if (std::holds_alternative<int>(v)) {
    return std::get<int>(v);
  }
  return std::get<double>(v);
}
double asd_2(const Var &v) {
  if (const int *p = std::get_if<int>(&v)) {
    return *p;
  }
  return *std::get_if<1>(&v);
}
double asd_3(const Var &v) {
  switch (v.index()) {
    case 0:
      return std::get<0>(v);
    default:
      return std::get<1>(v);
  }
}
double asd_4(const Var &v) { return v.index() == 0 ? std::get<0>(v) : std::get<1>(v); }
double asd_x(const Var &v) {
  if (std::holds_alternative<int>(v)) {
    return 0;
  }
  return std::get<double>(v);
}

// ---- switches
enum class E { A, B, C };
int code_0(E e) {
  switch (e) {
    case E::A:
      return 1;
    case E::B:
      return 2;
    default:
      return 3;
  }
}
int code_1(E e) {
  if (e == E::A) {
    return 1;
  }
  if (e == E::B) {
    return 2;
  }
  return 3;
}
int code_2(E e) { return e == E::A ? 1 : e == E::B ? 2 : 3; }
int code_3(E e) {
  int r = 3;
  switch (e) {
    case E::B:
      r = 2;
      break;
    case E::A:
      r = 1;
      break;
    default:
      break;
  }
  return r;
}
int code_x(E e) { return e == E::A ? 1 : e == E::B ? 3 : 2; }

// ---- throwing
int checked_0(int x) {
  if (x < 0) {
    throw std::invalid_argument("negative");
  }
  return x + 1;
}
int checked_1(int x) {
  const bool ok = x >= 0;
  if (not ok) {
    throw std::invalid_argument("negative");
  }
  int r = x;
  r += 1;
  return r;
}
int checked_2(int x) {
  return x < 0 ? throw std::invalid_argument("negative") : 1 + x;
}
int checked_3(int x) {
  const auto check = [](int y) {
    if (y < 0) {
      throw std::invalid_argument("negative");
    }
  };
  check(x);
  return x - -1;
}
int checked_x(int x) {
  if (x <= 0) {
    throw std::invalid_argument("negative");
  }
  return x + 1;
}

// ---- pairs, tuples
std::pair<double, double> mm_0(double a, double b) { return {std::min(a, b), std::max(a, b)}; }
std::pair<double, double> mm_1(double a, double b) {
  if (b < a) {
    std::swap(a, b);
  }
  return std::make_pair(a, b);
}
std::pair<double, double> mm_2(double a, double b) { return std::minmax(a, b); }
std::pair<double, double> mm_3(double a, double b) {
  std::pair<double, double> r{a, b};
  if (a > b) {
    r = {b, a};
  }
  return r;
}
std::pair<double, double> mm_4(double a, double b) {
  double lo{};
  double hi{};
  std::tie(lo, hi) = a < b ? std::make_tuple(a, b) : std::make_tuple(b, a);
  return {lo, hi};
}
std::pair<double, double> mm_5(double a, double b) {
  const auto [lo, hi] = std::tuple{a < b ? a : b, a < b ? b : a};
  return {lo, hi};
}
std::pair<double, double> mm_x(double a, double b) { return {std::max(a, b), std::min(a, b)}; }

// ---- unique / shared pointers
struct Leaf {
  int v;
};
struct Node {
  int v;
  std::shared_ptr<Leaf> next;
};
int second_0(const Node &n) { return n.next ? n.next->v : n.v; }
int second_1(const Node &n) {
  if (n.next != nullptr) {
    return (*n.next).v;
  }
  return n.v;
}
int second_2(const Node &n) {
  const Leaf *p = n.next.get();
  return p == nullptr ? n.v : p->v;
}
int second_3(const Node &n) {
  std::shared_ptr<Leaf> p = n.next;
  if (!p) {
    return n.v;
  }
  const Leaf &q = *p;
  return q.v;
}
int second_x(const Node &n) { return n.v; }

int boxed_0(int x) { return x * 3; }
int boxed_1(int x) {
  auto p = std::make_unique<int>(x);
  *p *= 3;
  return *p;
}
int boxed_2(int x) {
  const std::shared_ptr<int> p = std::make_shared<int>(x);
  const std::shared_ptr<int> q = p;
  *q = *p * 3;
  return *p;
}
int boxed_3(int x) {
  std::unique_ptr<int> p{new int{x}};
  std::unique_ptr<int> q = std::move(p);
  return p ? 0 : 3 * *q;
}
int boxed_x(int x) {
  auto p = std::make_unique<int>(x);
  auto q = std::make_unique<int>(*p);
  *q *= 3;
  return *p;
}

// ---- lambdas, function objects, recursion
double poly_0(double x, const std::array<double, 4> &c) { return c[0] + c[1] * x + c[2] * x * x + c[3] * x * x * x; }
double poly_1(double x, const std::array<double, 4> &c) {
  double r = 0;
  for (int i = 3; i >= 0; --i) {
    r = r * x + c.at(i);
  }
  return r;
}
double poly_2(double x, const std::array<double, 4> &c) {
  double r = 0;
  double p = 1;
  for (const double a : c) {
    r += a * p;
    p *= x;
  }
  return r;
}
double poly_3(double x, const std::array<double, 4> &c) {
  double r = 0;
  for (std::size_t i = 0; i < c.size(); ++i) {
    r += c[i] * std::pow(x, i);
  }
  return r;
}
double poly_4(double x, const std::array<double, 4> &c) {
  return std::accumulate(c.rbegin(), c.rend(), 0., [x](double a, double b) { return a * x + b; });
}
double poly_5(double x, const std::array<double, 4> &c) {
  return std::inner_product(c.begin(), c.end(), std::array<double, 4>{1., x, x * x, x * x * x}.begin(), 0.);
}
double poly_x(double x, const std::array<double, 4> &c) {
  double r = 0;
  for (int i = 3; i > 0; --i) {
    r = r * x + c.at(i);
  }
  return r;
}

int fact_0(int n) {
  int r = 1;
  for (int i = 2; i <= n; ++i) {
    r *= i;
  }
  return r;
}
int fact_1(int n) {
  int r = 1;
  while (n > 1) {
    r *= n--;
  }
  return r;
}
int fact_x(int n) {
  int r = 1;
  for (int i = 2; i < n; ++i) {
    r *= i;
  }
  return r;
}

int apply_0(int x) { return 2 * x + 1; }
int apply_1(int x) {
  const std::function<int(int)> f = [](int y) { return 2 * y; };
  return f(x) + 1;
}
int apply_2(int x) {
  const auto f = [x]() { return x * 2; };
  const auto g = [&f](int k) { return f() + k; };
  return g(1);
}
int apply_3(int x) {
  int r = 0;
  const auto addto = [&r](int y) -> void { r += y; };
  addto(x);
  addto(x);
  addto(1);
  return r;
}
int apply_4(int x) {
  return [](int y) { return 1 + y; }(x + x);
}
int apply_x(int x) {
  int r = 0;
  auto addto = [r](int y) mutable { r += y; };
  addto(x);
  addto(x);
  addto(1);
  return r;
}

// ---- out-parameters
void divmod(int a, int b, int *q, int &r) {
  *q = a / b;
  r = a % b;
}
int dm_0(int a) { return a / 7 * 100 + a % 7; }
int dm_1(int a) {
  int q = 0;
  int r = 0;
  divmod(a, 7, &q, r);
  return q * 100 + r;
}
int dm_2(int a) {
  const int q = a / 7;
  const int r = a - q * 7;
  return 100 * q + r;
}
int dm_x(int a) {
  int q = 0;
  int r = 0;
  divmod(a, 7, &r, q);
  return q * 100 + r;
}

// ---- strings
std::string greet_0(const std::string &n) { return "hello " + n + "!"; }
std::string greet_1(const std::string &n) {
  std::string r{"hello "};
  r += n;
  r.push_back('!');
  return r;
}
std::string greet_2(const std::string &n) {
  std::string r;
  r.append("hello ").append(n).append("!");
  return r;
}
std::string greet_x(const std::string &n) { return "hello " + n; }

bool startsq_0(const std::string &n) { return n.empty(); }
bool startsq_1(const std::string &n) { return n == ""; }
bool startsq_2(const std::string &n) { return n.size() == 0; }
bool startsq_3(const std::string &n) { return n.length() < 1; }
bool startsq_x(const std::string &n) { return !n.empty(); }

// ---- time
std::int64_t ns_0(std::chrono::nanoseconds d) { return d.count(); }
std::int64_t ns_1(std::chrono::nanoseconds d) { return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }
std::int64_t ns_2(std::chrono::nanoseconds d) { return d / std::chrono::nanoseconds{1}; }
std::int64_t ns_x(std::chrono::nanoseconds d) { return -d.count(); }

double secs_0(std::chrono::nanoseconds d) { return std::chrono::duration<double>(d).count(); }
double secs_1(std::chrono::nanoseconds d) {
  return std::chrono::duration_cast<std::chrono::duration<double>>(d).count();
}
double secs_2(std::chrono::nanoseconds d) { return static_cast<double>(d.count()) / 1e9; }
double secs_3(std::chrono::nanoseconds d) {
  using S = std::chrono::duration<double, std::ratio<1>>;
  const S s = d;
  return s.count();
}
double secs_x(std::chrono::nanoseconds d) {
  return static_cast<double>(std::chrono::duration_cast<std::chrono::seconds>(d).count());
}

// ---- numbers
double clamp_0(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
double clamp_1(double x) { return std::clamp(x, 0., 1.); }
double clamp_2(double x) { return std::min(1., std::max(0., x)); }
double clamp_3(double x) {
  if (x <= 0.) {
    return 0.;
  }
  return x >= 1. ? 1. : x;
}
double clamp_4(double x) { return std::fmax(0., std::fmin(x, 1.)); }
double clamp_x(double x) { return x < 0 ? 0 : x; }

double mag_0(double x, double y) { return std::sqrt(x * x + y * y); }
double mag_1(double x, double y) { return std::hypot(x, y); }
double mag_2(double x, double y) { return std::pow(std::pow(x, 2) + std::pow(y, 2), 0.5); }
double mag_x(double x, double y) { return x * x + y * y; }

bool fin_0(double x) { return std::isfinite(x); }
bool fin_1(double x) { return !(std::isnan(x) || std::isinf(x)); }

double cube_0(double x) { return x * x * x; }
double cube_1(double x) { return std::pow(x, 3); }
double cube_2(double x) { return std::pow(x, 3.); }
double cube_3(double x) { return x * std::pow(x, 2); }
double cube_x(double x) { return std::pow(x, 2); }

double recip_0(double x) { return 1 / (x * x + 1); }
double recip_1(double x) { return std::pow(x * x + 1, -1); }
double recip_2(double x) {
  const double d = 1. + x * x;
  return 1. / d;
}
double recip_x(double x) { return 1 / (x * x + 2); }

int sgn_0(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
int sgn_1(double x) { return static_cast<int>(x > 0) - static_cast<int>(x < 0); }
int sgn_2(double x) { return (0. < x) - (x < 0.); }
int sgn_x(double x) { return x > 0 ? 1 : -1; }

// ---- sorted insertion and search
std::size_t lb_0(const std::vector<double> &xs, double t) {
  return static_cast<std::size_t>(std::lower_bound(xs.begin(), xs.end(), t) - xs.begin());
}
std::size_t lb_1(const std::vector<double> &xs, double t) {
  return std::distance(xs.begin(), std::lower_bound(xs.begin(), xs.end(), t, [](double a, double b) { return a < b; }));
}
std::size_t lb_2(const std::vector<double> &xs, double t) {
  return std::partition_point(xs.begin(), xs.end(), [t](double a) { return a < t; }) - xs.begin();
}
std::size_t lb_x(const std::vector<double> &xs, double t) {
  return static_cast<std::size_t>(std::upper_bound(xs.begin(), xs.end(), t) - xs.begin());
}

// ---- classes
class Acc {
 public:
  explicit Acc(double s) : sum_{s} {}
  Acc &add(double x) {
    sum_ += x;
    ++n_;
    return *this;
  }
  [[nodiscard]] double mean() const { return sum_ / n_; }

 private:
  double sum_;
  int n_{0};
};
double avg_0(double a, double b) { return (a + b) / 2; }
double avg_1(double a, double b) { return Acc{0}.add(a).add(b).mean(); }
double avg_2(double a, double b) {
  Acc acc(a);
  acc.add(b);
  acc.add(0);
  return acc.mean();
}
double avg_x(double a, double b) {
  Acc acc(a);
  acc.add(b);
  return acc.mean();
}

// ---- swapping and moving
std::vector<int> take_0(std::vector<int> &xs) {
  std::vector<int> r = xs;
  xs.clear();
  return r;
}
std::vector<int> take_1(std::vector<int> &xs) {
  std::vector<int> r;
  std::swap(r, xs);
  return r;
}
std::vector<int> take_2(std::vector<int> &xs) { return std::exchange(xs, {}); }
std::vector<int> take_3(std::vector<int> &xs) {
  std::vector<int> r = std::move(xs);
  xs = {};
  return r;
}
std::vector<int> take_4(std::vector<int> &xs) {
  std::vector<int> r;
  r.swap(xs);
  return r;
}
std::vector<int> take_5(std::vector<int> &xs) {
  std::vector<int> r(xs.begin(), xs.end());
  xs.erase(xs.begin(), xs.end());
  return r;
}
std::vector<int> take_x(std::vector<int> &xs) { return xs; }

// ---- pairwise
bool incr_0(const std::vector<double> &xs) {
  for (std::size_t i = 1; i < xs.size(); ++i) {
    if (!(xs[i - 1] < xs[i])) {
      return false;
    }
  }
  return true;
}
bool incr_1(const std::vector<double> &xs) {
  for (std::size_t i = 0; i + 1 < xs.size(); ++i) {
    if (xs[i + 1] <= xs[i]) {
      return false;
    }
  }
  return true;
}
bool incr_2(const std::vector<double> &xs) {
  return std::adjacent_find(xs.begin(), xs.end(), [](double a, double b) { return !(a < b); }) == xs.end();
}
bool incr_3(const std::vector<double> &xs) {
  bool ok = true;
  for (std::size_t i = 1; i < xs.size(); ++i) {
    ok = ok && xs[i] > xs[i - 1];
  }
  return ok;
}
bool incr_x(const std::vector<double> &xs) {
  for (std::size_t i = 1; i < xs.size(); ++i) {
    if (xs[i] < xs[i - 1]) {
      return false;
    }
  }
  return true;
}

// ---- nested containers
double total2_0(const std::vector<std::vector<double>> &xs) {
  double s = 0;
  for (const auto &ys : xs) {
    for (double y : ys) {
      s += y;
    }
  }
  return s;
}
double total2_1(const std::vector<std::vector<double>> &xs) {
  double s = 0;
  for (const auto &ys : xs) {
    s += std::accumulate(ys.begin(), ys.end(), 0.);
  }
  return s;
}
double total2_x(const std::vector<std::vector<double>> &xs) {
  double s = 0;
  for (const auto &ys : xs) {
    s = std::accumulate(ys.begin(), ys.end(), 0.);
  }
  return s;
}

// ---- do/while
int digits_0(unsigned n) {
  int r = 1;
  while (n >= 10) {
    n /= 10;
    ++r;
  }
  return r;
}
int digits_1(unsigned n) {
  int r = 0;
  do {
    n /= 10;
    ++r;
  } while (n != 0);
  return r;
}

int firstpow_0(int n) {
  if (n > 30) {
    n = 30;
  }
  int i = 0;
  while (i * i < n) {
    ++i;
  }
  return i;
}
int firstpow_1(int n) {
  if (n > 30) {
    n = 30;
  }
  for (int i = 0;; ++i) {
    if (i * i >= n) {
      return i;
    }
  }
}
}  // namespace eq
