// Entry points of the assertion and utility libraries, used as analysis roots.
#include <string>
#include <type_traits>
#include <variant>

#include "resim/utils/inout.hh"
#include "resim/utils/match.hh"
#include "resim/utils/nullable_reference.hh"

namespace probe {
using namespace resim;

// ---- match
using Var = std::variant<int64_t, double, std::string>;
Var m_int(int64_t x) { return Var(x); }
Var m_real(double x) { return Var(x); }
Var m_str(const std::string &x) { return Var(x); }
int m_which(const Var &v) {
  return match(
      v,
      [](const std::string &) { return 2; },
      [](const int64_t &) { return 0; },
      [](const double &) { return 1; });
}
int64_t m_value(const Var &v) {
  return match(
      v,
      [](const double &) -> int64_t { return 0; },
      [](const int64_t &x) -> int64_t { return x; },
      [](const std::string &) -> int64_t { return 0; });
}
bool m_reference(const Var &v, const int64_t &dflt) {
  const int64_t &r = match(
      v,
      [](const int64_t &x) -> const int64_t & { return x; },
      [&](const double &) -> const int64_t & { return dflt; },
      [&](const std::string &) -> const int64_t & { return dflt; });
  return &r == &dflt;
}

// variants of small plain types, constant and not: the branch sees the object
// held, not a copy
using Plain = std::variant<int64_t, double>;
bool m_plain_same(const Plain &v) {
  const void *p = match(
      v,
      [](const int64_t &x) -> const void * { return &x; },
      [](const double &x) -> const void * { return &x; });
  const void *q = std::holds_alternative<int64_t>(v)
                      ? static_cast<const void *>(&std::get<int64_t>(v))
                      : static_cast<const void *>(&std::get<double>(v));
  return p == q;
}
void m_plain_write(Plain &v, int64_t x, double y) {
  match(v, [&](auto &&held) {
    if constexpr (std::is_same_v<std::decay_t<decltype(held)>, int64_t>) {
      held = x;
    } else {
      held = y;
    }
  });
}
Plain m_plain_int(int64_t x) { return Plain(x); }
Plain m_plain_real(double x) { return Plain(x); }
void m_write(Var &v, int64_t x) {
  match(v, [&](auto &&held) {
    if constexpr (std::is_same_v<std::decay_t<decltype(held)>, int64_t>) {
      held = x;
    }
  });
}
std::string m_moved(Var v) {
  return match(
      std::move(v),
      [](std::string &&x) -> std::string { return std::move(x); },
      [](int64_t &&) -> std::string { return "int"; },
      [](double &&) -> std::string { return "real"; });
}

// ---- references
bool w_inout_pointer() {
  return std::is_constructible_v<InOut<int64_t>, int64_t *>;
}
bool w_inout_implicit() {
  return std::is_convertible_v<int64_t &, InOut<int64_t>>;
}
bool w_inout_const() {
  return std::is_constructible_v<InOut<int64_t>, const int64_t &> or
         std::is_constructible_v<InOut<int64_t>, int64_t &&>;
}
bool w_inout_default() {
  return std::is_default_constructible_v<InOut<int64_t>>;
}
bool w_null_implicit() {
  return std::is_convertible_v<int64_t &, NullableReference<int64_t>>;
}
bool w_null_const() {
  return std::is_constructible_v<NullableReference<int64_t>, const int64_t &> or
         std::is_constructible_v<NullableReference<int64_t>, int64_t &&>;
}
bool w_null_number() {
  return std::is_convertible_v<NullableReference<int64_t>, int>;
}
void r_inout_write(int64_t &x, int64_t y) { *InOut<int64_t>{x} = y; }
bool r_inout_same(int64_t &x) {
  InOut<int64_t> r{x};
  return &*r == &x;
}
struct Holder {
  int64_t member;
};
void r_inout_member(Holder &h, int64_t y) { InOut<Holder>{h}->member = y; }
bool r_null_has(int64_t &x) { return NullableReference<int64_t>{x}.has_value(); }
bool r_null_bool(int64_t &x) {
  return static_cast<bool>(NullableReference<int64_t>{x});
}
bool r_null_empty() { return NullableReference<int64_t>{}.has_value(); }
bool r_null_empty_bool() {
  return static_cast<bool>(NullableReference<int64_t>{});
}
bool r_null_constant() { return null_reference<int64_t>.has_value(); }
int64_t r_null_get(int64_t &x) { return *NullableReference<int64_t>{x}; }
void r_null_write(int64_t &x, int64_t y) { *NullableReference<int64_t>{x} = y; }
int64_t r_null_arrow(Holder &h) { return NullableReference<Holder>{h}->member; }
bool r_null_same(int64_t &x) {
  NullableReference<int64_t> r{x};
  return &*r == &x;
}
int64_t r_null_deref_empty() { return *NullableReference<int64_t>{}; }
int64_t r_null_arrow_empty() { return NullableReference<Holder>{}->member; }
using ConstRef = NullableReference<const int64_t>;
bool r_nullc_same(const int64_t &x) {
  const ConstRef r{x};
  return &*r == &x;
}
bool r_nullc_has(const int64_t &x) { return ConstRef{x}.has_value(); }
bool r_nullc_empty() { return ConstRef{}.has_value(); }
int64_t r_nullc_arrow(const Holder &h) {
  return NullableReference<const Holder>{h}->member;
}
int64_t r_nullc_deref_empty() { return *ConstRef{}; }
int64_t r_nullc_arrow_empty() {
  return NullableReference<const Holder>{}->member;
}
bool r_null_pointer_empty() {
  return NullableReference<int64_t>{}.operator->() == nullptr;
}
bool r_nullc_pointer_empty() { return ConstRef{}.operator->() == nullptr; }
int64_t r_null_constant_deref() { return *null_reference<int64_t>; }
bool r_null_copy_same(int64_t &x) {
  const NullableReference<int64_t> r{x};
  const NullableReference<int64_t> s{r};
  return &*s == &x;
}
bool r_null_reseat(int64_t &x, int64_t &y) {
  NullableReference<int64_t> r{x};
  r = NullableReference<int64_t>{y};
  return &*r == &y;
}
bool r_inout_arrow_same(Holder &h) {
  InOut<Holder> r{h};
  return r.operator->() == &h;
}
}  // namespace probe
