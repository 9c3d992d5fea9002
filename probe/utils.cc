// Entry points of the assertion and utility libraries, used as analysis roots.
#include <string>
#include <type_traits>
#include <variant>

#include "resim/assert/assert.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"

namespace probe {
using namespace resim;

// ---- assertions
int64_t a_once(int64_t &n) {
  REASSERT(++n > 0, "message");
  REASSERT(++n > 0);
  return n;
}
void a_either(bool a, bool b) { REASSERT(a or b); }
void a_choice(bool a, bool b, bool c) { REASSERT(a ? b : c, "message"); }
int64_t a_branch(bool outer, bool inner, bool cond) {
  if (outer)
    if (inner)
      REASSERT(cond);
    else
      return 1;
  return 2;
}
int64_t a_branch_message(bool outer, bool cond) {
  if (outer)
    REASSERT(cond, "message");
  else
    return 1;
  return 2;
}
void a_plain(bool c) { REASSERT(c); }
void a_message(bool c, const std::string &m) { REASSERT(c, m); }
std::string a_what(
    std::string_view cond,
    std::string_view file,
    int line,
    std::string_view message) {
  return AssertException(cond, file, line, message).what();
}
int a_after(bool c, int &x) {
  REASSERT(c, "stop");
  x = 7;
  return x;
}

struct Caught {
  std::string what;
  std::string file;
  int line = 0;
};
Caught a_caught(bool cond, const std::string &m) {
  Caught c;
  c.file = __FILE__;
  try {
    c.line = __LINE__; REASSERT(cond, m);
  } catch (const AssertException &e) {
    c.what = e.what();
  }
  return c;
}
Caught a_caught_plain(bool cond) {
  Caught c;
  c.file = __FILE__;
  try {
    c.line = __LINE__; REASSERT(cond);
  } catch (const AssertException &e) {
    c.what = e.what();
  }
  return c;
}
bool a_is_exception(bool cond) {
  try {
    REASSERT(cond);
  } catch (const std::exception &e) {
    return true;
  }
  return false;
}

// ---- status
Status st_default() { return Status(); }
Status st_make(const char *file, int line, const char *m) {
  return Status::make_at_line(file, line, m);
}
bool st_ok(const Status &s) { return s.ok(); }
bool st_okay_constant() { return OKAY_STATUS.ok(); }
std::string st_what(const Status &s) { return s.what(); }
std::string st_made(const char *m, int &line, std::string &file) {
  file = __FILE__;
  line = __LINE__; return MAKE_STATUS(m).what();
}
Caught st_check_caught(const Status &s) {
  Caught c;
  try {
    CHECK_STATUS_OK(s);
  } catch (const AssertException &e) {
    c.what = e.what();
  }
  return c;
}
bool st_made_ok() { return MAKE_STATUS("bad").ok(); }
void st_check(const Status &s) { CHECK_STATUS_OK(s); }
Status st_return(const Status &s, int &after) {
  RETURN_IF_NOT_OK(s);
  after = 1;
  return OKAY_STATUS;
}
struct Counting {
  int calls = 0;
  Status s;
  Status next() {
    ++calls;
    return s;
  }
};
int st_return_calls_impl(Counting &c) {
  auto f = [&c]() -> Status {
    RETURN_IF_NOT_OK(c.next());
    return OKAY_STATUS;
  };
  f();
  return c.calls;
}
int st_return_calls(const Status &s) {
  Counting c;
  c.s = s;
  return st_return_calls_impl(c);
}
int st_check_calls(const Status &s) {
  Counting c;
  c.s = s;
  CHECK_STATUS_OK(c.next());
  return c.calls;
}

// ---- status or value
using SV = StatusValue<int64_t>;
SV sv_default() { return SV(); }
SV sv_value(int64_t x) { return SV(x); }
SV sv_status(const Status &s) { return SV(s); }
SV sv_status_implicit(const Status &s) { return s; }
bool sv_ok(const SV &v) { return v.ok(); }
int64_t sv_get(const SV &v) { return v.value(); }
int64_t sv_get_move(SV v) { return std::move(v).value(); }
Status sv_get_status(const SV &v) { return v.status(); }
SV sv_assign(const SV &v, int64_t &after) {
  const int64_t x = RETURN_OR_ASSIGN(v);
  after = x;
  return x;
}
struct CountingSV {
  int calls = 0;
  SV s;
  SV next() {
    ++calls;
    return s;
  }
};
const SV &sv_pass(CountingSV &c) {
  ++c.calls;
  return c.s;
}
int sv_assign_calls(const SV &s) {
  CountingSV c;
  c.s = s;
  auto f = [&c]() -> SV {
    const int64_t x = RETURN_OR_ASSIGN(sv_pass(c));
    return x;
  };
  f();
  return c.calls;
}
// The argument is a temporary of a type that owns memory.
using SVS = StatusValue<std::string>;
SVS svs_make(bool ok, const std::string &x, const Status &s) {
  if (not ok) {
    return s;
  }
  return x;
}
SVS sv_assign_temporary(
    bool ok,
    const std::string &x,
    const Status &s,
    std::string &after) {
  after = RETURN_OR_ASSIGN(svs_make(ok, x, s));
  return x;
}
SVS sv_assign_temporary_local(
    bool ok,
    const std::string &x,
    const Status &s,
    std::string &after) {
  const std::string y = RETURN_OR_ASSIGN(svs_make(ok, x, s));
  after = y;
  return x;
}
int64_t svr_assign_same(int64_t &x, int64_t y) {
  auto f = [&]() -> SV {
    const StatusValue<int64_t &> v(x);
    int64_t &r = RETURN_OR_ASSIGN(v);
    r = y;
    return y;
  };
  f();
  return x;
}
using SVR = StatusValue<int64_t &>;
SVR svr_value(int64_t &x) { return SVR(x); }
bool svr_same(int64_t &x) {
  const SVR v(x);
  return &v.value() == &x;
}
int64_t svr_write(int64_t &x, int64_t y) {
  const SVR v(x);
  v.value() = y;
  return x;
}
// Status values of references and of types that can only be moved.
bool svr_same_move(int64_t &x) {
  SVR v(x);
  return &std::move(v).value() == &x;
}
bool svr_copy_same(int64_t &x) {
  const SVR v(x);
  const SVR w(v);
  return &w.value() == &x;
}
bool svr_ok(int64_t &x) { return SVR(x).ok(); }
bool svr_bad_ok(const Status &s) { return SVR(s).ok(); }
int64_t svr_bad_get(const Status &s) {
  const SVR v(s);
  return v.value();
}
int64_t svr_bad_move(const Status &s) {
  SVR v(s);
  return std::move(v).value();
}
using SVC = StatusValue<const int64_t &>;
bool svc_same(const int64_t &x) {
  const SVC v(x);
  return &v.value() == &x;
}
bool svc_same_move(const int64_t &x) {
  SVC v(x);
  return &std::move(v).value() == &x;
}
int64_t svc_bad_get(const Status &s) {
  const SVC v(s);
  return v.value();
}
int64_t svc_bad_move(const Status &s) {
  SVC v(s);
  return std::move(v).value();
}
std::string svs_get(const std::string &x) {
  const SVS v(x);
  return v.value();
}
std::string svs_get_move(const std::string &x) {
  SVS v(x);
  return std::move(v).value();
}
std::string svs_bad_get(const Status &s) {
  const SVS v(s);
  return v.value();
}
std::string svs_bad_move(const Status &s) {
  SVS v(s);
  return std::move(v).value();
}
SVS svs_copy(const SVS &v) { return v; }
bool svs_ok(const SVS &v) { return v.ok(); }
std::string svs_value(const SVS &v) { return v.value(); }
Status svs_status(const SVS &v) { return v.status(); }
SVS svs_of(const std::string &x) { return x; }
SVS svs_bad(const Status &s) { return s; }
void svs_assign_to(SVS &v, const SVS &w) { v = w; }
}  // namespace probe
