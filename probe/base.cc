// Entry points of the math and time libraries, used as analysis roots.
#include <functional>
#include <vector>

#include "resim/math/safe_integer_utils.hh"
#include "resim/time/event_schedule.hh"
#include "resim/time/sample_interval.hh"
#include "resim/time/timestamp.hh"

namespace probe {
using namespace resim;
using time::Duration;
using time::Timestamp;

// ---- checked integers
int64_t i_sum(int64_t a, int64_t b) { return math::safe_sum(a, b); }
int64_t i_diff(int64_t a, int64_t b) { return math::safe_difference(a, b); }
int64_t i_abs(int64_t a) { return math::safe_abs(a); }

// ---- time
double t_as_seconds(Duration d) { return time::as_seconds(d); }
Duration t_as_duration(double t) { return time::as_duration(t); }
int64_t t_secs(Duration d) { return time::to_seconds_and_nanos(d).secs; }
int32_t t_nanos(Duration d) { return time::to_seconds_and_nanos(d).nanos; }
Duration t_from(int64_t s, int32_t n) {
  return time::from_seconds_and_nanos({.secs = s, .nanos = n});
}
Duration t_trip(Duration d) {
  return time::from_seconds_and_nanos(time::to_seconds_and_nanos(d));
}

// ---- sampling
int64_t s_num_d(double a, double b, double dt) {
  return time::num_samples(a, b, dt);
}
int64_t s_num_t(Timestamp a, Timestamp b, Duration dt) {
  return time::num_samples(a, b, dt);
}
std::vector<double> s_int_d(double a, double b, double dt) {
  std::vector<double> out;
  time::sample_interval(a, b, dt, [&out](double t) { out.push_back(t); });
  return out;
}
std::vector<Timestamp> s_int_t(Timestamp a, Timestamp b, Duration dt) {
  std::vector<Timestamp> out;
  time::sample_interval(a, b, dt, [&out](Timestamp t) { out.push_back(t); });
  return out;
}

// ---- event schedule
using ES = time::EventSchedule<int64_t>;
using ES8 = time::EventSchedule<int64_t, uint8_t>;
struct Drained {
  std::vector<int64_t> payloads;
  std::vector<Timestamp> times;
  std::vector<std::size_t> sizes;
};
template <typename S>
void es_take(S &s, Drained &d) {
  d.sizes.push_back(s.size());
  d.payloads.push_back(s.top_event().payload);
  d.times.push_back(s.top_event().time);
  s.pop_event();
}
std::size_t es_empty() { return ES().size(); }
// Schedule three events, then take all.
Drained es_three(
    Timestamp t0,
    Timestamp t1,
    Timestamp t2,
    int64_t p0,
    int64_t p1,
    int64_t p2) {
  Drained d;
  ES s;
  s.schedule_event(t0, p0);
  s.schedule_event(t1, p1);
  s.schedule_event(t2, p2);
  es_take(s, d);
  es_take(s, d);
  es_take(s, d);
  d.sizes.push_back(s.size());
  return d;
}
// Schedule two, take one, schedule a third, take all.
Drained es_mixed(
    Timestamp t0,
    Timestamp t1,
    Timestamp t2,
    int64_t p0,
    int64_t p1,
    int64_t p2) {
  Drained d;
  ES s;
  s.schedule_event(t0, p0);
  s.schedule_event(t1, p1);
  es_take(s, d);
  s.schedule_event(t2, p2);
  es_take(s, d);
  es_take(s, d);
  d.sizes.push_back(s.size());
  return d;
}
// Empty the schedule before the last two events.
Drained es_reused(
    Timestamp t0,
    Timestamp t1,
    Timestamp t2,
    int64_t p0,
    int64_t p1,
    int64_t p2) {
  Drained d;
  ES s;
  s.schedule_event(t0, p0);
  es_take(s, d);
  s.schedule_event(t1, p1);
  s.schedule_event(t2, p2);
  es_take(s, d);
  es_take(s, d);
  d.sizes.push_back(s.size());
  return d;
}
// The lifetime limit, with the smallest counter.
template <typename S>
void es_churn(S &s, Timestamp t, int64_t p) {
  for (int i = 0; i < 15; ++i) {
    for (int j = 0; j < 16; ++j) {
      s.schedule_event(t, p);
      s.pop_event();
    }
  }
  for (int j = 0; j < 14; ++j) {
    s.schedule_event(t, p);
    s.pop_event();
  }
}
std::size_t es_fill(Timestamp t, int64_t p) {
  ES8 s;
  es_churn(s, t, p);
  s.schedule_event(t, p);
  return s.size();
}
void es_overfill(Timestamp t, int64_t p) {
  ES8 s;
  es_churn(s, t, p);
  s.schedule_event(t, p);
  s.schedule_event(t, p);
}

}  // namespace probe
