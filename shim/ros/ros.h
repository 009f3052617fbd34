#pragma once
#include <cmath>
#include <cstdint>
#include <iostream>
#include <string>
namespace ros {
class Duration {
 public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) { norm(); }
  explicit Duration(double t) {
    double f = std::floor(t);
    sec = (int32_t)f;
    nsec = (int32_t)std::lround((t - f) * 1e9);
    norm();
  }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000ll + nsec; }
  bool isZero() const { return !sec && !nsec; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return !(*this == o); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return o < *this; }
  bool operator<=(const Duration& o) const { return !(o < *this); }
  bool operator>=(const Duration& o) const { return !(*this < o); }

 private:
  void norm() {
    while (nsec >= 1000000000) {
      nsec -= 1000000000;
      sec++;
    }
    while (nsec < 0) {
      nsec += 1000000000;
      sec--;
    }
  }
};
class Time {
 public:
  uint32_t sec = 0, nsec = 0;
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
};
}
#define ROS_ERROR(...) ((void)0)
#define ROS_WARN(...) ((void)0)
#define ROS_INFO(...) ((void)0)
#define ROS_DEBUG(...) ((void)0)
#define ROS_ERROR_STREAM(x) ((void)0)
#define ROS_WARN_STREAM(x) ((void)0)
#define ROS_INFO_STREAM(x) ((void)0)
#define ROS_DEBUG_STREAM(x) ((void)0)
