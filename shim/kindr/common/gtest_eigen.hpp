#pragma once
#include <gtest/gtest.h>
#include <Eigen/Core>
namespace kindr {
template <typename A, typename B>
void assertNear(const A& a, const B& b, double tol, const std::string& msg, bool relative) {
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++) {
      double s = relative ? std::max(1.0, std::max(std::fabs(a(i, j)), std::fabs(b(i, j)))) : 1;
      ASSERT_NEAR(a(i, j), b(i, j), tol * s) << msg;
    }
}
}
#define KINDR_ASSERT_DOUBLE_MX_EQ(A, B, PERCENT, MSG) ::kindr::assertNear(A, B, (PERCENT) / 100.0 + 1e-9, MSG, true)
#define KINDR_ASSERT_DOUBLE_MX_EQ_ABS_REL(A, B, ABS, REL, MSG) ::kindr::assertNear(A, B, std::max<double>(ABS, REL), MSG, true)
#define KINDR_ASSERT_DOUBLE_MX_EQ_ZT(A, B, PERCENT, MSG, ZT) \
  ASSERT_LE(((A) - (B)).cwiseAbs().maxCoeff(), (PERCENT) / 100.0 * (A).cwiseAbs().maxCoeff() + (ZT)) << MSG
