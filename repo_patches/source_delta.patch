From 4da1f7ed190cbff96e9386be8afe00ea681dc13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:01 +0000
Subject: [PATCH 01/38] fix: getDDiffTimeVector returns the second derivative
 of the time vector

It evaluated dtau instead of ddtau, unlike addDDiffTimeVector and
getDDTimeVector.
---
 curves/include/curves/PolynomialSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index 0695acc..deb5b75 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -188,7 +188,7 @@ class PolynomialSpline {
            ddtimeVec.cols() == EigenTimeVectorType::ColsAtCompileTime);
     // https://eigen.tuxfamily.org/dox/TopicFunctionTakingEigenTypes.html
     const_cast<Eigen::MatrixBase<Derived>&>(ddtimeVec) =
-        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::dtau(tk)).data());
+        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::ddtau(tk)).data());
   }
 
   //! Get the second derivative of the time vector evaluated at time tk and add it to the input vector.
-- 
2.43.0


From 4d8a1c814a9e14b6a8874af9bb1d24d1ccd05597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:01 +0000
Subject: [PATCH 02/38] fix: define the zero time vectors of linear, quadratic
 and quartic splines

Only the cubic and quintic specialisations had out-of-class definitions, so
fitting with any other order failed to link.
---
 curves/src/polynomial_splines_traits.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/curves/src/polynomial_splines_traits.cpp b/curves/src/polynomial_splines_traits.cpp
index 3c1f093..e63ef00 100644
--- a/curves/src/polynomial_splines_traits.cpp
+++ b/curves/src/polynomial_splines_traits.cpp
@@ -14,11 +14,26 @@ namespace spline_traits {
 template<typename Core_, int SplineOrder_>
 constexpr unsigned int spline_rep<Core_, SplineOrder_>::numCoefficients;
 
+using spline1 = spline_rep<double, 1>;
+constexpr std::array<double, spline1::numCoefficients> spline1::tauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::dtauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::ddtauZero;
+
+using spline2 = spline_rep<double, 2>;
+constexpr std::array<double, spline2::numCoefficients> spline2::tauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::dtauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::ddtauZero;
+
 using spline3 = spline_rep<double, 3>;
 constexpr std::array<double, spline3::numCoefficients> spline3::tauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::dtauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::ddtauZero;
 
+using spline4 = spline_rep<double, 4>;
+constexpr std::array<double, spline4::numCoefficients> spline4::tauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::dtauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::ddtauZero;
+
 using spline5 = spline_rep<double, 5>;
 constexpr std::array<double, spline5::numCoefficients> spline5::tauZero;
 constexpr std::array<double, spline5::numCoefficients> spline5::dtauZero;
-- 
2.43.0


From 7630ae438f43fa6aa0f6cbb8ea1122fdac5f7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 03/38] fix: advance the active spline past every spline that
 dt spans

advance() moved the active spline by at most one, so a step that crossed
several splines left getPosition() and friends on a spline that had already
ended.
---
 curves/include/curves/PolynomialSplineContainer.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 99ac23e..cec9af9 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -43,8 +43,9 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
   // Advance in time.
   containerTime_ += dt;
 
-  // Check if spline index needs to be increased.
-  if ((containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
+  // Check if spline index needs to be increased (dt may span several splines).
+  while (activeSplineIdx_ < splines_.size() &&
+         containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration()) {
     if (activeSplineIdx_ < (splines_.size() - 1)) {
       timeOffset_ += splines_[activeSplineIdx_].getSplineDuration();
     }
-- 
2.43.0


From af12824bab38e4b4ee58a2c51e5b923bda9e6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 04/38] fix: keep the active spline in step with the internal
 time in addSpline

After the container had been played to its end (or its time had been set while
it was empty, which leaves the index at -1), adding a spline left the active
index and time offset stale: getPosition() evaluated the wrong spline or read
out of bounds, and advance() refused to continue.
---
 curves/include/curves/PolynomialSplineContainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 5cf5db6..e7cf250 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -50,6 +50,8 @@ class PolynomialSplineContainer {
   bool addSpline(SplineType_&& spline) {
     containerDuration_ += spline.getSplineDuration();
     splines_.emplace_back(std::forward<SplineType_>(spline));
+    // The internal time may lie beyond the splines that were present so far.
+    activeSplineIdx_ = getActiveSplineIndexAtTime(containerTime_, timeOffset_);
     return true;
   }
 
-- 
2.43.0


From e5b42d42b70dc3965a913c9255bdc7b2d7c8e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:33 +0000
Subject: [PATCH 05/38] fix: setData rejects unusable knots and leaves the
 container empty

No knots at all made the knot count wrap around (a huge allocation or reads out
of bounds), fewer positions than times read out of bounds, and the linear
overload returned false with a partly filled container (non-increasing times)
or with the previous data still in place (fewer than two knots).
---
 curves/include/curves/PolynomialSplineContainer.tpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index cec9af9..432248d 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -258,7 +258,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1;
 
-  if (numSplines<1) {
+  if (knotDurations.size()<2 || knotPositions.size()!=knotDurations.size()) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
   }
@@ -335,7 +335,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1u;
 
-  if (numSplines<1u) {
+  if (knotDurations.size()<2 || knotPositions.size()!=knotDurations.size()) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
   }
@@ -408,20 +408,21 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   typename SplineType::SplineCoefficients coefficients;
 
-  if (splineOrder_==0 || numSplines<1) {
+  success &= reset();
+
+  if (splineOrder_==0 || numSplines<1 || knotPositions.size()!=knotDurations.size()) {
     return false;
   }
 
   std::fill(coefficients.begin(), coefficients.end(), 0.0);
 
-  success &= reset();
-
   this->reserveSplines(numSplines);
 
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
     if (duration<=0.0) {
+      reset();
       return false;
     }
 
-- 
2.43.0


From cdd8297da77aa613d1014ef93d682876daa4b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:34 +0000
Subject: [PATCH 06/38] fix: fitting a scalar curve to spline options replaces
 the existing curve

The new splines were appended to the old ones, although fitting is documented
to clear the existing curve, and were always quintic, so that curves of another
order did not compile.
---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index c85933b..6837246 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -131,9 +131,10 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
                         std::vector<Key>* outKeys = NULL)
   {
+    container_.reset();
     container_.reserveSplines(optionList.size());
     for (const auto& options : optionList) {
-      container_.addSpline(PolynomialSplineQuintic(options));
+      container_.addSpline(typename SplineContainerType::SplineType(options));
     }
     minTime_ = 0.0;
   }
-- 
2.43.0


From 547e466837ab609905f6bebcf72da3aef1b20cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:50 +0000
Subject: [PATCH 07/38] fix: vector space spline curves honour the time of
 their first knot

getMaxTime(), evaluate() and evaluateDerivative() ignored the minimum time, so
that a curve which did not start at time zero missed all of its knots, and
clear() kept the minimum time of the old curve. The scalar curve handles all of
this already.
---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index ea5f9a9..0a21657 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -50,11 +50,12 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual Time getMaxTime() const
   {
-    return containers_.at(0).getContainerDuration();
+    return containers_.at(0).getContainerDuration() + minTime_;
   }
 
   virtual bool evaluate(ValueType& value, Time time) const
   {
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       value(i) = containers_.at(i).getPositionAtTime(time);
     }
@@ -63,7 +64,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual bool evaluateDerivative(DerivativeType& value, Time time, unsigned derivativeOrder) const
   {
-
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       if (derivativeOrder == 1) {
         value(i) = containers_.at(i).getVelocityAtTime(time);
@@ -149,6 +150,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
     for (size_t i = 0; i < N; ++i) {
       containers_.at(i).reset();
     }
+    minTime_ = 0;
   }
 
   virtual void transformCurve(const ValueType /*T*/)
-- 
2.43.0


From 315a6e85baa49e164b002a7e37ad7a07a9ebf4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:50 +0000
Subject: [PATCH 08/38] fix: fitting a spline curve to no data clears it

The first element of the empty list of times was read.
---
 .../include/curves/PolynomialSplineScalarCurve.hpp   |  8 ++++++++
 .../curves/PolynomialSplineVectorSpaceCurve.hpp      | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index 6837246..56942f3 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -114,6 +114,10 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     container_.setData(times, values, 0.0, 0.0, 0.0, 0.0);
     minTime_ = times.front();
   }
@@ -123,6 +127,10 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
                         double finalVelocity, double finalAcceleration,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     container_.setData(times, values, initialVelocity, initialAcceleration, finalVelocity,
                        finalAcceleration);
     minTime_ = times.front();
diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 0a21657..660ac79 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -88,6 +88,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
@@ -104,6 +108,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const DerivativeType& finalVelocity,
                         const DerivativeType& finalAcceleration)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
@@ -119,6 +127,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const std::vector<DerivativeType>& secondDerivatives,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues, scalarFirstDerivates, scalarSecondDerivates;
-- 
2.43.0


From 2000d71595e36096bc164c5bdc9288bbc5c91d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 09/38] fix: make every operation of the coefficient manager
 usable

equals(), hasCoefficientWithKey(), removeCoefficientWithKey(),
getCoefficientsInRange() and getCoefficients() did not compile when used
(iterators of the wrong map, members accessed through the wrong level of
indirection), and removal by key looked up an uninitialised iterator.
---
 .../LocalSupport2CoefficientManager-inl.hpp   | 29 +++++--------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ed9f025..59bfffb 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -32,25 +32,12 @@ bool LocalSupport2CoefficientManager<Coefficient>::equals(const LocalSupport2Coe
   equal &= timeToCoefficient_.size() == other.timeToCoefficient_.size();
   if (equal) {
     CoefficientIter it1, it2;
-    it1 = keyToCoefficient_.begin();
-    it2 = other.keyToCoefficient_.begin();
-    for( ; it1 != keyToCoefficient_.end(); ++it1, ++it2) {
+    it1 = timeToCoefficient_.begin();
+    it2 = other.timeToCoefficient_.begin();
+    for( ; it1 != timeToCoefficient_.end(); ++it1, ++it2) {
       equal &= it1->first == it2->first;
       equal &= it1->second.equals(it2->second);
     }
-
-    CoefficientIter it3, it4;
-    it3 = timeToCoefficient_.begin();
-    it4 = other.timeToCoefficient_.begin();
-    for( ; it3 != timeToCoefficient_.end(); ++it3, ++it4) {
-      equal &= it3->first == it4->first;
-      if (it3->second && it4->second) {
-        equal &= it3->second->equals(*(it4->second));
-      } else {
-        equal &= it3->second == it4->second;
-      }
-    }
-
   }
   return equal;
 }
@@ -195,7 +182,7 @@ void LocalSupport2CoefficientManager<Coefficient>::removeCoefficientWithKey(Key
   typename TimeToKeyCoefficientMap::iterator it1;
   typename boost::unordered_map<Key, CoefficientIter>::iterator it2;
   it2 = keyToCoefficient_.find(key);
-  it1 = timeToCoefficient_.find(it1->second->first);
+  it1 = timeToCoefficient_.find(it2->second->first);
   timeToCoefficient_.erase(it1);
   keyToCoefficient_.erase(it2);
 }
@@ -221,7 +208,7 @@ bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientAtTime(Time tim
 /// \brief return true if there is a coefficient with this key
 template <class Coefficient>
 bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientWithKey(Key key) const {
-  CoefficientIter it = keyToCoefficient_.find(key);
+  typename boost::unordered_map<Key, CoefficientIter>::const_iterator it = keyToCoefficient_.find(key);
   return it != keyToCoefficient_.end();
 }
 
@@ -306,10 +293,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     it--;
     // iterate through coefficients
     for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
     if (it != timeToCoefficient_.end()) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
   }
 }
@@ -321,7 +308,7 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficients(CoefficientMa
   CoefficientIter it;
   it = timeToCoefficient_.begin();
   for( ; it != timeToCoefficient_.end(); ++it) {
-    (*outCoefficients)[it->second->key] = it->second->coefficient;
+    (*outCoefficients)[it->second.key] = it->second.coefficient;
   }
 }
 
-- 
2.43.0


From 5bfca6bbd12439213f9bc4083429d5b6fd5dda11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 10/38] fix: coefficient manager queries at the edges of the
 manager

getTimesInWindow() left out the first coefficient of the manager and stepped
before the beginning of a manager with fewer than two coefficients;
getCoefficientsInRange() did the latter on an empty manager.
---
 .../LocalSupport2CoefficientManager-inl.hpp      | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 59bfffb..5d43dd3 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -80,16 +80,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getTimesInWindow(std::vector<
   CHECK_NOTNULL(outTimes);
 
   outTimes->clear();
-  CoefficientIter it = --(timeToCoefficient_.end());
-
-  do {
-    if (it->first >= begTime) {
-      outTimes->push_back(it->first);
-    }
-    --it;
-  } while (it->first >= begTime && it != timeToCoefficient_.begin());
-
-  std::reverse(outTimes->begin(),outTimes->end());
+  CoefficientIter it = timeToCoefficient_.lower_bound(begTime);
+  for( ; it != timeToCoefficient_.end(); ++it) {
+    outTimes->push_back(it->first);
+  }
 }
 
 template <class Coefficient>
@@ -277,7 +271,7 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     Time startTime, Time endTime, CoefficientMap* outCoefficients) const {
 
-  if (startTime <= endTime && startTime <= this->getMaxTime()
+  if (!timeToCoefficient_.empty() && startTime <= endTime && startTime <= this->getMaxTime()
       && endTime >= this->getMinTime()) {
     // be forgiving if start time is lower than definition of curve
     if (startTime < this->getMinTime()) {
-- 
2.43.0


From fa007ee5793076053c1c2c84480f0bad90a6aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 11/38] fix: modifying a coefficient without moving it keeps
 the coefficient

The insertion at an unchanged time did nothing and the coefficient was then
erased, leaving its key dangling. Moving a coefficient onto another one left the
key pointing at that other coefficient; this is an error now.
---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 5d43dd3..308448d 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -163,6 +163,11 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename Ti
                                                                      Time time, const Coefficient& coefficient) {
   // This is used by slerp sampling policy.
   // In this case a new coefficient should be placed slightly later than the initial one.
+  if (time == it->first) {
+    it->second.coefficient = coefficient;
+    return;
+  }
+  CHECK(!this->hasCoefficientAtTime(time)) << "There is already a coefficient at that time.";
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
   // Update keyToCoefficient_
   keyToCoefficient_[it->second.key] = newIt;
-- 
2.43.0


From 59642295c411200bb3d2b89cc38d639c22e839b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 12/38] fix: copies of a coefficient manager own their
 coefficients

The implicit copy duplicated the iterators of the key mapping, so that access by
key through a copy read and wrote the coefficients of the original (or freed
memory, once the original was gone).
---
 .../LocalSupport2CoefficientManager-inl.hpp    | 18 ++++++++++++++++++
 .../curves/LocalSupport2CoefficientManager.hpp |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 308448d..ae0b462 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -19,6 +19,24 @@ template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager() {
 }
 
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager(
+    const LocalSupport2CoefficientManager& other) {
+  *this = other;
+}
+
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>&
+LocalSupport2CoefficientManager<Coefficient>::operator=(const LocalSupport2CoefficientManager& other) {
+  timeToCoefficient_ = other.timeToCoefficient_;
+  // The key mapping has to refer to the coefficients of this manager.
+  keyToCoefficient_.clear();
+  for (CoefficientIter it = timeToCoefficient_.begin(); it != timeToCoefficient_.end(); ++it) {
+    keyToCoefficient_[it->second.key] = it;
+  }
+  return *this;
+}
+
 template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::~LocalSupport2CoefficientManager() {
 }
diff --git a/curves/include/curves/LocalSupport2CoefficientManager.hpp b/curves/include/curves/LocalSupport2CoefficientManager.hpp
index 1e769d4..ff6deaf 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager.hpp
@@ -50,6 +50,8 @@ class LocalSupport2CoefficientManager {
   typedef boost::unordered_map<size_t, Coefficient> CoefficientMap;
 
   LocalSupport2CoefficientManager();
+  LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other);
+  LocalSupport2CoefficientManager& operator=(const LocalSupport2CoefficientManager& other);
   virtual ~LocalSupport2CoefficientManager();
 
   /// Compare this Coefficient manager with another for equality.
-- 
2.43.0


From 3f3d7e46067c3f4bd9783e14fd53e6113f359386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 13/38] fix: coefficient manager edits at the edges of the
 manager

addCoefficientAtEnd() decremented the end of an empty manager and refused
negative times there; modifyCoefficientsValuesInBatch() searched before the
beginning or past the end of the manager when a time had no coefficient, and
read the first time of an empty batch.
---
 .../curves/LocalSupport2CoefficientManager-inl.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ae0b462..41a101f 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -146,14 +146,14 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBatch(const std::vector<Time>& times,
                                                                                    const std::vector<Coefficient>& values) {
   CHECK_EQ(times.size(), values.size());
+  if (times.empty()) {
+    return;
+  }
   // Get an iterator to the first coefficient
-  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.end();
-
-  do {
-    --it;
-  } while (it->first != times[0]);
+  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.find(times[0]);
 
   for (size_t i = 0; i < times.size(); ++i) {
+    CHECK(it != timeToCoefficient_.end()) << "No coefficient at time " << times[i];
     CHECK_EQ(it->first,times[i]);
     it->second.coefficient = values[i];
     ++it;
@@ -162,12 +162,12 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBat
 
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time, const Coefficient& coefficient, std::vector<Key>* outKeys) {
-  CHECK(time > getMaxTime()) << "Time to add is not greater than curve max time";
+  CHECK(timeToCoefficient_.empty() || time > getMaxTime()) << "Time to add is not greater than curve max time";
 
   Key key = KeyGenerator::getNextKey();
 
   // Insert the coefficient with a hint that it goes at the end
-  CoefficientIter it = timeToCoefficient_.insert(--(timeToCoefficient_.end()),
+  CoefficientIter it = timeToCoefficient_.insert(timeToCoefficient_.end(),
                                                  std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
 
   keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
-- 
2.43.0


From ab0cc890d13f2954cb27fb28c861d5ee04a96bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:46 +0000
Subject: [PATCH 14/38] fix: read the times of CSV files from the time columns

loadTimeVectorCSV() took the first vector entry for the time, and
loadTimeTimeVectorCSV() was off by one column in the same way.
---
 curves/src/helpers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 1e8a580..8a6ca44 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -71,7 +71,7 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
@@ -120,8 +120,8 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(1).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(2).c_str()));
+    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
-- 
2.43.0


From 4574e784d49c3b76346dff319369076b94acbfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:46 +0000
Subject: [PATCH 15/38] fix: write numbers to CSV files with all of their
 digits

Six significant digits merged the times of a long trajectory and changed its
values.
---
 curves/src/helpers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 8a6ca44..e691130 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -6,6 +6,8 @@
 
 #include <curves/helpers.hpp>
 #include <fstream>
+#include <limits>
+#include <sstream>
 #include <glog/logging.h>
 
 
@@ -13,7 +15,10 @@ namespace curves {
 
 template <typename T>
 std::string toString(const T& t) {
-  std::ostringstream ss; ss<<t; return ss.str();
+  std::ostringstream ss;
+  ss.precision(std::numeric_limits<T>::max_digits10);
+  ss<<t;
+  return ss.str();
 }
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
-- 
2.43.0


From 5ac19b4a2be2b21e7afc190ee73d77c50da1e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:46 +0000
Subject: [PATCH 16/38] fix: keep empty fields at the end of a CSV line

loadCSV() dropped them, unlike all other empty fields.
---
 curves/src/helpers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index e691130..3455c4e 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -38,6 +38,10 @@ std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
     while (getline(ss, field,',')) {
       strRow.push_back(field); // add column entry to row
     }
+    // getline does not report an empty field at the end of the line
+    if (line.empty() || line[line.size() - 1] == ',') {
+      strRow.push_back("");
+    }
     strMatrix.push_back(strRow); // add row to matrix
   }
   inFileStream.close();
-- 
2.43.0


From 771a458af21b234959707f9f9cf788b4214e8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:46 +0000
Subject: [PATCH 17/38] fix: report failures to write or read CSV files

A file that could not be opened for writing, a full disk and a read error all
went unnoticed and left a missing or truncated file or trajectory.
---
 curves/src/helpers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 3455c4e..bf02330 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -44,6 +44,7 @@ std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
     }
     strMatrix.push_back(strRow); // add row to matrix
   }
+  CHECK(!inFileStream.bad()) << "error reading input file " << fileName;
   inFileStream.close();
   return strMatrix;
 }
@@ -52,6 +53,7 @@ void writeCSV(std::string fileName, const std::vector<std::vector<std::string> >
   CHECK_GE(strMatrix.size(), 1) << "Provided matrix of strings had no entries.";
   std::ofstream outFileStream;
   outFileStream.open(fileName.c_str());
+  CHECK(outFileStream.good()) << "error opening output file " << fileName;
   // Iterate over the rows of the string matrix and write comma-separated fields
   for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
     const unsigned fields = itRow->size();
@@ -63,6 +65,7 @@ void writeCSV(std::string fileName, const std::vector<std::vector<std::string> >
     outFileStream << std::endl;
   }
   outFileStream.close();
+  CHECK(outFileStream.good()) << "error writing output file " << fileName;
 }
 /// \brief Helper function to read CSV files formatted in: time, vectorEntry0, vectorEntry1, ...
 void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes, std::vector<Eigen::VectorXd>* outValues) {
-- 
2.43.0


From 2f5e9336b85996e87f4b94a0004e41322ea10ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:40 +0000
Subject: [PATCH 18/38] fix: fitting a Hermite E3 curve replaces the existing
 curve

The new knots were added to those of the old curve, although fitting is
documented to clear it (and does so for the SE3 curve).
---
 curves/src/CubicHermiteE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 60ad7d3..1a82b39 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -146,6 +146,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
                       const DerivativeType& finalDerivative,
                       std::vector<Key>* outKeys) {
   assert(times.size() == values.size());
+  clear();
 
   // construct the Hemrite coefficients
   std::vector<Coefficient> coefficients;
-- 
2.43.0


From a4bdcb7a24f2304efed484933dd7c3f513d14d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:40 +0000
Subject: [PATCH 19/38] fix: evaluating an empty Hermite curve at time zero
 fails

An empty curve reports zero as its minimum and maximum time and was mistaken for
a curve with a single knot there, which does not exist.
---
 curves/src/CubicHermiteE3Curve.cpp  | 4 ++--
 curves/src/CubicHermiteSE3Curve.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 1a82b39..0270c96 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -184,7 +184,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
 /// Evaluate the ambient space of the curve.
 bool CubicHermiteE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-   if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+   if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
      value =  manager_.coefficientBegin()->second.coefficient.getPosition();
      return true;
    }
@@ -237,7 +237,7 @@ bool CubicHermiteE3Curve::evaluateDerivative(DerivativeType& derivative, Time ti
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-      if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+      if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
         derivative = manager_.coefficientBegin()->second.coefficient.getVelocity();
         return true;
       }
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index b1f9c28..ebfd539 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -194,7 +194,7 @@ void CubicHermiteSE3Curve::extend(const std::vector<Time>& /*times*/,
 
 bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-  if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+  if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
     value =  manager_.coefficientBegin()->second.coefficient.getTransformation();
     return true;
   }
@@ -273,7 +273,7 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-    if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+    if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
       derivative = manager_.coefficientBegin()->second.coefficient.getTransformationDerivative();
       return true;
     }
-- 
2.43.0


From 03731f18c95054150d37516321cbf86946d5c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:40 +0000
Subject: [PATCH 20/38] fix: saving a Hermite curve outside of its time range
 is an error

The value of the previous time (or an undefined one) was written instead.
---
 curves/src/CubicHermiteSE3Curve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index ebfd539..3d51db7 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -581,7 +581,7 @@ void CubicHermiteSE3Curve::saveCurveAtTimes(const std::string& filename, std::ve
   std::vector<Eigen::VectorXd> curveValues;
   ValueType val;
   for (size_t i = 0; i < times.size(); ++i) {
-    evaluate(val, times[i]);
+    CHECK(evaluate(val, times[i])) << "Unable to evaluate the curve at time " << times[i];
     v << val.getPosition().x(), val.getPosition().y(), val.getPosition().z(),
         val.getRotation().w(), val.getRotation().x(), val.getRotation().y(), val.getRotation().z();
     curveValues.push_back(v);
-- 
2.43.0


From 2925aa281aa09d1e144bd330e665865eb9732031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:40 +0000
Subject: [PATCH 21/38] fix: a trajectory message without joint names does not
 contain the joint

The search for the joint succeeded on a message without joint names, and the
first entry of each point was read regardless.
---
 curves_ros/src/RosJointTrajectoryInterface.cpp                  | 2 +-
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp          | 2 +-
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 0998e76..146a1a0 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -31,8 +31,8 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index dceae8e..e4eff81 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -34,8 +34,8 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<CubicHermiteSE3Curve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 8961923..00dbe0c 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -31,8 +31,8 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
-- 
2.43.0


From 361034ae2ad87bf5d387a72bf0af33a8ad222d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:34 +0000
Subject: [PATCH 22/38] fix: compute spline coefficients for short and long
 durations

---
 .../curves/polynomial_splines_traits.hpp      | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/polynomial_splines_traits.hpp b/curves/include/curves/polynomial_splines_traits.hpp
index 78e74d8..4e20fb0 100644
--- a/curves/include/curves/polynomial_splines_traits.hpp
+++ b/curves/include/curves/polynomial_splines_traits.hpp
@@ -186,16 +186,22 @@ struct spline_rep<double, 3> {
   //! Map initial pos, initial vel, final pos and final vel to spline coefficients.
   static bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
 
+    // Solve for a unit duration: powers of tf_ would make the system look singular.
+    const double tf = opts.tf_;
     Eigen::Matrix<double, numCoefficients, 1> b;
-    b << opts.pos0_, opts.vel0_, opts.posT_, opts.velT_;
+    b << opts.pos0_, opts.vel0_*tf, opts.posT_, opts.velT_*tf;
 
     Eigen::Matrix<double, numCoefficients, numCoefficients> A;
     A << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
          Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data());
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(1.0)).data()),
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(1.0)).data());
 
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) = A.colPivHouseholderQr().solve(b);
+    const TimeVectorType tauTf = tau(tf);
+    for (unsigned int i = 0; i < numCoefficients; ++i) {
+      coefficients[i] /= tauTf[i];
+    }
 
     return true;
   }
@@ -229,17 +235,23 @@ struct spline_rep<double, 4> {
 
   //! Map initial pos/vel/accel and final pos/vel to spline coefficients.
   static bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
+    // Solve for a unit duration: powers of tf_ would make the system look singular.
+    const double tf = opts.tf_;
     Eigen::Matrix<double, numCoefficients, 1> b;
-    b << opts.pos0_, opts.vel0_, opts.acc0_, opts.posT_, opts.velT_;
+    b << opts.pos0_, opts.vel0_*tf, opts.acc0_*tf*tf, opts.posT_, opts.velT_*tf;
 
     Eigen::Matrix<double, numCoefficients, numCoefficients> A;
     A << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
          Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
          Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(ddtauZero.data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data());
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(1.0)).data()),
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(1.0)).data());
 
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) = A.colPivHouseholderQr().solve(b);
+    const TimeVectorType tauTf = tau(tf);
+    for (unsigned int i = 0; i < numCoefficients; ++i) {
+      coefficients[i] /= tauTf[i];
+    }
 
     return true;
   }
@@ -278,15 +290,21 @@ struct spline_rep<double, 5> {
 
   //! Map initial pos/vel/accel and final pos/vel/accel to spline coefficients.
   static inline bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
+    // Solve for a unit duration: powers of tf_ would make the system look singular.
+    const double tf = opts.tf_;
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) =
       (Eigen::Matrix<double, numCoefficients, numCoefficients>() << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
                Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
                Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(ddtauZero.data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((ddtau(opts.tf_)).data())).finished().
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(1.0)).data()),
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(1.0)).data()),
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((ddtau(1.0)).data())).finished().
                  colPivHouseholderQr().solve(
-                     (Eigen::Matrix<double, numCoefficients, 1>() << opts.pos0_, opts.vel0_, opts.acc0_, opts.posT_, opts.velT_, opts.accT_).finished());
+                     (Eigen::Matrix<double, numCoefficients, 1>() << opts.pos0_, opts.vel0_*tf, opts.acc0_*tf*tf, opts.posT_, opts.velT_*tf, opts.accT_*tf*tf).finished());
+    const TimeVectorType tauTf = tau(tf);
+    for (unsigned int i = 0; i < numCoefficients; ++i) {
+      coefficients[i] /= tauTf[i];
+    }
 
     return true;
   }
-- 
2.43.0


From 01fb4f16808e53c60b7b5d4a2cb95c432c99c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:49 +0000
Subject: [PATCH 23/38] fix: fit spline containers whose splines differ widely
 in duration

---
 .../curves/PolynomialSplineContainer.hpp       |  3 +++
 .../curves/PolynomialSplineContainer.tpp       | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index e7cf250..5cb511b 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -173,6 +173,9 @@ class PolynomialSplineContainer {
       unsigned int& constraintIdx,
       const unsigned int num_junctions);
 
+  //! Find spline coefficients that satisfy the equality constraints.
+  Eigen::VectorXd solveEqualityConstraints() const;
+
   bool extractSplineCoefficients(
       const Eigen::VectorXd& coeffs,
       const std::vector<double>& splineDurations,
diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 432248d..c5b1f24 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -312,7 +312,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   }
 
   // Find spline coefficients.
-  Eigen::VectorXd coeffs = equalityConstraintJacobian_.colPivHouseholderQr().solve(equalityConstraintTargetValues_);
+  const Eigen::VectorXd coeffs = solveEqualityConstraints();
 
   // Extract spline coefficients and add splines.
   success &= extractSplineCoefficients(coeffs, splineDurations, numSplines);
@@ -389,7 +389,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   }
 
   // Find spline coefficients.
-  Eigen::VectorXd coeffs = equalityConstraintJacobian_.colPivHouseholderQr().solve(equalityConstraintTargetValues_);
+  const Eigen::VectorXd coeffs = solveEqualityConstraints();
 
   // Extract spline coefficients and add splines.
   success &= extractSplineCoefficients(coeffs, splineDurations, numSplines);
@@ -543,6 +543,20 @@ void PolynomialSplineContainer<splineOrder_>::addJunctionsConditions(const std::
   }
 }
 
+template <int splineOrder_>
+Eigen::VectorXd PolynomialSplineContainer<splineOrder_>::solveEqualityConstraints() const {
+  const Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr(equalityConstraintJacobian_);
+  if (qr.nonzeroPivots() == equalityConstraintJacobian_.rows()) {
+    return qr.solve(equalityConstraintTargetValues_);
+  }
+
+  // The constraints are independent, but if the durations of the splines differ by orders of magnitude they do not look
+  // like it, unless the coefficients are scaled.
+  const Eigen::VectorXd scale = equalityConstraintJacobian_.colwise().norm().cwiseInverse();
+  const Eigen::MatrixXd scaledJacobian = equalityConstraintJacobian_ * scale.asDiagonal();
+  return scale.cwiseProduct(scaledJacobian.colPivHouseholderQr().solve(equalityConstraintTargetValues_));
+}
+
 template <int splineOrder_>
 bool PolynomialSplineContainer<splineOrder_>::extractSplineCoefficients(
     const Eigen::VectorXd& coeffs,
-- 
2.43.0


From c2f5df06c93e1a72433793c96754b129fb022636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:52 +0000
Subject: [PATCH 24/38] fix: periodic Hermite curves take the slope at their
 ends across the period

---
 curves/src/CubicHermiteE3Curve.cpp  | 4 +++-
 curves/src/CubicHermiteSE3Curve.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 0270c96..d7f69b6 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -136,7 +136,9 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    */
   const size_t nPoints = times.size();
   //TODO Add a check on nPoints which should be >= 2 otherwise that breaks.
-  DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  // The last but one point precedes the first point by one period.
+  const Time period = times[nPoints-1] - times[0];
+  DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 3d51db7..d0475e2 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -153,7 +153,9 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  // The last but one point precedes the first point by one period.
+  const Time period = times[nPoints-1] - times[0];
+  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
-- 
2.43.0


From 48e0cc62b280f734148af10a6cf8dd84dc6ccb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:52 +0000
Subject: [PATCH 25/38] fix: clearing a slerp curve restarts its sampling
 policy

---
 curves/src/SlerpSE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/SlerpSE3Curve.cpp b/curves/src/SlerpSE3Curve.cpp
index 8dac84e..9dd37d6 100644
--- a/curves/src/SlerpSE3Curve.cpp
+++ b/curves/src/SlerpSE3Curve.cpp
@@ -256,6 +256,7 @@ void SlerpSE3Curve::setSamplingRatio(const int ratio) {
 
 void SlerpSE3Curve::clear() {
   manager_.clear();
+  slerpPolicy_.setMeasurementsSinceLastExtend_(0);
 }
 
 void SlerpSE3Curve::transformCurve(const ValueType T) {
-- 
2.43.0


From 4e32565c31191cd87538671d17e68ecc550dbf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:35 +0000
Subject: [PATCH 26/38] fix: refuse to fit splines to knot times that are not
 numbers

---
 curves/include/curves/PolynomialSplineContainer.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index c5b1f24..dd6d0aa 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -281,7 +281,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (unsigned int splineId=0; splineId<numSplines; splineId++) {
     splineDurations[splineId] = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (splineDurations[splineId]<=0.0) {
+    if (!(splineDurations[splineId]>0.0)) {
       std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
       return false;
     }
@@ -358,7 +358,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (unsigned int splineId=0; splineId<numSplines; splineId++) {
     splineDurations[splineId] = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (splineDurations[splineId]<=0.0) {
+    if (!(splineDurations[splineId]>0.0)) {
       std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
       return false;
     }
@@ -421,7 +421,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (duration<=0.0) {
+    if (!(duration>0.0)) {
       reset();
       return false;
     }
-- 
2.43.0


From 0951e43ec7747693d277bb8e79b26a7a43666da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:22 +0000
Subject: [PATCH 27/38] fix: report that Hermite curves can not be extended or
 transformed

CubicHermiteE3Curve::extend and CubicHermiteSE3Curve::transformCurve returned
as if they had done their work, and left the curve as it was.
---
 curves/src/CubicHermiteE3Curve.cpp  | 4 +++-
 curves/src/CubicHermiteSE3Curve.cpp | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index d7f69b6..c564d22 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -7,6 +7,8 @@
 
 #include <curves/CubicHermiteE3Curve.hpp>
 
+#include <stdexcept>
+
 namespace curves {
 
 CubicHermiteE3Curve::CubicHermiteE3Curve() {
@@ -117,7 +119,7 @@ CubicHermiteE3Curve::DerivativeType CubicHermiteE3Curve::calculateSlope(const Ti
 void CubicHermiteE3Curve::extend(const std::vector<Time>& /*times*/,
                     const std::vector<ValueType>& /*values*/,
                     std::vector<Key>* /*outKeys*/) {
-
+  throw std::runtime_error("CubicHermiteE3Curve::extend is not implemented!");
 }
 
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index d0475e2..c9f35f5 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -568,6 +568,7 @@ void CubicHermiteSE3Curve::clear() {
 
 void CubicHermiteSE3Curve::transformCurve(const ValueType /*T*/) {
   //todo
+  CHECK(false) << "Not implemented";
 }
 
 void CubicHermiteSE3Curve::saveCurveTimesAndValues(const std::string& filename) const {
-- 
2.43.0


From 54b5b7a16481f9f6b2089b3596390f8954722d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:22 +0000
Subject: [PATCH 28/38] fix: check the number of points given to Hermite curves

Periodic fits read beyond the end of their inputs when they had fewer than two
points or fewer values than times, and so did every fit of a position curve if
assertions were disabled.
---
 curves/src/CubicHermiteE3Curve.cpp  | 7 +++++--
 curves/src/CubicHermiteSE3Curve.cpp | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index c564d22..165266b 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -9,6 +9,8 @@
 
 #include <stdexcept>
 
+#include <glog/logging.h>
+
 namespace curves {
 
 CubicHermiteE3Curve::CubicHermiteE3Curve() {
@@ -137,7 +139,8 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  //TODO Add a check on nPoints which should be >= 2 otherwise that breaks.
+  CHECK_GE(nPoints, 2) << "a periodic curve needs at least two points";
+  CHECK_EQ(nPoints, values.size());
   // The last but one point precedes the first point by one period.
   const Time period = times[nPoints-1] - times[0];
   DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
@@ -149,7 +152,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
                       const DerivativeType& initialDerivative,
                       const DerivativeType& finalDerivative,
                       std::vector<Key>* outKeys) {
-  assert(times.size() == values.size());
+  CHECK_EQ(times.size(), values.size());
   clear();
 
   // construct the Hemrite coefficients
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index c9f35f5..1504475 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -153,6 +153,8 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
+  CHECK_GE(nPoints, 2) << "a periodic curve needs at least two points";
+  CHECK_EQ(nPoints, values.size());
   // The last but one point precedes the first point by one period.
   const Time period = times[nPoints-1] - times[0];
   CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
-- 
2.43.0


From b8e37b375e80bd3f96f22125d204cdc39b2911b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 29/38] fix: name only the columns that sampled position curves
 have

The header of CubicHermiteE3Curve::writeEvalToFile announced rotations and
angular velocities, so that the velocities stood below the rotations.
---
 curves/src/CubicHermiteE3Curve.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 165266b..6052de4 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -52,9 +52,7 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
   }
   fprintf(fp, "t ");
   fprintf(fp, "px py pz ");
-  fprintf(fp, "rw rx ry rz ");
   fprintf(fp, "vx vy vz ");
-  fprintf(fp, "wx wy wz ");
   fprintf(fp, "\n");
 
   Time dt = (getMaxTime()-getMinTime())/(nSamples-1);
-- 
2.43.0


From 8523358d7260865d475d11887cd141222acfae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 30/38] fix: write as many samples of Hermite curves as
 requested

Depending on rounding, writeEvalToFile wrote one sample less than requested,
without the end of the curve, or one just before the end.
---
 curves/src/CubicHermiteE3Curve.cpp  | 3 ++-
 curves/src/CubicHermiteSE3Curve.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 6052de4..5448974 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -58,7 +58,8 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
   Time dt = (getMaxTime()-getMinTime())/(nSamples-1);
   ValueType position;
   DerivativeType velocity;
-  for (Time t = getMinTime(); t < getMaxTime(); t+=dt) {
+  for (int i = 0; i < nSamples; ++i) {
+    const Time t = (i > 0 && i == nSamples - 1) ? getMaxTime() : getMinTime() + (i > 0 ? i * dt : 0.0);
     if(!evaluate(position, t)) {
       std::cout << "Could not evaluate at time " << t << std::endl;
       fclose(fp);
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 1504475..6aa7d63 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -59,7 +59,8 @@ bool CubicHermiteSE3Curve::writeEvalToFile(const std::string& filename, int nSam
   Time dt = (getMaxTime()-getMinTime())/(nSamples-1);
   ValueType pose;
   DerivativeType twist;
-  for (Time t = getMinTime(); t < getMaxTime(); t+=dt) {
+  for (int i = 0; i < nSamples; ++i) {
+    const Time t = (i > 0 && i == nSamples - 1) ? getMaxTime() : getMinTime() + (i > 0 ? i * dt : 0.0);
     if(!evaluate(pose, t)) {
       std::cout << "Could not evaluate at time " << t << std::endl;
       fclose(fp);
-- 
2.43.0


From d26173f07e84a94dc8e25004b4ad7b270c0efaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:36 +0000
Subject: [PATCH 31/38] fix: report samples of Hermite curves that could not be
 written

writeEvalToFile returned true when the file could not be written completely.
---
 curves/src/CubicHermiteE3Curve.cpp  | 6 +++++-
 curves/src/CubicHermiteSE3Curve.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 5448974..29bb1bd 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -75,7 +75,11 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
     fprintf(fp, "%lf %lf %lf ", velocity.x(), velocity.y(), velocity.z());
     fprintf(fp, "\n");
   }
-  fclose(fp);
+  const bool failed = ferror(fp) != 0;
+  if (fclose(fp) != 0 || failed) {
+    std::cout << "Could not write to file" << std::endl;
+    return false;
+  }
 
   return true;
 }
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 6aa7d63..1bb0f99 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -78,7 +78,11 @@ bool CubicHermiteSE3Curve::writeEvalToFile(const std::string& filename, int nSam
     fprintf(fp, "%lf %lf %lf ", twist.getRotationalVelocity().x(), twist.getRotationalVelocity().y(), twist.getRotationalVelocity().z());
     fprintf(fp, "\n");
   }
-  fclose(fp);
+  const bool failed = ferror(fp) != 0;
+  if (fclose(fp) != 0 || failed) {
+    std::cout << "Could not write to file" << std::endl;
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From b9042ee486a2d6aa27f12b70edf5785a46d76aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:46 +0000
Subject: [PATCH 32/38] fix: read and write CSV numbers the same way in every
 locale

toString followed the global C++ locale and atof the C locale: with a decimal
comma or digit grouping, files did not give back what was written.
---
 curves/src/helpers.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index bf02330..366d326 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -7,7 +7,10 @@
 #include <curves/helpers.hpp>
 #include <fstream>
 #include <limits>
+#include <locale>
 #include <sstream>
+#include <locale.h>
+#include <stdlib.h>
 #include <glog/logging.h>
 
 
@@ -16,10 +19,16 @@ namespace curves {
 template <typename T>
 std::string toString(const T& t) {
   std::ostringstream ss;
+  ss.imbue(std::locale::classic());
   ss.precision(std::numeric_limits<T>::max_digits10);
   ss<<t;
   return ss.str();
 }
+/// \brief Numbers in CSV files have a decimal point, whatever locale the program uses
+static double toDouble(const std::string& field) {
+  static const locale_t locale = newlocale(LC_NUMERIC_MASK, "C", (locale_t)0);
+  return strtod_l(field.c_str(), NULL, locale);
+}
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
   // Open file stream and check that it is error free
@@ -83,9 +92,9 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes->push_back((curves::Time)toDouble(it->at(0)));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
-      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
+      tempVec[vIdx] = toDouble(it->at(vIdx + vOffset));
     }
     outValues->push_back(tempVec);
   }
@@ -132,10 +141,10 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes0->push_back((curves::Time)toDouble(it->at(0)));
+    outTimes1->push_back((curves::Time)toDouble(it->at(1)));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
-      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
+      tempVec[vIdx] = toDouble(it->at(vIdx + vOffset));
     }
     outValues->push_back(tempVec);
   }
-- 
2.43.0


From a2dac745276af31fa53a2d0acc695e5c734796dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:26 +0000
Subject: [PATCH 33/38] fix: coefficients need times that are numbers

A time that is not a number compares as equal to any other: inserting one
corrupted the manager, and removing one removed the first coefficient.
---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 41a101f..8b5a6fe 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -8,6 +8,7 @@
 
 #include <curves/LocalSupport2CoefficientManager.hpp>
 
+#include <cmath>
 #include <iostream>
 #include <curves/LocalSupport2CoefficientManager.hpp>
 #include <curves/KeyGenerator.hpp>
@@ -111,6 +112,7 @@ void LocalSupport2CoefficientManager<Coefficient>::print(const std::string& str)
 
 template <class Coefficient>
 Key LocalSupport2CoefficientManager<Coefficient>::insertCoefficient(Time time, const Coefficient& coefficient) {
+  CHECK(!std::isnan(time)) << "Time is not a number.";
   CoefficientIter it;
   Key key;
 
@@ -162,6 +164,7 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBat
 
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time, const Coefficient& coefficient, std::vector<Key>* outKeys) {
+  CHECK(!std::isnan(time)) << "Time is not a number.";
   CHECK(timeToCoefficient_.empty() || time > getMaxTime()) << "Time to add is not greater than curve max time";
 
   Key key = KeyGenerator::getNextKey();
@@ -185,6 +188,7 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename Ti
     it->second.coefficient = coefficient;
     return;
   }
+  CHECK(!std::isnan(time)) << "Time is not a number.";
   CHECK(!this->hasCoefficientAtTime(time)) << "There is already a coefficient at that time.";
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
   // Update keyToCoefficient_
@@ -218,8 +222,9 @@ void LocalSupport2CoefficientManager<Coefficient>::removeCoefficientAtTime(Time
 /// \brief return true if there is a coefficient at this time
 template <class Coefficient>
 bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientAtTime(Time time) const {
+  // The map takes a time that is not a number to be equal to any other.
   CoefficientIter it = timeToCoefficient_.find(time);
-  return it != timeToCoefficient_.end();
+  return it != timeToCoefficient_.end() && it->first == time;
 }
 
 /// \brief return true if there is a coefficient with this key
-- 
2.43.0


From 9be4cb5dfe332cc648bf5fd0ff53a076b0a24b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:26 +0000
Subject: [PATCH 34/38] fix: check the output of range queries like that of the
 other queries

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 8b5a6fe..f13b6b8 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -298,6 +298,7 @@ bool LocalSupport2CoefficientManager<Coefficient>::getCoefficientsAt(Time time,
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     Time startTime, Time endTime, CoefficientMap* outCoefficients) const {
+  CHECK_NOTNULL(outCoefficients);
 
   if (!timeToCoefficient_.empty() && startTime <= endTime && startTime <= this->getMaxTime()
       && endTime >= this->getMinTime()) {
-- 
2.43.0


From cb5a84c050685cb4a98d8d007eaa8f9e1f133403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:02 +0000
Subject: [PATCH 35/38] fix: a step back in time may lead to an earlier spline

After advance() with a negative step, the container stayed in its active
spline and showed the value at its start.
---
 curves/include/curves/PolynomialSplineContainer.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index dd6d0aa..7a43fe4 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -43,6 +43,12 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
   // Advance in time.
   containerTime_ += dt;
 
+  // A step back may lead to an earlier spline.
+  if (dt < 0.0) {
+    activeSplineIdx_ = getActiveSplineIndexAtTime(containerTime_, timeOffset_);
+    return true;
+  }
+
   // Check if spline index needs to be increased (dt may span several splines).
   while (activeSplineIdx_ < splines_.size() &&
          containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration()) {
-- 
2.43.0


From 96e07e328dada115b3d86d95e0ee77ebb73d3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:19 +0000
Subject: [PATCH 36/38] fix: refuse to fit splines to infinite durations

---
 curves/include/curves/PolynomialSplineContainer.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 7a43fe4..852884b 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -287,7 +287,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (unsigned int splineId=0; splineId<numSplines; splineId++) {
     splineDurations[splineId] = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (!(splineDurations[splineId]>0.0)) {
+    if (!(splineDurations[splineId]>0.0) || std::isinf(splineDurations[splineId])) {
       std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
       return false;
     }
@@ -364,7 +364,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (unsigned int splineId=0; splineId<numSplines; splineId++) {
     splineDurations[splineId] = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (!(splineDurations[splineId]>0.0)) {
+    if (!(splineDurations[splineId]>0.0) || std::isinf(splineDurations[splineId])) {
       std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
       return false;
     }
@@ -427,7 +427,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (!(duration>0.0)) {
+    if (!(duration>0.0) || std::isinf(duration)) {
       reset();
       return false;
     }
-- 
2.43.0


From 54c399574ebf393bebeb4b93b292ed5be8e50cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 37/38] fix: curves keep nothing of data that can not be fitted

The time range started at the first of the refused times, and a vector-valued
curve given fewer values than times was left half changed by an exception or,
given more, ignored the rest.
---
 .../curves/PolynomialSplineScalarCurve.hpp    | 10 +++---
 .../PolynomialSplineVectorSpaceCurve.hpp      | 33 ++++++++++---------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index 56942f3..2c46775 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -118,8 +118,8 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
       clear();
       return;
     }
-    container_.setData(times, values, 0.0, 0.0, 0.0, 0.0);
-    minTime_ = times.front();
+    const bool success = container_.setData(times, values, 0.0, 0.0, 0.0, 0.0);
+    minTime_ = success ? times.front() : 0.0;
   }
 
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
@@ -131,9 +131,9 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
       clear();
       return;
     }
-    container_.setData(times, values, initialVelocity, initialAcceleration, finalVelocity,
-                       finalAcceleration);
-    minTime_ = times.front();
+    const bool success = container_.setData(times, values, initialVelocity, initialAcceleration,
+                                            finalVelocity, finalAcceleration);
+    minTime_ = success ? times.front() : 0.0;
   }
 
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 660ac79..2c624ae 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -88,17 +88,18 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
                         std::vector<Key>* outKeys = NULL)
   {
+    clear();
     if (times.empty()) {
-      clear();
       return;
     }
-    minTime_ = times.front();
+    bool success = true;
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
       scalarValues.reserve(times.size());
-      for (size_t t = 0; t < times.size(); ++t) scalarValues.push_back(values.at(t)(i));
-      containers_.at(i).setData(times, scalarValues, 0.0, 0.0, 0.0, 0.0);
+      for (size_t t = 0; t < values.size(); ++t) scalarValues.push_back(values.at(t)(i));
+      success &= containers_.at(i).setData(times, scalarValues, 0.0, 0.0, 0.0, 0.0);
     }
+    if (success) minTime_ = times.front();
   }
 
   virtual void fitCurve(const std::vector<Time>& times,
@@ -108,18 +109,19 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const DerivativeType& finalVelocity,
                         const DerivativeType& finalAcceleration)
   {
+    clear();
     if (times.empty()) {
-      clear();
       return;
     }
-    minTime_ = times.front();
+    bool success = true;
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
       scalarValues.reserve(times.size());
-      for (size_t t = 0; t < times.size(); ++t) scalarValues.push_back(values.at(t)(i));
-      containers_.at(i).setData(times, scalarValues, initialVelocity(i), initialAcceleration(i),
-                                finalVelocity(i), finalAcceleration(i));
+      for (size_t t = 0; t < values.size(); ++t) scalarValues.push_back(values.at(t)(i));
+      success &= containers_.at(i).setData(times, scalarValues, initialVelocity(i), initialAcceleration(i),
+                                           finalVelocity(i), finalAcceleration(i));
     }
+    if (success) minTime_ = times.front();
   }
 
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
@@ -127,26 +129,27 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const std::vector<DerivativeType>& secondDerivatives,
                         std::vector<Key>* outKeys = NULL)
   {
+    clear();
     if (times.empty()) {
-      clear();
       return;
     }
-    minTime_ = times.front();
+    bool success = true;
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues, scalarFirstDerivates, scalarSecondDerivates;
       scalarValues.reserve(times.size());
       scalarFirstDerivates.reserve(times.size());
       scalarSecondDerivates.reserve(times.size());
+      for (size_t t = 0; t < values.size(); ++t) scalarValues.push_back(values.at(t)(i));
       for (size_t t = 0; t < times.size(); ++t) {
-        scalarValues.push_back(values.at(t)(i));
         scalarFirstDerivates.push_back(firstDerivatives.at(t)(i));
         scalarSecondDerivates.push_back(secondDerivatives.at(t)(i));
       }
       // TODO Copy all derivates, right now only first and last are supported.
-      containers_.at(i).setData(times, scalarValues,
-                                *(scalarFirstDerivates.begin()), *(scalarSecondDerivates.begin()),
-                                *(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.end() - 1));
+      success &= containers_.at(i).setData(times, scalarValues,
+                                           *(scalarFirstDerivates.begin()), *(scalarSecondDerivates.begin()),
+                                           *(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.end() - 1));
     }
+    if (success) minTime_ = times.front();
   }
 
 
-- 
2.43.0


From 1ce54e8cb5eb7a8ca8dfe628c7b8e2f8cb71bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:06 +0000
Subject: [PATCH 38/38] fix: fits are accurate for durations far from one
 second

The constraints on positions and derivatives differ in magnitude by powers of the segment durations. The system was solved without refinement, so that for segments much shorter or longer than one second the curve missed its knots (by 1e-6 of their spread at 1e-4 s, entirely at 1e-8 s) or its end accelerations while the fit was reported as successful.
---
 .../curves/PolynomialSplineContainer.hpp      |  2 +-
 .../curves/PolynomialSplineContainer.tpp      | 47 ++++++++++++++-----
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 5cb511b..cb0952d 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -174,7 +174,7 @@ class PolynomialSplineContainer {
       const unsigned int num_junctions);
 
   //! Find spline coefficients that satisfy the equality constraints.
-  Eigen::VectorXd solveEqualityConstraints() const;
+  Eigen::VectorXd solveEqualityConstraints(const std::vector<double>& splineDurations) const;
 
   bool extractSplineCoefficients(
       const Eigen::VectorXd& coeffs,
diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 852884b..08cfcf5 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -318,7 +318,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   }
 
   // Find spline coefficients.
-  const Eigen::VectorXd coeffs = solveEqualityConstraints();
+  const Eigen::VectorXd coeffs = solveEqualityConstraints(splineDurations);
 
   // Extract spline coefficients and add splines.
   success &= extractSplineCoefficients(coeffs, splineDurations, numSplines);
@@ -395,7 +395,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   }
 
   // Find spline coefficients.
-  const Eigen::VectorXd coeffs = solveEqualityConstraints();
+  const Eigen::VectorXd coeffs = solveEqualityConstraints(splineDurations);
 
   // Extract spline coefficients and add splines.
   success &= extractSplineCoefficients(coeffs, splineDurations, numSplines);
@@ -550,17 +550,42 @@ void PolynomialSplineContainer<splineOrder_>::addJunctionsConditions(const std::
 }
 
 template <int splineOrder_>
-Eigen::VectorXd PolynomialSplineContainer<splineOrder_>::solveEqualityConstraints() const {
-  const Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr(equalityConstraintJacobian_);
-  if (qr.nonzeroPivots() == equalityConstraintJacobian_.rows()) {
-    return qr.solve(equalityConstraintTargetValues_);
+Eigen::VectorXd PolynomialSplineContainer<splineOrder_>::solveEqualityConstraints(
+    const std::vector<double>& splineDurations) const {
+  const Eigen::MatrixXd& A = equalityConstraintJacobian_;
+  const Eigen::VectorXd& b = equalityConstraintTargetValues_;
+
+  // Constraints on positions and on derivatives differ in magnitude, unless the durations are close to one. The solution
+  // is refined such that each of them is satisfied accurately.
+  constexpr int num_refinements = 2;
+
+  const Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr(A);
+  if (qr.nonzeroPivots() == A.rows()) {
+    Eigen::VectorXd coeffs = qr.solve(b);
+    for (int i=0; i<num_refinements; ++i) {
+      coeffs += qr.solve(b - A*coeffs);
+    }
+    return coeffs;
+  }
+
+  // The constraints are independent, but if durations differ by orders of magnitude from one or from each other they do
+  // not look like it, unless the coefficients are scaled to splines of unit duration.
+  Eigen::VectorXd columnScale(A.cols());
+  for (unsigned int splineId=0; splineId<splineDurations.size(); ++splineId) {
+    typename SplineType::EigenTimeVectorType timeVec;
+    SplineType::getTimeVector(timeVec, splineDurations[splineId]);
+    columnScale.template segment<SplineType::coefficientCount>(getSplineColumnIndex(splineId)) = timeVec.cwiseInverse();
   }
+  Eigen::MatrixXd scaledA = A * columnScale.asDiagonal();
+  const Eigen::VectorXd rowScale = scaledA.rowwise().norm().cwiseInverse();
+  scaledA = rowScale.asDiagonal() * scaledA;
 
-  // The constraints are independent, but if the durations of the splines differ by orders of magnitude they do not look
-  // like it, unless the coefficients are scaled.
-  const Eigen::VectorXd scale = equalityConstraintJacobian_.colwise().norm().cwiseInverse();
-  const Eigen::MatrixXd scaledJacobian = equalityConstraintJacobian_ * scale.asDiagonal();
-  return scale.cwiseProduct(scaledJacobian.colPivHouseholderQr().solve(equalityConstraintTargetValues_));
+  const Eigen::ColPivHouseholderQR<Eigen::MatrixXd> scaledQr(scaledA);
+  Eigen::VectorXd coeffs = columnScale.cwiseProduct(scaledQr.solve(rowScale.cwiseProduct(b)));
+  for (int i=0; i<num_refinements; ++i) {
+    coeffs += columnScale.cwiseProduct(scaledQr.solve(rowScale.cwiseProduct(b - A*coeffs)));
+  }
+  return coeffs;
 }
 
 template <int splineOrder_>
-- 
2.43.0

