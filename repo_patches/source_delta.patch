From 548896d4b94e2009bc3ab6b6f18a6bf2c109a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 01/37] fix: read the times from the leading CSV columns

loadTimeVectorCSV and loadTimeTimeVectorCSV document the formats
'time, v0, ...' and 'time0, time1, v0, ...' but read the times one column
too far to the right, so writeTimeVectorCSV data did not load back.
---
 curves/src/helpers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 1e8a580..8a6ca44 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -71,7 +71,7 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
@@ -120,8 +120,8 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(1).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(2).c_str()));
+    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
-- 
2.43.0


From 4e8255a2fd32da8b5d54ab1d2755583b9b42095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 02/37] fix: write CSV numbers with round-trip precision

toString() used the default six digits, so times and values changed when a
file written by writeTimeVectorCSV was loaded again.
---
 curves/src/helpers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 8a6ca44..671a11f 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -6,6 +6,8 @@
 
 #include <curves/helpers.hpp>
 #include <fstream>
+#include <limits>
+#include <sstream>
 #include <glog/logging.h>
 
 
@@ -13,7 +15,10 @@ namespace curves {
 
 template <typename T>
 std::string toString(const T& t) {
-  std::ostringstream ss; ss<<t; return ss.str();
+  std::ostringstream ss;
+  // Enough digits to read back the exact value.
+  ss.precision(std::numeric_limits<double>::max_digits10);
+  ss<<t; return ss.str();
 }
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
-- 
2.43.0


From 94c5f61feca695e8429ca79b2af00f6888ab57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 03/37] fix: take the start time into account in
 PolynomialSplineVectorSpaceCurve

A curve fitted to times that do not start at zero was evaluated shifted by
its start time, and getMaxTime() returned the duration only. Do what
PolynomialSplineScalarCurve does.
---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index ea5f9a9..799c573 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -50,11 +50,12 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual Time getMaxTime() const
   {
-    return containers_.at(0).getContainerDuration();
+    return containers_.at(0).getContainerDuration() + minTime_;
   }
 
   virtual bool evaluate(ValueType& value, Time time) const
   {
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       value(i) = containers_.at(i).getPositionAtTime(time);
     }
@@ -63,7 +64,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual bool evaluateDerivative(DerivativeType& value, Time time, unsigned derivativeOrder) const
   {
-
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       if (derivativeOrder == 1) {
         value(i) = containers_.at(i).getVelocityAtTime(time);
-- 
2.43.0


From a11313cd2e6cf9e7e69bc01234b09825965e272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 04/37] fix: reset the start time in
 PolynomialSplineVectorSpaceCurve::clear

---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 799c573..0a21657 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -150,6 +150,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
     for (size_t i = 0; i < N; ++i) {
       containers_.at(i).reset();
     }
+    minTime_ = 0;
   }
 
   virtual void transformCurve(const ValueType /*T*/)
-- 
2.43.0


From d4933e2b5c393c513b7cfc1770d5c684b9ee50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 05/37] fix: fitCurve(options) replaces the existing scalar
 curve

Curve::fitCurve documents that the existing curve is cleared; the overload
taking spline options appended to it.
---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index c85933b..b632dcb 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -131,6 +131,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
                         std::vector<Key>* outKeys = NULL)
   {
+    container_.reset();
     container_.reserveSplines(optionList.size());
     for (const auto& options : optionList) {
       container_.addSpline(PolynomialSplineQuintic(options));
-- 
2.43.0


From a8d818eeb3d92fad1257a89977f0608f48350cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 06/37] fix: do not access the front of an empty time list when
 fitting a curve

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp  |  4 ++--
 .../curves/PolynomialSplineVectorSpaceCurve.hpp        | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index b632dcb..ef2a192 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -115,7 +115,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
                         std::vector<Key>* outKeys = NULL)
   {
     container_.setData(times, values, 0.0, 0.0, 0.0, 0.0);
-    minTime_ = times.front();
+    minTime_ = times.empty() ? 0.0 : times.front();
   }
 
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
@@ -125,7 +125,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   {
     container_.setData(times, values, initialVelocity, initialAcceleration, finalVelocity,
                        finalAcceleration);
-    minTime_ = times.front();
+    minTime_ = times.empty() ? 0.0 : times.front();
   }
 
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 0a21657..8d94082 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -88,7 +88,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
                         std::vector<Key>* outKeys = NULL)
   {
-    minTime_ = times.front();
+    minTime_ = times.empty() ? 0.0 : times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
       scalarValues.reserve(times.size());
@@ -104,7 +104,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const DerivativeType& finalVelocity,
                         const DerivativeType& finalAcceleration)
   {
-    minTime_ = times.front();
+    minTime_ = times.empty() ? 0.0 : times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
       scalarValues.reserve(times.size());
@@ -119,7 +119,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const std::vector<DerivativeType>& secondDerivatives,
                         std::vector<Key>* outKeys = NULL)
   {
-    minTime_ = times.front();
+    minTime_ = times.empty() ? 0.0 : times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues, scalarFirstDerivates, scalarSecondDerivates;
       scalarValues.reserve(times.size());
@@ -131,6 +131,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
         scalarSecondDerivates.push_back(secondDerivatives.at(t)(i));
       }
       // TODO Copy all derivates, right now only first and last are supported.
+      if (times.empty()) {
+        containers_.at(i).reset();
+        continue;
+      }
       containers_.at(i).setData(times, scalarValues,
                                 *(scalarFirstDerivates.begin()), *(scalarSecondDerivates.begin()),
                                 *(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.end() - 1));
-- 
2.43.0


From 5d001fb4e7c49338ada8dcb649d45c3d296324bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 07/37] fix: define the time vectors at zero for spline orders
 1, 2 and 4

They are ODR-used through data(), so containers of these orders did not link.
---
 curves/src/polynomial_splines_traits.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/curves/src/polynomial_splines_traits.cpp b/curves/src/polynomial_splines_traits.cpp
index 3c1f093..e63ef00 100644
--- a/curves/src/polynomial_splines_traits.cpp
+++ b/curves/src/polynomial_splines_traits.cpp
@@ -14,11 +14,26 @@ namespace spline_traits {
 template<typename Core_, int SplineOrder_>
 constexpr unsigned int spline_rep<Core_, SplineOrder_>::numCoefficients;
 
+using spline1 = spline_rep<double, 1>;
+constexpr std::array<double, spline1::numCoefficients> spline1::tauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::dtauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::ddtauZero;
+
+using spline2 = spline_rep<double, 2>;
+constexpr std::array<double, spline2::numCoefficients> spline2::tauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::dtauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::ddtauZero;
+
 using spline3 = spline_rep<double, 3>;
 constexpr std::array<double, spline3::numCoefficients> spline3::tauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::dtauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::ddtauZero;
 
+using spline4 = spline_rep<double, 4>;
+constexpr std::array<double, spline4::numCoefficients> spline4::tauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::dtauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::ddtauZero;
+
 using spline5 = spline_rep<double, 5>;
 constexpr std::array<double, spline5::numCoefficients> spline5::tauZero;
 constexpr std::array<double, spline5::numCoefficients> spline5::dtauZero;
-- 
2.43.0


From 7b31941907338b25b46743dbbfadb8045cdac7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 08/37] fix: getDDiffTimeVector returns the second derivative

---
 curves/include/curves/PolynomialSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index 0695acc..deb5b75 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -188,7 +188,7 @@ class PolynomialSpline {
            ddtimeVec.cols() == EigenTimeVectorType::ColsAtCompileTime);
     // https://eigen.tuxfamily.org/dox/TopicFunctionTakingEigenTypes.html
     const_cast<Eigen::MatrixBase<Derived>&>(ddtimeVec) =
-        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::dtau(tk)).data());
+        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::ddtau(tk)).data());
   }
 
   //! Get the second derivative of the time vector evaluated at time tk and add it to the input vector.
-- 
2.43.0


From 30b3a1c68a870905dee259c2cc04796dc6f86cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:49 +0000
Subject: [PATCH 09/37] fix: initialise didEvaluateCoeffs_ when constructing
 from spline options

Copying such a spline read an indeterminate bool.
---
 curves/include/curves/PolynomialSpline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index deb5b75..002691c 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -61,11 +61,11 @@ class PolynomialSpline {
 
   }
 
-  explicit PolynomialSpline(const SplineOptions& options) : duration_(options.tf_) {
+  explicit PolynomialSpline(const SplineOptions& options) : duration_(options.tf_), didEvaluateCoeffs_(true) {
     computeCoefficients(options);
   }
 
-  explicit PolynomialSpline(SplineOptions&& options) : duration_(options.tf_) {
+  explicit PolynomialSpline(SplineOptions&& options) : duration_(options.tf_), didEvaluateCoeffs_(true) {
     computeCoefficients(std::move(options));
   }
 
-- 
2.43.0


From a6f7ea9ab6336127935b10e3de2f0f481e4aea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 10/37] fix: reject invalid knots in
 PolynomialSplineContainer::setData

Without knots the number of splines wrapped around, and fewer positions than
knot times were read out of bounds. A rejected call now always returns false
and leaves the container empty, also in the overload without derivatives,
which kept the old or a partial trajectory.
---
 .../curves/PolynomialSplineContainer.tpp      | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 99ac23e..8a173c1 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -251,17 +251,17 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   bool success = reset();
 
+  if (knotDurations.size()<2 || knotPositions.size()!=knotDurations.size()) {
+    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
+    return false;
+  }
+
   // Set up optimization parameters.
   const unsigned int numSplines = knotDurations.size()-1;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1;
 
-  if (numSplines<1) {
-    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
-    return false;
-  }
-
   // Total number of constraints.
   constexpr unsigned int num_initial_constraints = 3;   // pos, vel, accel
   constexpr unsigned int num_final_constraints = 3;     // pos, vel, accel
@@ -328,17 +328,17 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   bool success = reset();
 
+  if (knotDurations.size()<2 || knotPositions.size()!=knotDurations.size()) {
+    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
+    return false;
+  }
+
   // Set up optimization parameters.
   const unsigned int numSplines = knotDurations.size()-1u;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1u;
 
-  if (numSplines<1u) {
-    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
-    return false;
-  }
-
   // Total number of constraints.
   constexpr unsigned int num_initial_constraints = 2u;   // pos, vel
   constexpr unsigned int num_final_constraints = 2u;     // pos, vel
@@ -402,25 +402,24 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
     const std::vector<double>& knotDurations,
     const std::vector<double>& knotPositions) {
 
-  bool success = true;
+  bool success = reset();
   const int numSplines = knotDurations.size()-1;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   typename SplineType::SplineCoefficients coefficients;
 
-  if (splineOrder_==0 || numSplines<1) {
+  if (splineOrder_==0 || numSplines<1 || knotPositions.size()!=knotDurations.size()) {
     return false;
   }
 
   std::fill(coefficients.begin(), coefficients.end(), 0.0);
 
-  success &= reset();
-
   this->reserveSplines(numSplines);
 
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
     if (duration<=0.0) {
+      reset();
       return false;
     }
 
-- 
2.43.0


From 6e3fa4d7e1dacf4828d352eeeb76a0c717eb6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 11/37] fix: keep the container clock consistent with the
 active spline

advance() moved at most one spline per call and never back, so steps across
several splines evaluated the wrong one; setContainerTime() on an empty
container left index -1, which was then used to access the splines; and
splines added after the end was reached were evaluated with a stale offset.
Evaluate at the container time, and look the active spline up.
---
 .../curves/PolynomialSplineContainer.tpp      | 39 ++++++-------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 8a173c1..ec2b084 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -36,18 +36,16 @@ const typename PolynomialSplineContainer<splineOrder_>::SplineList& PolynomialSp
 template <int splineOrder_>
 bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
 {
-  if (splines_.empty() || containerTime_ >= containerDuration_ || activeSplineIdx_ == splines_.size()) {
+  if (splines_.empty() || containerTime_ >= containerDuration_) {
     return false;
   }
 
   // Advance in time.
   containerTime_ += dt;
 
-  // Check if spline index needs to be increased.
-  if ((containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
-    if (activeSplineIdx_ < (splines_.size() - 1)) {
-      timeOffset_ += splines_[activeSplineIdx_].getSplineDuration();
-    }
+  // Find the spline that is active now. It can be several splines away.
+  activeSplineIdx_ = getActiveSplineIndexAtTime(containerTime_, timeOffset_);
+  if (containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration()) {
     ++activeSplineIdx_;
   }
 
@@ -57,8 +55,11 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
 template <int splineOrder_>
 void PolynomialSplineContainer<splineOrder_>::setContainerTime(double t)
 {
+  resetTime();
   containerTime_ = t;
-  activeSplineIdx_ = getActiveSplineIndexAtTime(t, timeOffset_);
+  if (!splines_.empty()) {
+    activeSplineIdx_ = getActiveSplineIndexAtTime(t, timeOffset_);
+  }
 }
 
 template <int splineOrder_>
@@ -101,36 +102,18 @@ bool PolynomialSplineContainer<splineOrder_>::isEmpty() const
 template <int splineOrder_>
 double PolynomialSplineContainer<splineOrder_>::getPosition() const
 {
-  if (splines_.empty()) {
-    return 0.0;
-  }
-  if (activeSplineIdx_ == splines_.size()) {
-    return splines_.back().getPositionAtTime(containerTime_ - timeOffset_);
-  }
-  return splines_[activeSplineIdx_].getPositionAtTime(containerTime_ - timeOffset_);
+  return getPositionAtTime(containerTime_);
 }
 
 template <int splineOrder_>
 double PolynomialSplineContainer<splineOrder_>::getVelocity() const {
-  if (splines_.empty()) {
-    return 0.0;
-  }
-  if (activeSplineIdx_ == splines_.size()) {
-    return splines_.back().getVelocityAtTime(containerTime_ - timeOffset_);
-  }
-  return splines_[activeSplineIdx_].getVelocityAtTime(containerTime_ - timeOffset_);
+  return getVelocityAtTime(containerTime_);
 }
 
 template <int splineOrder_>
 double PolynomialSplineContainer<splineOrder_>::getAcceleration() const
 {
-  if (splines_.empty()) {
-    return 0.0;
-  }
-  if (activeSplineIdx_ == splines_.size()) {
-    return splines_.back().getAccelerationAtTime(containerTime_ - timeOffset_);
-  }
-  return splines_[activeSplineIdx_].getAccelerationAtTime(containerTime_ - timeOffset_);
+  return getAccelerationAtTime(containerTime_);
 }
 
 template <int splineOrder_>
-- 
2.43.0


From bd6fea736202d15273d0b6718ff64db8e0392c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 12/37] fix: make the coefficient manager's key based methods
 compile

equals, hasCoefficientWithKey, removeCoefficientWithKey, getCoefficients and
getCoefficientsInRange mixed up the two indices and could not be
instantiated.
---
 .../LocalSupport2CoefficientManager-inl.hpp   | 30 +++++--------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ed9f025..272432e 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -32,25 +32,12 @@ bool LocalSupport2CoefficientManager<Coefficient>::equals(const LocalSupport2Coe
   equal &= timeToCoefficient_.size() == other.timeToCoefficient_.size();
   if (equal) {
     CoefficientIter it1, it2;
-    it1 = keyToCoefficient_.begin();
-    it2 = other.keyToCoefficient_.begin();
-    for( ; it1 != keyToCoefficient_.end(); ++it1, ++it2) {
+    it1 = timeToCoefficient_.begin();
+    it2 = other.timeToCoefficient_.begin();
+    for( ; it1 != timeToCoefficient_.end(); ++it1, ++it2) {
       equal &= it1->first == it2->first;
       equal &= it1->second.equals(it2->second);
     }
-
-    CoefficientIter it3, it4;
-    it3 = timeToCoefficient_.begin();
-    it4 = other.timeToCoefficient_.begin();
-    for( ; it3 != timeToCoefficient_.end(); ++it3, ++it4) {
-      equal &= it3->first == it4->first;
-      if (it3->second && it4->second) {
-        equal &= it3->second->equals(*(it4->second));
-      } else {
-        equal &= it3->second == it4->second;
-      }
-    }
-
   }
   return equal;
 }
@@ -195,7 +182,7 @@ void LocalSupport2CoefficientManager<Coefficient>::removeCoefficientWithKey(Key
   typename TimeToKeyCoefficientMap::iterator it1;
   typename boost::unordered_map<Key, CoefficientIter>::iterator it2;
   it2 = keyToCoefficient_.find(key);
-  it1 = timeToCoefficient_.find(it1->second->first);
+  it1 = timeToCoefficient_.find(it2->second->first);
   timeToCoefficient_.erase(it1);
   keyToCoefficient_.erase(it2);
 }
@@ -221,8 +208,7 @@ bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientAtTime(Time tim
 /// \brief return true if there is a coefficient with this key
 template <class Coefficient>
 bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientWithKey(Key key) const {
-  CoefficientIter it = keyToCoefficient_.find(key);
-  return it != keyToCoefficient_.end();
+  return keyToCoefficient_.find(key) != keyToCoefficient_.end();
 }
 
 /// \brief set the coefficient associated with this key
@@ -306,10 +292,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     it--;
     // iterate through coefficients
     for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
     if (it != timeToCoefficient_.end()) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
   }
 }
@@ -321,7 +307,7 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficients(CoefficientMa
   CoefficientIter it;
   it = timeToCoefficient_.begin();
   for( ; it != timeToCoefficient_.end(); ++it) {
-    (*outCoefficients)[it->second->key] = it->second->coefficient;
+    (*outCoefficients)[it->second.key] = it->second.coefficient;
   }
 }
 
-- 
2.43.0


From a8d32c6a032b3d9b8249576e34118254880b2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 13/37] fix: getCoefficientsInRange on an empty coefficient
 manager

It decremented the end iterator of an empty map.
---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 272432e..c042604 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -276,7 +276,7 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     Time startTime, Time endTime, CoefficientMap* outCoefficients) const {
 
-  if (startTime <= endTime && startTime <= this->getMaxTime()
+  if (!timeToCoefficient_.empty() && startTime <= endTime && startTime <= this->getMaxTime()
       && endTime >= this->getMinTime()) {
     // be forgiving if start time is lower than definition of curve
     if (startTime < this->getMinTime()) {
-- 
2.43.0


From ff9fd70913c21687eb0ce37db135849f134848be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 14/37] fix: getTimesInWindow includes the first coefficient

The first coefficient was left out when the window starts at it, and the loop
stepped in front of the map.
---
 .../curves/LocalSupport2CoefficientManager-inl.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index c042604..14fa53b 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -80,16 +80,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getTimesInWindow(std::vector<
   CHECK_NOTNULL(outTimes);
 
   outTimes->clear();
-  CoefficientIter it = --(timeToCoefficient_.end());
-
-  do {
-    if (it->first >= begTime) {
-      outTimes->push_back(it->first);
-    }
-    --it;
-  } while (it->first >= begTime && it != timeToCoefficient_.begin());
-
-  std::reverse(outTimes->begin(),outTimes->end());
+  CoefficientIter it = timeToCoefficient_.lower_bound(begTime);
+  for( ; it != timeToCoefficient_.end(); ++it) {
+    outTimes->push_back(it->first);
+  }
 }
 
 template <class Coefficient>
-- 
2.43.0


From 4cbb7afc5e0d4118390b66245652fcd47ab4fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 15/37] fix: addCoefficientAtEnd on an empty coefficient
 manager

It decremented the end iterator of an empty map, and rejected times that are
not positive.
---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 14fa53b..2c4ac5a 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -144,12 +144,12 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBat
 
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time, const Coefficient& coefficient, std::vector<Key>* outKeys) {
-  CHECK(time > getMaxTime()) << "Time to add is not greater than curve max time";
+  CHECK(timeToCoefficient_.empty() || time > getMaxTime()) << "Time to add is not greater than curve max time";
 
   Key key = KeyGenerator::getNextKey();
 
   // Insert the coefficient with a hint that it goes at the end
-  CoefficientIter it = timeToCoefficient_.insert(--(timeToCoefficient_.end()),
+  CoefficientIter it = timeToCoefficient_.insert(timeToCoefficient_.end(),
                                                  std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
 
   keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
-- 
2.43.0


From 3ffab142343b7b43ba91b0bf5d6500efab9e3b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 16/37] fix: modifyCoefficient must not lose coefficients

With the time unchanged the coefficient was erased while its key stayed, and
a time already taken left two keys for one coefficient.
---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 2c4ac5a..fea2f80 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -163,6 +163,11 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename Ti
                                                                      Time time, const Coefficient& coefficient) {
   // This is used by slerp sampling policy.
   // In this case a new coefficient should be placed slightly later than the initial one.
+  if (it->first == time) {
+    it->second.coefficient = coefficient;
+    return;
+  }
+  CHECK(!this->hasCoefficientAtTime(time)) << "There is already a coefficient at that time.";
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
   // Update keyToCoefficient_
   keyToCoefficient_[it->second.key] = newIt;
-- 
2.43.0


From b49594bb41f8a30b2f97450da1f68017b1550c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 17/37] fix: modifyCoefficientsValuesInBatch checks that the
 coefficients exist

An unknown first time, or more times than coefficients, ran out of the map.
---
 .../curves/LocalSupport2CoefficientManager-inl.hpp     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index fea2f80..cbd8c27 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -128,14 +128,14 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBatch(const std::vector<Time>& times,
                                                                                    const std::vector<Coefficient>& values) {
   CHECK_EQ(times.size(), values.size());
+  if (times.empty()) {
+    return;
+  }
   // Get an iterator to the first coefficient
-  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.end();
-
-  do {
-    --it;
-  } while (it->first != times[0]);
+  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.find(times[0]);
 
   for (size_t i = 0; i < times.size(); ++i) {
+    CHECK(it != timeToCoefficient_.end()) << "No coefficient at time " << times[i];
     CHECK_EQ(it->first,times[i]);
     it->second.coefficient = values[i];
     ++it;
-- 
2.43.0


From eb9520343deea7dc26cfc26f3008d5c91ef0d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 18/37] fix: copy the key index of the coefficient manager

The implicit copy kept iterators into the map of the original, so that a copy
read and modified the original, also after its destruction.
---
 .../LocalSupport2CoefficientManager-inl.hpp   | 19 +++++++++++++++++++
 .../LocalSupport2CoefficientManager.hpp       |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index cbd8c27..4ce1415 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -19,6 +19,25 @@ template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager() {
 }
 
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other) {
+  *this = other;
+}
+
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>&
+LocalSupport2CoefficientManager<Coefficient>::operator=(const LocalSupport2CoefficientManager& other) {
+  if (this != &other) {
+    timeToCoefficient_ = other.timeToCoefficient_;
+    // The key index holds iterators into the map of this object.
+    keyToCoefficient_.clear();
+    for (CoefficientIter it = timeToCoefficient_.begin(); it != timeToCoefficient_.end(); ++it) {
+      keyToCoefficient_[it->second.key] = it;
+    }
+  }
+  return *this;
+}
+
 template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::~LocalSupport2CoefficientManager() {
 }
diff --git a/curves/include/curves/LocalSupport2CoefficientManager.hpp b/curves/include/curves/LocalSupport2CoefficientManager.hpp
index 1e769d4..ff6deaf 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager.hpp
@@ -50,6 +50,8 @@ class LocalSupport2CoefficientManager {
   typedef boost::unordered_map<size_t, Coefficient> CoefficientMap;
 
   LocalSupport2CoefficientManager();
+  LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other);
+  LocalSupport2CoefficientManager& operator=(const LocalSupport2CoefficientManager& other);
   virtual ~LocalSupport2CoefficientManager();
 
   /// Compare this Coefficient manager with another for equality.
-- 
2.43.0


From f0d274f0ad40b5d547104b290b5ce08ca9972042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 19/37] fix: fitting a CubicHermiteE3Curve replaces the
 existing curve

As documented, and as CubicHermiteSE3Curve does. Old coefficients stayed
between the new ones.
---
 curves/src/CubicHermiteE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 60ad7d3..1a82b39 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -146,6 +146,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
                       const DerivativeType& finalDerivative,
                       std::vector<Key>* outKeys) {
   assert(times.size() == values.size());
+  clear();
 
   // construct the Hemrite coefficients
   std::vector<Coefficient> coefficients;
-- 
2.43.0


From ab1d1374b3e712c040a51767d36d0ac50d14f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 20/37] fix: do not evaluate an empty Hermite curve at time
 zero

Minimum and maximum time of an empty curve are zero, so the curve was taken to
have one coefficient, and the end iterator was dereferenced.
---
 curves/src/CubicHermiteE3Curve.cpp  | 4 ++--
 curves/src/CubicHermiteSE3Curve.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 1a82b39..0270c96 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -184,7 +184,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
 /// Evaluate the ambient space of the curve.
 bool CubicHermiteE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-   if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+   if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
      value =  manager_.coefficientBegin()->second.coefficient.getPosition();
      return true;
    }
@@ -237,7 +237,7 @@ bool CubicHermiteE3Curve::evaluateDerivative(DerivativeType& derivative, Time ti
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-      if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+      if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
         derivative = manager_.coefficientBegin()->second.coefficient.getVelocity();
         return true;
       }
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index b1f9c28..ebfd539 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -194,7 +194,7 @@ void CubicHermiteSE3Curve::extend(const std::vector<Time>& /*times*/,
 
 bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-  if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+  if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
     value =  manager_.coefficientBegin()->second.coefficient.getTransformation();
     return true;
   }
@@ -273,7 +273,7 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-    if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+    if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
       derivative = manager_.coefficientBegin()->second.coefficient.getTransformationDerivative();
       return true;
     }
-- 
2.43.0


From 88df242aebabc45816f86d5595b589c0e257ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 21/37] fix: derivative at the seam of a periodic Hermite curve

The slope between the last but one and the second point was divided by the
time difference within one period instead of across the seam, which gives
the wrong sign and magnitude, and a division by zero for three points.
---
 curves/src/CubicHermiteE3Curve.cpp  | 6 ++++--
 curves/src/CubicHermiteSE3Curve.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 0270c96..cf0add7 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -135,8 +135,10 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  //TODO Add a check on nPoints which should be >= 2 otherwise that breaks.
-  DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  CHECK_GE(nPoints, 2u);
+  // The point before the first one is the last but one of the previous period.
+  const Time previousTime = times[nPoints-2] - (times[nPoints-1] - times[0]);
+  DerivativeType derivative = calculateSlope(previousTime, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index ebfd539..c1226b8 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -153,7 +153,10 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  CHECK_GE(nPoints, 2u);
+  // The point before the first one is the last but one of the previous period.
+  const Time previousTime = times[nPoints-2] - (times[nPoints-1] - times[0]);
+  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(previousTime, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
-- 
2.43.0


From 6f7b33cc6b118dc630cd7d2c863f09c16b61a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 22/37] fix: fromMessage of a message without joint names

The joint counts as not found; it was read from the points at index zero.
---
 curves_ros/src/RosJointTrajectoryInterface.cpp                  | 2 +-
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp          | 2 +-
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 0998e76..146a1a0 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -31,8 +31,8 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index dceae8e..e4eff81 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -34,8 +34,8 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<CubicHermiteSE3Curve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 8961923..00dbe0c 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -31,8 +31,8 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
-- 
2.43.0


From c0f500879ce45264d1b2102dbd33c5604da08187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:05 +0000
Subject: [PATCH 23/37] fix: header of the E3 Hermite curve file names its
 columns

---
 curves/src/CubicHermiteE3Curve.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index cf0add7..2f243ed 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -48,9 +48,7 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
   }
   fprintf(fp, "t ");
   fprintf(fp, "px py pz ");
-  fprintf(fp, "rw rx ry rz ");
   fprintf(fp, "vx vy vz ");
-  fprintf(fp, "wx wy wz ");
   fprintf(fp, "\n");
 
   Time dt = (getMaxTime()-getMinTime())/(nSamples-1);
-- 
2.43.0


From 251c92ec10f5c16e3d612f61069f127884349a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:05 +0000
Subject: [PATCH 24/37] fix: writeEvalToFile writes the requested number of
 samples

---
 curves/src/CubicHermiteE3Curve.cpp  | 9 +++++++--
 curves/src/CubicHermiteSE3Curve.cpp | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 2f243ed..8dc80fd 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -5,6 +5,8 @@
  *      Author: gehrinch
  */
 
+#include <algorithm>
+
 #include <curves/CubicHermiteE3Curve.hpp>
 
 namespace curves {
@@ -51,10 +53,13 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
   fprintf(fp, "vx vy vz ");
   fprintf(fp, "\n");
 
-  Time dt = (getMaxTime()-getMinTime())/(nSamples-1);
+  const Time minTime = getMinTime();
+  const Time maxTime = getMaxTime();
   ValueType position;
   DerivativeType velocity;
-  for (Time t = getMinTime(); t < getMaxTime(); t+=dt) {
+  for (int i = 0; i < nSamples; ++i) {
+    // Equally spaced samples from the start to the end of the curve.
+    const Time t = (i == nSamples-1) ? maxTime : std::min(maxTime, minTime + (maxTime-minTime)*i/(nSamples-1));
     if(!evaluate(position, t)) {
       std::cout << "Could not evaluate at time " << t << std::endl;
       fclose(fp);
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index c1226b8..cac76fc 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -6,6 +6,7 @@
  *   Institute: ETH Zurich, Autonomous Systems Lab
  */
 
+#include <algorithm>
 #include <iostream>
 
 #include "curves/CubicHermiteSE3Curve.hpp"
@@ -56,10 +57,13 @@ bool CubicHermiteSE3Curve::writeEvalToFile(const std::string& filename, int nSam
   fprintf(fp, "wx wy wz ");
   fprintf(fp, "\n");
 
-  Time dt = (getMaxTime()-getMinTime())/(nSamples-1);
+  const Time minTime = getMinTime();
+  const Time maxTime = getMaxTime();
   ValueType pose;
   DerivativeType twist;
-  for (Time t = getMinTime(); t < getMaxTime(); t+=dt) {
+  for (int i = 0; i < nSamples; ++i) {
+    // Equally spaced samples from the start to the end of the curve.
+    const Time t = (i == nSamples-1) ? maxTime : std::min(maxTime, minTime + (maxTime-minTime)*i/(nSamples-1));
     if(!evaluate(pose, t)) {
       std::cout << "Could not evaluate at time " << t << std::endl;
       fclose(fp);
-- 
2.43.0


From 27dfe28f92aa669fde9777ada8b68e50e79386e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:05 +0000
Subject: [PATCH 25/37] fix: do not save poses at times the curve does not have

---
 curves/src/CubicHermiteSE3Curve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index cac76fc..bb146eb 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -588,7 +588,7 @@ void CubicHermiteSE3Curve::saveCurveAtTimes(const std::string& filename, std::ve
   std::vector<Eigen::VectorXd> curveValues;
   ValueType val;
   for (size_t i = 0; i < times.size(); ++i) {
-    evaluate(val, times[i]);
+    CHECK(evaluate(val, times[i])) << "Unable to evaluate the curve at time " << times[i];
     v << val.getPosition().x(), val.getPosition().y(), val.getPosition().z(),
         val.getRotation().w(), val.getRotation().x(), val.getRotation().y(), val.getRotation().z();
     curveValues.push_back(v);
-- 
2.43.0


From a97a3aa4e0f20a791e637af1e0600031d6938dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:05 +0000
Subject: [PATCH 26/37] fix: angular velocity of segments that turn by half a
 turn

---
 curves/src/CubicHermiteSE3Curve.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index bb146eb..bea9a3d 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -337,9 +337,10 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
       const double beta3 = alpha3;
       const double dbeta3 = 3.0*alpha2;
 
-      const double one_third = 1.0 / 3.0;
-      const Eigen::Vector3d scaled_d_W_A = (one_third*dt_sec ) * d_W_A.getRotationalVelocity().vector();
-      const Eigen::Vector3d scaled_d_W_B = (one_third*dt_sec ) * d_W_B.getRotationalVelocity().vector();
+      // Same arithmetic as in evaluate(), such that half turns go the same way round.
+      const double dt_sec_third = dt_sec / 3.0;
+      const Eigen::Vector3d scaled_d_W_A = dt_sec_third * d_W_A.getRotationalVelocity().vector();
+      const Eigen::Vector3d scaled_d_W_B = dt_sec_third * d_W_B.getRotationalVelocity().vector();
 
       const Eigen::Vector3d w1 = T_W_A.getRotation().inverseRotate(scaled_d_W_A);
       const Eigen::Vector3d w3 = T_W_B.getRotation().inverseRotate(scaled_d_W_B);
-- 
2.43.0


From f60bfe40f85c163aba653dd5ad8fdbd7471d075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:31 +0000
Subject: [PATCH 27/37] fix: boundary conditions of splines of short or long
 duration

---
 .../include/curves/polynomial_splines_traits.hpp  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/curves/include/curves/polynomial_splines_traits.hpp b/curves/include/curves/polynomial_splines_traits.hpp
index 78e74d8..46b9821 100644
--- a/curves/include/curves/polynomial_splines_traits.hpp
+++ b/curves/include/curves/polynomial_splines_traits.hpp
@@ -13,7 +13,7 @@
 
 // eigen
 #include <Eigen/Core>
-#include <Eigen/QR>
+#include <Eigen/LU>
 
 // boost
 #include <boost/math/special_functions/pow.hpp>
@@ -195,7 +195,8 @@ struct spline_rep<double, 3> {
          Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
          Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data());
 
-    Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) = A.colPivHouseholderQr().solve(b);
+    Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) =
+        Eigen::FullPivLU<Eigen::Matrix<double, numCoefficients, numCoefficients>>(A).setThreshold(0.0).solve(b);
 
     return true;
   }
@@ -239,7 +240,8 @@ struct spline_rep<double, 4> {
          Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
          Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data());
 
-    Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) = A.colPivHouseholderQr().solve(b);
+    Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) =
+        Eigen::FullPivLU<Eigen::Matrix<double, numCoefficients, numCoefficients>>(A).setThreshold(0.0).solve(b);
 
     return true;
   }
@@ -279,13 +281,14 @@ struct spline_rep<double, 5> {
   //! Map initial pos/vel/accel and final pos/vel/accel to spline coefficients.
   static inline bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) =
-      (Eigen::Matrix<double, numCoefficients, numCoefficients>() << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
+      Eigen::FullPivLU<Eigen::Matrix<double, numCoefficients, numCoefficients>>(
+        (Eigen::Matrix<double, numCoefficients, numCoefficients>() << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
                Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
                Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(ddtauZero.data()),
                Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
                Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((ddtau(opts.tf_)).data())).finished().
-                 colPivHouseholderQr().solve(
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((ddtau(opts.tf_)).data())).finished()).
+                 setThreshold(0.0).solve(
                      (Eigen::Matrix<double, numCoefficients, 1>() << opts.pos0_, opts.vel0_, opts.acc0_, opts.posT_, opts.velT_, opts.accT_).finished());
 
     return true;
-- 
2.43.0


From 6ee58a6d8efda2b9c73c6211fd3feed3d3de1338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:08 +0000
Subject: [PATCH 28/37] fix: clearing a slerp curve also forgets its unfinished
 measurement group

---
 curves/src/SlerpSE3Curve.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/src/SlerpSE3Curve.cpp b/curves/src/SlerpSE3Curve.cpp
index 8dac84e..1814e94 100644
--- a/curves/src/SlerpSE3Curve.cpp
+++ b/curves/src/SlerpSE3Curve.cpp
@@ -256,6 +256,8 @@ void SlerpSE3Curve::setSamplingRatio(const int ratio) {
 
 void SlerpSE3Curve::clear() {
   manager_.clear();
+  // The next curve starts with a new group of measurements.
+  slerpPolicy_.setMeasurementsSinceLastExtend_(0);
 }
 
 void SlerpSE3Curve::transformCurve(const ValueType T) {
-- 
2.43.0


From e0e7ac1dd9ee050fe8becb25d41ff56b8251a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:57 +0000
Subject: [PATCH 29/37] fix: transformCurve moves the rigid-body Hermite curve

---
 curves/src/CubicHermiteSE3Curve.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index bea9a3d..f4cf305 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -572,8 +572,17 @@ void CubicHermiteSE3Curve::clear() {
   manager_.clear();
 }
 
-void CubicHermiteSE3Curve::transformCurve(const ValueType /*T*/) {
-  //todo
+void CubicHermiteSE3Curve::transformCurve(const ValueType T) {
+  std::vector<Key> keys;
+  manager_.getKeys(&keys);
+  for (size_t i = 0; i < keys.size(); ++i) {
+    // Apply a rigid transformation to every coefficient (on the left side), which also turns its global twist.
+    const Coefficient coefficient = manager_.getCoefficientByKey(keys[i]);
+    const DerivativeType derivative = coefficient.getTransformationDerivative();
+    const Eigen::Vector3d velocity = T.getRotation().rotate(derivative.getTranslationalVelocity().vector());
+    const Eigen::Vector3d angularVelocity = T.getRotation().rotate(derivative.getRotationalVelocity().vector());
+    manager_.updateCoefficientByKey(keys[i], Coefficient(T * coefficient.getTransformation(), DerivativeType(velocity, angularVelocity)));
+  }
 }
 
 void CubicHermiteSE3Curve::saveCurveTimesAndValues(const std::string& filename) const {
-- 
2.43.0


From 55bae1a013b431422d387d8515d06e65647cfc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:01 +0000
Subject: [PATCH 30/37] fix: writeCSV fails when the file cannot be written

---
 curves/src/helpers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 671a11f..905e8e9 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -48,6 +48,7 @@ void writeCSV(std::string fileName, const std::vector<std::vector<std::string> >
   CHECK_GE(strMatrix.size(), 1) << "Provided matrix of strings had no entries.";
   std::ofstream outFileStream;
   outFileStream.open(fileName.c_str());
+  CHECK(outFileStream.good()) << "error opening output file " << fileName;
   // Iterate over the rows of the string matrix and write comma-separated fields
   for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
     const unsigned fields = itRow->size();
@@ -59,6 +60,7 @@ void writeCSV(std::string fileName, const std::vector<std::vector<std::string> >
     outFileStream << std::endl;
   }
   outFileStream.close();
+  CHECK(outFileStream.good()) << "error writing output file " << fileName;
 }
 /// \brief Helper function to read CSV files formatted in: time, vectorEntry0, vectorEntry1, ...
 void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes, std::vector<Eigen::VectorXd>* outValues) {
-- 
2.43.0


From 310dccf963506ddc4e4cbfbeeb5d3abbd4793853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:01 +0000
Subject: [PATCH 31/37] fix: Hermite fits check the number of values before
 reading them

---
 curves/src/CubicHermiteE3Curve.cpp  | 3 ++-
 curves/src/CubicHermiteSE3Curve.cpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 8dc80fd..d2a60e6 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -139,6 +139,7 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    */
   const size_t nPoints = times.size();
   CHECK_GE(nPoints, 2u);
+  CHECK_EQ(nPoints, values.size());
   // The point before the first one is the last but one of the previous period.
   const Time previousTime = times[nPoints-2] - (times[nPoints-1] - times[0]);
   DerivativeType derivative = calculateSlope(previousTime, times[1], values[nPoints-2], values[1]);
@@ -150,7 +151,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
                       const DerivativeType& initialDerivative,
                       const DerivativeType& finalDerivative,
                       std::vector<Key>* outKeys) {
-  assert(times.size() == values.size());
+  CHECK_EQ(times.size(), values.size());
   clear();
 
   // construct the Hemrite coefficients
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index f4cf305..23833cd 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -158,6 +158,7 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    */
   const size_t nPoints = times.size();
   CHECK_GE(nPoints, 2u);
+  CHECK_EQ(nPoints, values.size());
   // The point before the first one is the last but one of the previous period.
   const Time previousTime = times[nPoints-2] - (times[nPoints-1] - times[0]);
   CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(previousTime, times[1], values[nPoints-2], values[1]);
-- 
2.43.0


From 521a6d1e8d8bfde4928805a96b21df3fafda7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:01 +0000
Subject: [PATCH 32/37] fix: fromMessage of a message with points that lack the
 joint

---
 curves_ros/src/RosJointTrajectoryInterface.cpp                   | 1 +
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp           | 1 +
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 146a1a0..ab4d4e2 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -38,6 +38,7 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
 
   for (const auto& point : message.points) {
+    if (j >= point.positions.size()) return false; // No position of this joint.
     times.push_back(ros::Duration(point.time_from_start).toSec());
     values.push_back(point.positions[j]);
   }
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index e4eff81..dc39491 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -41,6 +41,7 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
   std::vector<CubicHermiteSE3Curve::ValueType> values;
 
   for (const auto& point : message.points) {
+    if (j >= point.transforms.size()) return false; // No pose of this joint.
     times.push_back(ros::Duration(point.time_from_start).toSec());
     CubicHermiteSE3Curve::ValueType pose;
     kindr_ros::convertFromRosGeometryMsg(point.transforms[j], pose);
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 00dbe0c..b215b4c 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -38,6 +38,7 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
 
   for (const auto& point : message.points) { // TODO Make nicer with ROS to kindr transforms.
+    if (j >= point.transforms.size()) return false; // No position of this joint.
     times.push_back(ros::Duration(point.time_from_start).toSec());
     PolynomialSplineQuinticVector3Curve::ValueType position(point.transforms[j].translation.x,
                                                             point.transforms[j].translation.y,
-- 
2.43.0


From 05d485727d0925ef59a9ebf50040a24e915bf331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:56 +0000
Subject: [PATCH 33/37] fix: CubicHermiteE3Curve::extend says that it is not
 implemented

It returned without extending the curve, as if it had.
---
 curves/src/CubicHermiteE3Curve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index d2a60e6..b5cc1eb 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <algorithm>
+#include <stdexcept>
 
 #include <curves/CubicHermiteE3Curve.hpp>
 
@@ -120,7 +121,7 @@ CubicHermiteE3Curve::DerivativeType CubicHermiteE3Curve::calculateSlope(const Ti
 void CubicHermiteE3Curve::extend(const std::vector<Time>& /*times*/,
                     const std::vector<ValueType>& /*values*/,
                     std::vector<Key>* /*outKeys*/) {
-
+  throw std::runtime_error("CubicHermiteE3Curve::extend is not implemented!");
 }
 
 
-- 
2.43.0


From bc3066d605d7c82a1532bab77cb821c246d9b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:56 +0000
Subject: [PATCH 34/37] fix: CubicHermiteSE3Curve::print prints the
 coefficients

They were written to a string stream that was thrown away.
---
 curves/src/CubicHermiteSE3Curve.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 23833cd..82a97e9 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -26,7 +26,6 @@ void CubicHermiteSE3Curve::print(const std::string& str) const {
   std::cout << str << std::endl;
   std::cout << "num of coefficients: " << manager_.size() << std::endl;
   std::cout << "dimension: " << 6 << std::endl;
-  std::stringstream ss;
   std::vector<Key> keys;
   std::vector<Time> times;
   manager_.getTimes(&times);
@@ -35,11 +34,10 @@ void CubicHermiteSE3Curve::print(const std::string& str) const {
       " and " << manager_.getMaxTime() <<std::endl;
   std::cout <<"=========================================" <<std::endl;
   for (size_t i = 0; i < manager_.size(); i++) {
-    ss << "coefficient " << keys[i] << ": ";
-    ss << manager_.getCoefficientByKey(keys[i]).getTransformation() << std::endl;
-    ss << " | time: " << times[i];
-    ss << std::endl;
-    ss.str("");
+    std::cout << "coefficient " << keys[i] << ": ";
+    std::cout << manager_.getCoefficientByKey(keys[i]).getTransformation() << std::endl;
+    std::cout << " | time: " << times[i];
+    std::cout << std::endl;
   }
   std::cout <<"=========================================" <<std::endl;
 }
-- 
2.43.0


From e787e07835dc68a5fedde2de0d3a6c0e7598d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:56 +0000
Subject: [PATCH 35/37] fix: SlerpSE3Curve::print of any curve

It read past the end of the times of an empty curve, aborted in the evaluation that is not implemented for two or more coefficients, and dropped the keys.
---
 curves/src/SlerpSE3Curve.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/curves/src/SlerpSE3Curve.cpp b/curves/src/SlerpSE3Curve.cpp
index 1814e94..3d1be7f 100644
--- a/curves/src/SlerpSE3Curve.cpp
+++ b/curves/src/SlerpSE3Curve.cpp
@@ -21,7 +21,6 @@ void SlerpSE3Curve::print(const std::string& str) const {
   std::cout << str << std::endl;
   std::cout << "num of coefficients: " << manager_.size() << std::endl;
   std::cout << "dimension: " << 6 << std::endl;
-  std::stringstream ss;
   std::vector<Key> keys;
   std::vector<Time> times;
   manager_.getTimes(&times);
@@ -30,19 +29,18 @@ void SlerpSE3Curve::print(const std::string& str) const {
       " and " << manager_.getMaxTime() <<std::endl;
   double sum_dp = 0;
   Eigen::Vector3d p1, p2;
-  for(size_t i = 0; i < times.size()-1; ++i) {
-    p1 = evaluate(times[i]).getPosition().vector();
-    p2 = evaluate(times[i+1]).getPosition().vector();
+  for(size_t i = 0; i + 1 < times.size(); ++i) {
+    p1 = manager_.getCoefficientByKey(keys[i]).getPosition().vector();
+    p2 = manager_.getCoefficientByKey(keys[i+1]).getPosition().vector();
     sum_dp += (p1-p2).norm();
   }
   std::cout << "average dt between coefficients: " << (manager_.getMaxTime() -manager_.getMinTime())  / (times.size()-1) << " ns." << std::endl;
   std::cout << "average distance between coefficients: " << sum_dp / double((times.size()-1))<< " m." << std::endl;
   std::cout <<"=========================================" <<std::endl;
   for (size_t i = 0; i < manager_.size(); i++) {
-    ss << "coefficient " << keys[i] << ": ";
+    std::cout << "coefficient " << keys[i] << ": ";
     std::cout << " | time: " << times[i];
     std::cout << std::endl;
-    ss.str("");
   }
   std::cout <<"=========================================" <<std::endl;
 }
-- 
2.43.0


From 47f24c4220db3c25f9d126eba928e0876a2ecae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:15 +0000
Subject: [PATCH 36/37] fix: CSV numbers do not depend on the locale

In a locale with a decimal comma the numbers were written with commas,
which also separate the fields, and read only up to the decimal point.
---
 curves/src/helpers.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 905e8e9..8f0fcf3 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -7,6 +7,7 @@
 #include <curves/helpers.hpp>
 #include <fstream>
 #include <limits>
+#include <locale>
 #include <sstream>
 #include <glog/logging.h>
 
@@ -16,10 +17,20 @@ namespace curves {
 template <typename T>
 std::string toString(const T& t) {
   std::ostringstream ss;
+  // Independent of the locale, in which the decimal separator can be a comma.
+  ss.imbue(std::locale::classic());
   // Enough digits to read back the exact value.
   ss.precision(std::numeric_limits<double>::max_digits10);
   ss<<t; return ss.str();
 }
+/// \brief Read a number as written by toString, independent of the locale
+static double toDouble(const std::string& str) {
+  std::istringstream ss(str);
+  ss.imbue(std::locale::classic());
+  double value;
+  if (ss >> value) return value;
+  return atof(str.c_str()); // Not a finite number.
+}
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
   // Open file stream and check that it is error free
@@ -78,9 +89,9 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes->push_back((curves::Time)toDouble(it->at(0)));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
-      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
+      tempVec[vIdx] = toDouble(it->at(vIdx + vOffset));
     }
     outValues->push_back(tempVec);
   }
@@ -127,10 +138,10 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes0->push_back((curves::Time)toDouble(it->at(0)));
+    outTimes1->push_back((curves::Time)toDouble(it->at(1)));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
-      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
+      tempVec[vIdx] = toDouble(it->at(vIdx + vOffset));
     }
     outValues->push_back(tempVec);
   }
-- 
2.43.0


From cebd52982fe181bbed300ff476c4170d264b2538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:20 +0000
Subject: [PATCH 37/37] fix: container fits reject knot times that are not a
 number

---
 curves/include/curves/PolynomialSplineContainer.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index ec2b084..87e38e5 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -263,7 +263,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (unsigned int splineId=0; splineId<numSplines; splineId++) {
     splineDurations[splineId] = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (splineDurations[splineId]<=0.0) {
+    if (!(splineDurations[splineId]>0.0)) {
       std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
       return false;
     }
@@ -340,7 +340,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (unsigned int splineId=0; splineId<numSplines; splineId++) {
     splineDurations[splineId] = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (splineDurations[splineId]<=0.0) {
+    if (!(splineDurations[splineId]>0.0)) {
       std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
       return false;
     }
@@ -401,7 +401,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (duration<=0.0) {
+    if (!(duration>0.0)) {
       reset();
       return false;
     }
-- 
2.43.0

