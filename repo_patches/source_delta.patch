From cba919e59aee5cace4ea471d2f206444a8806ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 01/36] fix: forget the previous result when a sample consensus
 object is reused

A computeModel() that found no model kept the selection of an earlier
call and returned true with a stale model and inlier set.
---
 include/opengv/sac/implementation/Lmeds.hpp       | 4 ++++
 include/opengv/sac/implementation/MultiRansac.hpp | 4 ++++
 include/opengv/sac/implementation/Ransac.hpp      | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/opengv/sac/implementation/Lmeds.hpp b/include/opengv/sac/implementation/Lmeds.hpp
index 637b4b0..e9e7021 100644
--- a/include/opengv/sac/implementation/Lmeds.hpp
+++ b/include/opengv/sac/implementation/Lmeds.hpp
@@ -45,6 +45,10 @@ opengv::sac::Lmeds<PROBLEM_T>::computeModel(int debug_verbosity_level)
   typedef PROBLEM_T problem_t;
   typedef typename problem_t::model_t model_t;
 
+  // Forget the result of a previous run
+  model_.clear();
+  inliers_.clear();
+
   // Warn and exit if no threshold was set
   if (threshold_ == std::numeric_limits<double>::max())
   {
diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index e723c96..e87aa60 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -48,6 +48,10 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
   typedef PROBLEM_T problem_t;
   typedef typename problem_t::model_t model_t;
 
+  // Forget the result of a previous run
+  model_.clear();
+  inliers_.clear();
+
   iterations_ = 0;
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index a01adc8..015c32a 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -48,6 +48,10 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
   typedef PROBLEM_T problem_t;
   typedef typename problem_t::model_t model_t;
 
+  // Forget the result of a previous run
+  model_.clear();
+  inliers_.clear();
+
   iterations_ = 0;
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
-- 
2.43.0


From 61bec52b234e50b9ee243ba6b5ac6bb9cb51ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 02/36] fix: RANSAC evaluated one hypothesis more than the
 maximum number of iterations

---
 include/opengv/sac/implementation/MultiRansac.hpp | 2 +-
 include/opengv/sac/implementation/Ransac.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index e87aa60..3c69d34 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -131,7 +131,7 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index 015c32a..c3f8626 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -121,7 +121,7 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
       fprintf(stdout,
           "[sm::RandomSampleConsensus::computeModel] Trial %d out of %f: %d inliers (best is: %d so far).\n",
           iterations_, k, n_inliers_count, n_best_inliers_count );
-    if(iterations_ > max_iterations_)
+    if(iterations_ >= max_iterations_)
     {
       if(debug_verbosity_level > 0)
         fprintf(stdout,
-- 
2.43.0


From 70e94e1e87a3f58f56c11793c6fa408cebc0df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 03/36] fix: multi relative pose problems scored the wrong
 correspondences

getSelectedDistancesToModel triangulated the requested correspondence but
compared it to the bearing vectors of the k-th one.
---
 .../relative_pose/MultiCentralRelativePoseSacProblem.cpp    | 6 ++++--
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
index 25f446a..078ba2f 100644
--- a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
@@ -151,8 +151,10 @@ opengv::sac_problems::
       bearingVector_t reprojection2 = inverseSolution * p_hom;
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
-      bearingVector_t f1 = _adapter.getBearingVector1(pairIndex,correspondenceIndex);
-      bearingVector_t f2 = _adapter.getBearingVector2(pairIndex,correspondenceIndex);
+      bearingVector_t f1 = _adapter.getBearingVector1(
+          pairIndex,indices[pairIndex][correspondenceIndex]);
+      bearingVector_t f2 = _adapter.getBearingVector2(
+          pairIndex,indices[pairIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index cd9596e..12b5cdd 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -316,9 +316,11 @@ opengv::sac_problems::relative_pose::
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
       bearingVector_t f1 =
-          _adapter.getBearingVector1(camIndex,correspondenceIndex);
+          _adapter.getBearingVector1(
+          camIndex,indices[camIndex][correspondenceIndex]);
       bearingVector_t f2 =
-          _adapter.getBearingVector2(camIndex,correspondenceIndex);
+          _adapter.getBearingVector2(
+          camIndex,indices[camIndex][correspondenceIndex]);
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
-- 
2.43.0


From 1be53480f3a53443e55088aaac43c712da664034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 04/36] fix: out-of-bounds camera index when rand() returns
 RAND_MAX

---
 .../absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp   | 2 +-
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
index 6f20e48..17ea2cb 100644
--- a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
+++ b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
@@ -175,7 +175,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberFrames()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / (((double) RAND_MAX) + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 12b5cdd..9870fb1 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -71,7 +71,7 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
         std::vector<int> sindices;
         //set it to a random cam index where to start
         size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-            ((double) rand()) / ((double) RAND_MAX));
+            ((double) rand()) / (((double) RAND_MAX) + 1.0));
         std::vector<int> tempIndices;
         for( int i = 0; i < (int) indices.size(); i++ )
           tempIndices.push_back(0);
@@ -381,7 +381,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / (((double) RAND_MAX) + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
-- 
2.43.0


From 7f5dd675f0817b249ca925d28285537c7ce540ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 05/36] fix: rot2quaternion returned NaN when an off-axis term
 of the rotation vanishes

For instance for the identity or any rotation about a coordinate axis: the sign
of a zero term was computed as 0/0.
---
 src/math/quaternion.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/math/quaternion.cpp b/src/math/quaternion.cpp
index 22d50db..352fbd6 100644
--- a/src/math/quaternion.cpp
+++ b/src/math/quaternion.cpp
@@ -69,29 +69,29 @@ opengv::math::rot2quaternion( const rotation_t & R )
   if(q[0] >= q[1] && q[0] >= q[2] && q[0] >= q[3])
   {
     q[0] *= +1.0;
-    q[1] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
-    q[2] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[3] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
+    q[1] *= copysign(1.0,R(2,1)-R(1,2));
+    q[2] *= copysign(1.0,R(0,2)-R(2,0));
+    q[3] *= copysign(1.0,R(1,0)-R(0,1));
   }
   else if(q[1] >= q[0] && q[1] >= q[2] && q[1] >= q[3])
   {
-    q[0] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
+    q[0] *= copysign(1.0,R(2,1)-R(1,2));
     q[1] *= +1.0;
-    q[2] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
-    q[3] *= ((R(0,2)+R(2,0))/fabs(R(0,2)+R(2,0)));
+    q[2] *= copysign(1.0,R(1,0)+R(0,1));
+    q[3] *= copysign(1.0,R(0,2)+R(2,0));
   }
   else if(q[2] >= q[0] && q[2] >= q[1] && q[2] >= q[3])
   {
-    q[0] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[1] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
+    q[0] *= copysign(1.0,R(0,2)-R(2,0));
+    q[1] *= copysign(1.0,R(1,0)+R(0,1));
     q[2] *= +1.0;
-    q[3] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));
+    q[3] *= copysign(1.0,R(2,1)+R(1,2));
   }
   else if(q[3] >= q[0] && q[3] >= q[1] && q[3] >= q[2])
   {
-    q[0] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
-    q[1] *= ((R(2,0)+R(0,2))/fabs(R(2,0)+R(0,2)));
-    q[2] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));  
+    q[0] *= copysign(1.0,R(1,0)-R(0,1));
+    q[1] *= copysign(1.0,R(2,0)+R(0,2));
+    q[2] *= copysign(1.0,R(2,1)+R(1,2));  
     q[3] *= +1.0;
   }
   else
-- 
2.43.0


From 00dfc2028232b5c9f8c46525d2ce036142d2b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 06/36] fix: findRoots2 never returned once the polishing
 stagnated

A Newton step that leaves the root unchanged while the value is still above
eps_val (or that is not a number) repeated itself forever.
---
 src/math/Sturm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 0cebf13..8177fe0 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -228,7 +228,8 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
           
           double newRoot = root - (value/derivative);
           
-          if( newRoot < bracket->lowerBound() || newRoot > bracket->upperBound() )
+          if( !( newRoot >= bracket->lowerBound() &&
+                 newRoot <= bracket->upperBound() ) )
             break;
           
           for(size_t i = 2; i <= _dimension; i++)
@@ -237,7 +238,7 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
           
           double newValue = matValue(0,0);
           
-          if( fabs(newValue) > fabs(value) )
+          if( fabs(newValue) >= fabs(value) && !( fabs(newValue) < eps_val ) )
             break;
           
           //do update
-- 
2.43.0


From 35ea18bd27e2922bac7b630ca6f11ee6069b9800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 07/36] fix: Sturm::findRoots missed or duplicated roots

Five Newton iterations were started from brackets as wide as a tenth of the root
bound, from where they often left the bracket for another root (or none).
---
 src/math/Sturm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 8177fe0..78b47d5 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -281,7 +281,7 @@ opengv::math::Sturm::findRoots()
 {
   //bracket the roots
   std::vector<double> roots;
-  bracketRoots(roots);
+  bracketRoots(roots,1.e-9);
 
   //pollish
   Eigen::MatrixXd monomials(_dimension,1);
-- 
2.43.0


From 29c8050b241dc4da6165e73f211265b439c2b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 08/36] fix: o3_roots and o4_roots returned NaN for multiple
 roots and biquadratics

The closed forms divide by a third root (cubic) respectively by w (quartic) that
vanish for those polynomials, or that only vanished by cancellation.
---
 src/math/roots.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index c31b27c..639ad25 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -52,7 +52,8 @@ opengv::math::o3_roots( const std::vector<double> & p )
   
   if( term >= 0.0 )
   {
-    double C3 = 0.5 * (theta_1 + sqrt(term));
+    //choose the sign that avoids cancellation (both give the same roots)
+    double C3 = 0.5 * (theta_1 + copysign(sqrt(term),theta_1));
     
     if( C3 < 0.0 )
       C = std::complex<double>(-pow(-C3,(1.0/3.0)),0.0);
@@ -73,6 +74,9 @@ opengv::math::o3_roots( const std::vector<double> & p )
     C = std::complex<double>(r*cos(a3/3.0),r*sin(a3/3.0));
   }
   
+  if( C == 0.0 ) //triple root
+    return std::vector<double>(3,-b/(3.0*a));
+
   std::complex<double> r1 = -(1.0/(3.0*a)) * (b + u1*C + theta_0 / (u1*C) );
   std::complex<double> r2 = -(1.0/(3.0*a)) * (b + u2*C + theta_0 / (u2*C) );
   std::complex<double> r3 = -(1.0/(3.0*a)) * (b + u3*C + theta_0 / (u3*C) );
@@ -84,6 +88,23 @@ opengv::math::o3_roots( const std::vector<double> & p )
   return roots;
 }
 
+//real parts of the roots of A*x^4 + B*x^3 + ... if the depressed quartic is
+//y^4 + alpha*y^2 + gamma (the general solution divides by zero then)
+static std::vector<double>
+biquadraticRoots( double A, double B, double alpha, double gamma )
+{
+  std::complex<double> s = sqrt(std::complex<double>(alpha*alpha-4.0*gamma,0));
+  std::complex<double> y1 = sqrt((-alpha+s)/2.0);
+  std::complex<double> y2 = sqrt((-alpha-s)/2.0);
+
+  std::vector<double> realRoots;
+  realRoots.push_back(-B/(4.0*A) + y1.real());
+  realRoots.push_back(-B/(4.0*A) + y2.real());
+  realRoots.push_back(-B/(4.0*A) - y2.real());
+  realRoots.push_back(-B/(4.0*A) - y1.real());
+  return realRoots;
+}
+
 std::vector<double>
 opengv::math::o4_roots( const Eigen::MatrixXd & p )
 {
@@ -104,6 +125,9 @@ opengv::math::o4_roots( const Eigen::MatrixXd & p )
   double beta = B_pw3/(8*A_pw3)-B*C/(2*A_pw2)+D/A;
   double gamma = -3*B_pw4/(256*A_pw4)+B_pw2*C/(16*A_pw3)-B*D/(4*A_pw2)+E/A;
 
+  if( beta == 0.0 )
+    return biquadraticRoots(A,B,alpha,gamma);
+
   double alpha_pw2 = alpha*alpha;
   double alpha_pw3 = alpha_pw2*alpha;
 
@@ -114,7 +138,7 @@ opengv::math::o4_roots( const Eigen::MatrixXd & p )
   std::complex<double> U = pow(R,(1.0/3.0));
   std::complex<double> y;
 
-  if (U.real() == 0)
+  if (U == 0.0)
     y = -5.0*alpha/6.0-pow(Q,(1.0/3.0));
   else
     y = -5.0*alpha/6.0-P/(3.0*U)+U;
@@ -155,6 +179,9 @@ opengv::math::o4_roots( const std::vector<double> & p )
   double beta = B_pw3/(8*A_pw3)-B*C/(2*A_pw2)+D/A;
   double gamma = -3*B_pw4/(256*A_pw4)+B_pw2*C/(16*A_pw3)-B*D/(4*A_pw2)+E/A;
 
+  if( beta == 0.0 )
+    return biquadraticRoots(A,B,alpha,gamma);
+
   double alpha_pw2 = alpha*alpha;
   double alpha_pw3 = alpha_pw2*alpha;
 
@@ -165,7 +192,7 @@ opengv::math::o4_roots( const std::vector<double> & p )
   std::complex<double> U = pow(R,(1.0/3.0));
   std::complex<double> y;
 
-  if (U.real() == 0)
+  if (U == 0.0)
     y = -5.0*alpha/6.0-pow(Q,(1.0/3.0));
   else
     y = -5.0*alpha/6.0-P/(3.0*U)+U;
-- 
2.43.0


From 597905726c4e9bea804dd2a09f43a8da0ec6711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 09/36] fix: wrong factor in the back-substitution of the
 five-nullspace-vector GPnP case

---
 src/absolute_pose/modules/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index ed0c271..6c43684 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -561,7 +561,7 @@ opengv::absolute_pose::modules::gpnp_main(
       groebnerMatrix5(39,78)*factors[0]+groebnerMatrix5(39,79))/
       groebnerMatrix5(39,75);
   factors.push_back(
-      -(groebnerMatrix5(38,75)*factors[3]+groebnerMatrix5(38,76)*factors[1]+
+      -(groebnerMatrix5(38,75)*factors[3]+groebnerMatrix5(38,76)*factors[2]+
       groebnerMatrix5(38,77)*factors[1]+groebnerMatrix5(38,78)*factors[0]+
       groebnerMatrix5(38,79))/groebnerMatrix5(38,74));
   gpnp_optimize( a, V, c, factors );
-- 
2.43.0


From c1ee68c363a236d75554d6a1ebb62974de67e260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 10/36] fix: p3p_kneip returned poses full of NaN

Roots of the quartic outside [-1,1] are no cosines and led to the square root of
a negative number.
---
 src/absolute_pose/modules/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 6c43684..402a8c0 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -179,6 +179,10 @@ opengv::absolute_pose::modules::p3p_kneip_main(
 
   for( int i = 0; i < 4; i++ )
   {
+    //the root is a cosine, anything else is no solution of the problem
+    if( !( fabs(realRoots[i]) <= 1.0 ) )
+      continue;
+
     double cot_alpha =
         (-f_1*p_1/f_2-realRoots[i]*p_2+d_12*b)/
         (-f_1*realRoots[i]*p_2/f_2+p_1-d_12);
-- 
2.43.0


From de72801ca96e672eeb52ad6a28f11ebb6257a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 11/36] fix: gp3p returned uninitialized memory when its
 elimination degenerates

For exact coordinates (axis-aligned rotations, integer points) a pivot can
vanish; the eigenvectors of the then infinite action matrix do not exist.
---
 src/absolute_pose/modules/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 402a8c0..1c38127 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -394,6 +394,11 @@ opengv::absolute_pose::modules::gp3p_main(
   M(7,6) = 1.0;
 
   Eigen::EigenSolver< Eigen::Matrix<double,8,8> > Eig(M,true);
+
+  //degenerate elimination: the eigenvectors would be uninitialized memory
+  if( Eig.info() != Eigen::Success )
+    return;
+
   Eigen::Matrix<std::complex<double>,8,1> D = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,8,8> V = Eig.eigenvectors();
 
-- 
2.43.0


From 318e516110f9a7a4824819ca6add570ab606a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:59 +0000
Subject: [PATCH 12/36] fix: gp3p returned poses computed from complex
 eigenvalues

---
 src/absolute_pose/modules/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 1c38127..ad2625b 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -406,7 +406,7 @@ opengv::absolute_pose::modules::gp3p_main(
   {
     std::complex<double> eigValue = D[c];
 
-    if( eigValue.imag() < 0.0001 )
+    if( fabs(eigValue.imag()) < 0.0001 )
     {
       cayley_t cayley;
       Eigen::Vector3d n;
-- 
2.43.0


From d24bceaa6e2bf08fbc39ca2109ceaaa4a2a79163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 13/36] fix: Sturm missed roots lying on the Lagrangian bound

---
 src/math/Sturm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 78b47d5..b5717cd 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -481,13 +481,14 @@ opengv::math::Sturm::computeLagrangianBound()
 
   coefficients[j] = -1.0;
 
-  double max2 = -1.0;
+  double max2 = 0.0;
   for( size_t i=0; i < coefficients.size(); i++ )
   {
     if( coefficients[i] > max2 )
       max2 = coefficients[i];
   }
 
-  double bound = max1 + max2;
+  //a root can lie exactly on the bound, and would be missed by open brackets
+  double bound = (max1 + max2) * (1.0 + 1.e-6);
   return bound;
 }
-- 
2.43.0


From 5876c34f2019d55a0d67d6cf4d8d3df9c4bb0758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 14/36] fix: o4_roots lost its precision for near-biquadratics
 and triple roots

---
 src/math/roots.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index 639ad25..bd0a862 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -32,6 +32,7 @@
 #include <opengv/math/roots.hpp>
 #include <complex>
 #include <math.h>
+#include <algorithm>
 
 std::vector<double>
 opengv::math::o3_roots( const std::vector<double> & p )
@@ -88,6 +89,15 @@ opengv::math::o3_roots( const std::vector<double> & p )
   return roots;
 }
 
+//is the linear term of the depressed quartic y^4 + alpha*y^2 + beta*y + gamma
+//zero up to rounding errors?
+static bool
+isBiquadratic( double alpha, double beta, double gamma )
+{
+  double scale = std::max(sqrt(fabs(alpha)),sqrt(sqrt(fabs(gamma))));
+  return fabs(beta) <= 1.e-12*scale*scale*scale;
+}
+
 //real parts of the roots of A*x^4 + B*x^3 + ... if the depressed quartic is
 //y^4 + alpha*y^2 + gamma (the general solution divides by zero then)
 static std::vector<double>
@@ -125,7 +135,7 @@ opengv::math::o4_roots( const Eigen::MatrixXd & p )
   double beta = B_pw3/(8*A_pw3)-B*C/(2*A_pw2)+D/A;
   double gamma = -3*B_pw4/(256*A_pw4)+B_pw2*C/(16*A_pw3)-B*D/(4*A_pw2)+E/A;
 
-  if( beta == 0.0 )
+  if( isBiquadratic(alpha,beta,gamma) )
     return biquadraticRoots(A,B,alpha,gamma);
 
   double alpha_pw2 = alpha*alpha;
@@ -133,7 +143,9 @@ opengv::math::o4_roots( const Eigen::MatrixXd & p )
 
   std::complex<double> P (-alpha_pw2/12-gamma,0);
   std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
-  std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  std::complex<double> S = sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  //choose the sign that avoids cancellation (both give the same roots)
+  std::complex<double> R = (Q.real() > 0.0) ? -Q/2.0-S : -Q/2.0+S;
 
   std::complex<double> U = pow(R,(1.0/3.0));
   std::complex<double> y;
@@ -179,7 +191,7 @@ opengv::math::o4_roots( const std::vector<double> & p )
   double beta = B_pw3/(8*A_pw3)-B*C/(2*A_pw2)+D/A;
   double gamma = -3*B_pw4/(256*A_pw4)+B_pw2*C/(16*A_pw3)-B*D/(4*A_pw2)+E/A;
 
-  if( beta == 0.0 )
+  if( isBiquadratic(alpha,beta,gamma) )
     return biquadraticRoots(A,B,alpha,gamma);
 
   double alpha_pw2 = alpha*alpha;
@@ -187,7 +199,9 @@ opengv::math::o4_roots( const std::vector<double> & p )
 
   std::complex<double> P (-alpha_pw2/12-gamma,0);
   std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
-  std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  std::complex<double> S = sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  //choose the sign that avoids cancellation (both give the same roots)
+  std::complex<double> R = (Q.real() > 0.0) ? -Q/2.0-S : -Q/2.0+S;
 
   std::complex<double> U = pow(R,(1.0/3.0));
   std::complex<double> y;
-- 
2.43.0


From 17ebde0fc76ac1a6c29ad2935a0be5a686c0e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 15/36] fix: p2p returned zero for points that differ along a
 diagonal or an axis pair

---
 src/absolute_pose/methods.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index b1f0889..6ceb95b 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -73,7 +73,7 @@ opengv::absolute_pose::p2p(
   Eigen::Vector3d n1 = adapter.getPoint(index1) - adapter.getPoint(index0);
   n1 = n1/n1.norm();
   Eigen::Vector3d n3;
-  if( (fabs(n1[0]) > fabs(n1[1])) && (fabs(n1[0]) > fabs(n1[2])) )
+  if( (fabs(n1[0]) >= fabs(n1[1])) && (fabs(n1[0]) >= fabs(n1[2])) )
   {
     n3[1] = 1.0;
     n3[2] = 0.0;
@@ -81,7 +81,7 @@ opengv::absolute_pose::p2p(
   }
   else
   {
-    if( (fabs(n1[1]) > fabs(n1[0])) && (fabs(n1[1]) > fabs(n1[2])) )
+    if( (fabs(n1[1]) >= fabs(n1[0])) && (fabs(n1[1]) >= fabs(n1[2])) )
     {
       n3[2] = 1.0;
       n3[0] = 0.0;
-- 
2.43.0


From e7b46b3aefe08344557efa3765efafbaba1f475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:57 +0000
Subject: [PATCH 16/36] fix: findRoots2 duplicated a root lying on the bound of
 a bracket and missed its neighbour

---
 src/math/Sturm.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index b5717cd..168ac56 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -221,7 +221,13 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
         
         double value = matValue(0,0);
         
-        while( !converged )
+        //a root on the lower bound belongs to the neighbouring bracket, the
+        //pollishing must not run into it
+        double valueAtLowerBound = 0.0;
+        for( size_t i = 0; i < _dimension; i++ )
+          valueAtLowerBound = valueAtLowerBound * bracket->lowerBound() + _C(0,i);
+        
+        while( !converged && valueAtLowerBound != 0.0 )
         {
           Eigen::MatrixXd matDerivative = _C.row(1) * monomials;
           double derivative = matDerivative(0,0);
@@ -358,8 +364,10 @@ opengv::math::Sturm::evaluateChain( double bound )
   for( size_t i = 0; i < _dimension; i++ )
     signs.block(i,0,1,1) = _C.block(i,i,1,_dimension-i) * monomials.block(i,0,_dimension-i,1);
   
+  //zeros do not count, so a root on the bound belongs to the interval below it
   bool positive = false;
-  if( signs(0,0) > 0.0 )
+  if( signs(0,0) > 0.0 ||
+      ( signs(0,0) == 0.0 && _dimension > 1 && signs(1,0) > 0.0 ) )
     positive = true;
   
   int signChanges = 0;
@@ -407,8 +415,9 @@ opengv::math::Sturm::evaluateChain2( double bound )
       signs.back() += _C(i,j) * monomials[j];
   }
   
+  //zeros do not count, so a root on the bound belongs to the interval below it
   bool positive = false;
-  if( signs[0] > 0.0 )
+  if( signs[0] > 0.0 || ( signs[0] == 0.0 && _dimension > 1 && signs[1] > 0.0 ) )
     positive = true;
   
   int signChanges = 0;
-- 
2.43.0


From 4f6b71ef6fc5f0f5a53f37d95d402e9acf7ff8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 17/36] fix: EPnP inverted a singular control point matrix for
 exactly coplanar points, returning NaN or aborting

---
 src/absolute_pose/modules/Epnp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index d52e1ec..cb3d9fc 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -162,7 +162,11 @@ opengv::absolute_pose::modules::Epnp::
     for(int j = 1; j < 4; j++)
       CC(i,j-1) = cws[j][i] - cws[0][i];
 
-  Eigen::Matrix3d CC_inv = CC.inverse();
+  // CC has rank two if the points are coplanar, hence invert via the SVD
+  Eigen::JacobiSVD< Eigen::MatrixXd > SVD(
+      Eigen::MatrixXd(CC),
+      Eigen::ComputeFullV | Eigen::ComputeFullU );
+  Eigen::Matrix3d CC_inv = SVD.solve(Eigen::MatrixXd::Identity(3,3));
 
   for(int i = 0; i < number_of_correspondences; i++)
   {
-- 
2.43.0


From b3045d2767f2e25cee5bf03c27e11a477094a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:36 +0000
Subject: [PATCH 18/36] fix: relative pose refinement left intermediate camera
 poses in the adapter

---
 src/relative_pose/methods.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/relative_pose/methods.cpp b/src/relative_pose/methods.cpp
index 0027dae..af8bbdd 100644
--- a/src/relative_pose/methods.cpp
+++ b/src/relative_pose/methods.cpp
@@ -1159,6 +1159,10 @@ transformation_t optimize_nonlinear(
   x.block<3,1>(0,0) = adapter.gett12();
   x.block<3,1>(3,0) = math::rot2cayley(adapter.getR12());
 
+  //the functor uses the pose of the adapter for triangulating, so restore it
+  const translation_t priorTranslation = adapter.gett12();
+  const rotation_t priorRotation = adapter.getR12();
+
   OptimizeNonlinearFunctor1 functor( adapter, indices );
   NumericalDiff<OptimizeNonlinearFunctor1> numDiff(functor);
   LevenbergMarquardt< NumericalDiff<OptimizeNonlinearFunctor1> >
@@ -1170,6 +1174,9 @@ transformation_t optimize_nonlinear(
   lm.parameters.maxfev = 1000;
   lm.minimize(x);
 
+  adapter.sett12(priorTranslation);
+  adapter.setR12(priorRotation);
+
   transformation_t transformation;
   transformation.col(3) = x.block<3,1>(0,0);
   transformation.block<3,3>(0,0) = math::cayley2rot(x.block<3,1>(3,0));
-- 
2.43.0


From 0af80e45f37272ea516167ccb94c8b45deb85593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:36 +0000
Subject: [PATCH 19/36] fix: scoring and refining consensus models overwrote
 the pose held by the adapter

---
 .../absolute_pose/AbsolutePoseSacProblem.cpp  |  7 +++++++
 .../MultiNoncentralAbsolutePoseSacProblem.cpp |  7 +++++++
 .../CentralRelativePoseSacProblem.cpp         | 21 +++++++++++++++++++
 .../MultiCentralRelativePoseSacProblem.cpp    |  7 +++++++
 .../MultiNoncentralRelativePoseSacProblem.cpp | 21 +++++++++++++++++++
 .../NoncentralRelativePoseSacProblem.cpp      | 21 +++++++++++++++++++
 .../TranslationOnlySacProblem.cpp             | 14 +++++++++++++
 7 files changed, 98 insertions(+)

diff --git a/src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp b/src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp
index b96d564..d8b89f7 100644
--- a/src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp
+++ b/src/sac_problems/absolute_pose/AbsolutePoseSacProblem.cpp
@@ -205,9 +205,16 @@ opengv::sac_problems::
     const model_t & model,
     model_t & optimized_model)
 {
+  //the adapter holds the starting value, restore its own pose at the end
+  const translation_t priorTranslation = _adapter.gett();
+  const rotation_t priorRotation = _adapter.getR();
+
   _adapter.sett(model.col(3));
   _adapter.setR(model.block<3,3>(0,0));
   optimized_model = opengv::absolute_pose::optimize_nonlinear(_adapter,inliers);
+
+  _adapter.sett(priorTranslation);
+  _adapter.setR(priorRotation);
 }
 
 int
diff --git a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
index 17ea2cb..0540261 100644
--- a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
+++ b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
@@ -158,9 +158,16 @@ opengv::sac_problems::
     const model_t & model,
     model_t & optimized_model)
 {
+  //the adapter holds the starting value, restore its own pose at the end
+  const translation_t priorTranslation = _adapter.gett();
+  const rotation_t priorRotation = _adapter.getR();
+
   _adapter.sett(model.col(3));
   _adapter.setR(model.block<3,3>(0,0));
   optimized_model = opengv::absolute_pose::optimize_nonlinear(_adapter,_adapter.convertMultiIndices(inliers));
+
+  _adapter.sett(priorTranslation);
+  _adapter.setR(priorRotation);
 }
 
 std::vector<int>
diff --git a/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp
index cc48dfb..8fd78df 100644
--- a/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp
@@ -98,6 +98,10 @@ opengv::sac_problems::
   W(1,0) = 1;
   W(2,2) = 1;
 
+  //the triangulation reads the pose from the adapter, restore it at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   double bestQuality = 1000000.0;
   int bestQualityIndex = -1;
   int bestQualitySubindex = -1;
@@ -199,6 +203,9 @@ opengv::sac_problems::
     }
   }
 
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
+
   if( bestQualityIndex == -1 )
     return false; // no solution found
   else
@@ -258,6 +265,10 @@ opengv::sac_problems::
     const std::vector<int> & indices,
     std::vector<double> & scores) const
 {
+  //the triangulation reads the pose from the adapter, restore it at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
   _adapter.sett12(translation);
@@ -287,6 +298,9 @@ opengv::sac_problems::
     double reprojError2 = 1.0 - (f2.transpose() * reprojection2);
     scores.push_back(reprojError1 + reprojError2);
   }
+
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
 }
 
 void
@@ -296,12 +310,19 @@ opengv::sac_problems::
     const model_t & model,
     model_t & optimized_model)
 {
+  //the adapter holds the starting value, restore its own pose at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
   _adapter.sett12(translation);
   _adapter.setR12(rotation);
   optimized_model =
       opengv::relative_pose::optimize_nonlinear(_adapter,inliers);
+
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
 }
 
 int
diff --git a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
index 078ba2f..b20f5ad 100644
--- a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
@@ -120,6 +120,10 @@ opengv::sac_problems::
     const std::vector<std::vector<int> > & indices,
     std::vector<std::vector<double> > & scores) const
 {
+  //the triangulation reads the pose from the adapter, restore it at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   Eigen::Matrix<double,4,1> p_hom;
   p_hom[3] = 1.0;
 
@@ -163,6 +167,9 @@ opengv::sac_problems::
       scores[pairIndex].push_back(reprojError1 + reprojError2);
     }
   }
+
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
 }
 
 void
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 9870fb1..388264d 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -183,6 +183,10 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
         double bestQuality = 1000000.0;
         int bestQualityIndex = -1;
 
+        //the triangulation reads the pose from the adapter, restore it at the end
+        const translation_t priorTranslation = _adapter.gett12();
+        const rotation_t priorRotation = _adapter.getR12();
+
         for(size_t i = 0; i < transformations.size(); i++)
         {
           // go through all features and compute quality of reprojection
@@ -234,6 +238,9 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
           }
         }
         
+        _adapter.sett12(priorTranslation);
+        _adapter.setR12(priorRotation);
+
         if( bestQualityIndex == -1 )
           returnValue = false; // no solution found
         else
@@ -273,6 +280,10 @@ opengv::sac_problems::relative_pose::
     const std::vector<std::vector<int> > & indices,
     std::vector<std::vector<double> > & scores) const
 {
+  //the triangulation reads the pose from the adapter, restore it at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
 
@@ -329,6 +340,9 @@ opengv::sac_problems::relative_pose::
       scores[camIndex].push_back(reprojError1 + reprojError2);
     }
   }
+
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
 }
 
 void
@@ -338,6 +352,10 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
     const model_t & model,
     model_t & optimized_model)
 {
+  //the adapter holds the starting value, restore its own pose at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   optimized_model = model; //todo: include non-linear optimization of model
 
   translation_t translation = model.col(3);
@@ -346,6 +364,9 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
   _adapter.setR12(rotation);
   optimized_model = opengv::relative_pose::optimize_nonlinear(
       _adapter,_adapter.convertMultiIndices(inliers));
+
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
 }
 
 std::vector<int>
diff --git a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
index df58181..42e9b73 100644
--- a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
@@ -131,6 +131,10 @@ opengv::sac_problems::
         double bestQuality = 1000000.0;
         int bestQualityIndex = -1;
 
+        //the triangulation reads the pose from the adapter, restore it at the end
+        const translation_t priorTranslation = _adapter.gett12();
+        const rotation_t priorRotation = _adapter.getR12();
+
         for(size_t i = 0; i < transformations.size(); i++)
         {
           // go through all features and compute quality of reprojection
@@ -182,6 +186,9 @@ opengv::sac_problems::
           }
         }
         
+        _adapter.sett12(priorTranslation);
+        _adapter.setR12(priorRotation);
+
         if( bestQualityIndex == -1 )
           returnValue = false; // no solution found
         else
@@ -221,6 +228,10 @@ opengv::sac_problems::
     const std::vector<int> & indices,
     std::vector<double> & scores) const
 {
+  //the triangulation reads the pose from the adapter, restore it at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
 
@@ -263,6 +274,9 @@ opengv::sac_problems::
     double reprojError2 = 1.0 - (f2.transpose() * reprojection2);
     scores.push_back(reprojError1 + reprojError2);
   }
+
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
 }
 
 void
@@ -272,12 +286,19 @@ opengv::sac_problems::
     const model_t & model,
     model_t & optimized_model)
 {
+  //the adapter holds the starting value, restore its own pose at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
   _adapter.sett12(translation);
   _adapter.setR12(rotation);
   optimized_model =
       opengv::relative_pose::optimize_nonlinear(_adapter,inliers);
+
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
 }
 
 int
diff --git a/src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp b/src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp
index 1b49264..1e3d33d 100644
--- a/src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp
+++ b/src/sac_problems/relative_pose/TranslationOnlySacProblem.cpp
@@ -53,6 +53,10 @@ opengv::sac_problems::
     const std::vector<int> & indices,
     std::vector<double> & scores) const
 {
+  //the triangulation reads the pose from the adapter, restore it at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
   _adapter.sett12(translation);
@@ -82,6 +86,9 @@ opengv::sac_problems::
     double reprojError2 = 1.0 - (f2.transpose() * reprojection2);
     scores.push_back(reprojError1 + reprojError2);
   }
+
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
 }
 
 void
@@ -91,12 +98,19 @@ opengv::sac_problems::
     const model_t & model,
     model_t & optimized_model)
 {
+  //the adapter holds the starting value, restore its own pose at the end
+  const translation_t priorTranslation = _adapter.gett12();
+  const rotation_t priorRotation = _adapter.getR12();
+
   translation_t translation = model.col(3);
   rotation_t rotation = model.block<3,3>(0,0);
   _adapter.sett12(translation);
   _adapter.setR12(rotation);
   optimized_model =
       opengv::relative_pose::optimize_nonlinear(_adapter,inliers);
+
+  _adapter.sett12(priorTranslation);
+  _adapter.setR12(priorRotation);
 }
 
 int
-- 
2.43.0


From 585991f6d8945547563d9ccd74365e9776ca694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 20/36] fix: compute the eigenvalues of the generalized
 eigensolver reliably in all scene units

---
 src/relative_pose/modules/ge/modules.cpp | 46 +++---------------------
 1 file changed, 4 insertions(+), 42 deletions(-)

diff --git a/src/relative_pose/modules/ge/modules.cpp b/src/relative_pose/modules/ge/modules.cpp
index 430d732..3cdb5a0 100644
--- a/src/relative_pose/modules/ge/modules.cpp
+++ b/src/relative_pose/modules/ge/modules.cpp
@@ -55,48 +55,10 @@ opengv::relative_pose::modules::ge::getEV(
 {
   Eigen::Matrix4d G = composeG(xxF,yyF,zzF,xyF,yzF,zxF,x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,cayley);
   
-  // now compute the roots in closed-form
-  //double G00_2 = G(0,0) * G(0,0);
-  double G01_2 = G(0,1) * G(0,1);
-  double G02_2 = G(0,2) * G(0,2);
-  double G03_2 = G(0,3) * G(0,3);
-  //double G11_2 = G(1,1) * G(1,1);
-  double G12_2 = G(1,2) * G(1,2);
-  double G13_2 = G(1,3) * G(1,3);
-  //double G22_2 = G(2,2) * G(2,2);
-  double G23_2 = G(2,3) * G(2,3);
-  //double G33_2 = G(3,3) * G(3,3);
-  
-  double B = -G(3,3)-G(2,2)-G(1,1)-G(0,0);
-  double C = -G23_2+G(2,2)*G(3,3)-G13_2-G12_2+G(1,1)*G(3,3)+G(1,1)*G(2,2)-G03_2-G02_2-G01_2+G(0,0)*G(3,3)+G(0,0)*G(2,2)+G(0,0)*G(1,1);
-  double D = G13_2*G(2,2)-2.0*G(1,2)*G(1,3)*G(2,3)+G12_2*G(3,3)+G(1,1)*G23_2-G(1,1)*G(2,2)*G(3,3)+G03_2*G(2,2)+G03_2*G(1,1)-2.0*G(0,2)*G(0,3)*G(2,3)+G02_2*G(3,3)+G02_2*G(1,1)-2.0*G(0,1)*G(0,3)*G(1,3)-2.0*G(0,1)*G(0,2)*G(1,2)+G01_2*G(3,3)+G01_2*G(2,2)+G(0,0)*G23_2-G(0,0)*G(2,2)*G(3,3)+G(0,0)*G13_2+G(0,0)*G12_2-G(0,0)*G(1,1)*G(3,3)-G(0,0)*G(1,1)*G(2,2);
-  double E = G03_2*G12_2-G03_2*G(1,1)*G(2,2)-2.0*G(0,2)*G(0,3)*G(1,2)*G(1,3)+2.0*G(0,2)*G(0,3)*G(1,1)*G(2,3)+G02_2*G13_2-G02_2*G(1,1)*G(3,3)+2.0*G(0,1)*G(0,3)*G(1,3)*G(2,2)-2.0*G(0,1)*G(0,3)*G(1,2)*G(2,3)-2.0*G(0,1)*G(0,2)*G(1,3)*G(2,3)+2.0*G(0,1)*G(0,2)*G(1,2)*G(3,3)+G01_2*G23_2-G01_2*G(2,2)*G(3,3)-G(0,0)*G13_2*G(2,2)+2.0*G(0,0)*G(1,2)*G(1,3)*G(2,3)-G(0,0)*G12_2*G(3,3)-G(0,0)*G(1,1)*G23_2+G(0,0)*G(1,1)*G(2,2)*G(3,3);
-
-  double B_pw2 = B*B;
-  double B_pw3 = B_pw2*B;
-  double B_pw4 = B_pw3*B;
-  double alpha = -0.375*B_pw2+C;
-  double beta = B_pw3/8.0-B*C/2.0+D;
-  double gamma = -0.01171875*B_pw4+B_pw2*C/16.0-B*D/4.0+E;
-  double alpha_pw2 = alpha*alpha;
-  double alpha_pw3 = alpha_pw2*alpha;
-  double p = -alpha_pw2/12.0-gamma;
-  double q = -alpha_pw3/108.0+alpha*gamma/3.0-pow(beta,2.0)/8.0;
-  double helper1 = -pow(p,3.0)/27.0;
-  double theta2 = pow( helper1, (1.0/3.0) );
-  double theta1 = sqrt(theta2) * cos( (1.0/3.0) * acos( (-q/2.0) / sqrt(helper1) ) );
-  double y = -(5.0/6.0)*alpha - ( (1.0/3.0) * p * theta1 - theta1 * theta2) / theta2;
-  double w = sqrt(alpha+2.0*y);
-  
-  //we currently disable the computation of all other roots, they are not used
-  //roots[0] = -B/4.0 + 0.5*w + 0.5*sqrt(-3.0*alpha-2.0*y-2.0*beta/w);
-  //roots[1] = -B/4.0 + 0.5*w - 0.5*sqrt(-3.0*alpha-2.0*y-2.0*beta/w);
-  double temp1 = -B/4.0 - 0.5*w;
-  double temp2 = 0.5*sqrt(-3.0*alpha-2.0*y+2.0*beta/w);
-  //roots[2] = -B/4.0 - 0.5*w + 0.5*sqrt(-3.0*alpha-2.0*y+2.0*beta/w);
-  //roots[3] = -B/4.0 - 0.5*w - 0.5*sqrt(-3.0*alpha-2.0*y+2.0*beta/w); //this is the smallest one!
-  roots[2] = temp1 + temp2;
-  roots[3] = temp1 - temp2;
+  // compute the eigenvalues of the symmetric matrix G (in descending order, the
+  // last one is the smallest one)
+  Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> Eig(G,Eigen::EigenvaluesOnly);
+  roots = Eig.eigenvalues().reverse();
 }
 
 double
-- 
2.43.0


From a568e2cc7d25f4c3b67aaee671f86d45d6003819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:36 +0000
Subject: [PATCH 21/36] fix: sixpt hypotheses used an arbitrary eigenvector as
 translation

The translation that belongs to a rotation is the eigenvector of the smallest
eigenvalue, but the eigenvalues of Eigen::EigenSolver are not sorted.
---
 .../MultiNoncentralRelativePoseSacProblem.cpp            | 9 +++++----
 .../relative_pose/NoncentralRelativePoseSacProblem.cpp   | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 388264d..6816136 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -165,14 +165,15 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
           }
           
           //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //(eigenvalues are sorted in increasing order, take the smallest one)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
diff --git a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
index 42e9b73..4f707bd 100644
--- a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
@@ -113,14 +113,15 @@ opengv::sac_problems::
           }
           
           //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //(eigenvalues are sorted in increasing order, take the smallest one)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
-- 
2.43.0


From 31501fe698bbe8b994ba8339094fe29999d243fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 22/36] fix: gauss_jordan accessed row -1 if no pivot candidate
 is comparable (NaN)

---
 src/math/gauss_jordan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/gauss_jordan.cpp b/src/math/gauss_jordan.cpp
index e3e477a..978e6e9 100644
--- a/src/math/gauss_jordan.cpp
+++ b/src/math/gauss_jordan.cpp
@@ -50,7 +50,7 @@ opengv::math::gauss_jordan(
     // first iterate through the rows and find the row that has the biggest
     // leading coefficient
     double maxValue = -1.0;
-    int row = -1;
+    int row = frontRow;
     for( int tempRow = frontRow; tempRow < rows; tempRow++ )
     {
       double value = fabs((*(matrix[tempRow]))[frontRow]);
-- 
2.43.0


From 7a266a6f72e84cd6195b08033b0362bbe763a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 23/36] fix: Sturm threw or looped forever on inverted sign
 changes and non-finite brackets

---
 src/math/Sturm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 168ac56..bd21638 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -75,7 +75,7 @@ opengv::math::Bracket::dividable( double eps ) const
   if( numberRoots() == 0 )
     return false;
   double center = (_upperBound + _lowerBound) / 2.0;
-  if( center == _upperBound || center == _lowerBound)
+  if( !( center < _upperBound && center > _lowerBound ) )
     return false;
   return true;
 }
@@ -136,6 +136,9 @@ opengv::math::Bracket::numberRoots() const
     std::cout << "Error: cannot evaluate number of roots" <<std::endl;
     return 0;
   }
+  //rounding errors and non-finite coefficients can invert the sign changes
+  if( _lowerBoundChanges < _upperBoundChanges )
+    return 0;
   return _lowerBoundChanges - _upperBoundChanges;
 }
 
-- 
2.43.0


From 132fb86c93db32cde2076fb9f35beef396ee2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 24/36] fix: solvers used the eigenvectors of failed
 decompositions (assertion or uninitialized memory)

---
 src/absolute_pose/modules/main.cpp | 10 +++++
 src/relative_pose/methods.cpp      |  5 +++
 src/relative_pose/modules/main.cpp | 60 +++++++++++++++++++++++++++---
 3 files changed, 69 insertions(+), 6 deletions(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index ad2625b..46c204e 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -740,6 +740,11 @@ opengv::absolute_pose::modules::upnp_main(
   Eigen::Matrix<double,16,16> Action;
   upnp::setupAction_gj( M, C, gamma, Action );
   Eigen::EigenSolver< Eigen::Matrix<double,16,16> > Eig( Action, true );
+
+  //degenerate or non-finite input: the eigenvectors are not available
+  if( Eig.info() != Eigen::Success )
+    return;
+
   Eigen::Matrix<std::complex<double>,16,16> V = Eig.eigenvectors();
   
   //cut the double solutions
@@ -803,6 +808,11 @@ opengv::absolute_pose::modules::upnp_main_sym(
   Eigen::Matrix<double,8,8> Action;
   upnp::setupAction_sym_gj( M, C, gamma, Action );
   Eigen::EigenSolver< Eigen::Matrix<double,8,8> > Eig( Action, true );
+
+  //degenerate or non-finite input: the eigenvectors are not available
+  if( Eig.info() != Eigen::Success )
+    return;
+
   Eigen::Matrix<std::complex<double>,8,8> V = Eig.eigenvectors();
   
   //ok, let's cut the imaginary solutions (with a reasonable threshold!)
diff --git a/src/relative_pose/methods.cpp b/src/relative_pose/methods.cpp
index af8bbdd..bb5d1df 100644
--- a/src/relative_pose/methods.cpp
+++ b/src/relative_pose/methods.cpp
@@ -366,6 +366,11 @@ essentials_t sevenpt(
   {
     essential_t M = F2.inverse() * F1;
     Eigen::EigenSolver< essential_t > Eig(M,true);
+
+    //degenerate or non-finite input: the eigenvalues are not available
+    if( Eig.info() != Eigen::Success )
+      return essentials;
+
     Eigen::Matrix< std::complex<double>,3,1 > D = Eig.eigenvalues();
 
     double val1 = fabs(D(0,0).imag());
diff --git a/src/relative_pose/modules/main.cpp b/src/relative_pose/modules/main.cpp
index 674c36b..95443e0 100644
--- a/src/relative_pose/modules/main.cpp
+++ b/src/relative_pose/modules/main.cpp
@@ -30,6 +30,7 @@
 
 
 #include <math.h>
+#include <limits>
 #include <vector>
 #include <Eigen/NonLinearOptimization>
 #include <Eigen/NumericalDiff>
@@ -75,6 +76,10 @@ opengv::relative_pose::modules::fivept_stewenius_main(
 
   Eigen::EigenSolver< Eigen::Matrix<double,10,10> > Eig(M,true);
 
+  //degenerate or non-finite input: the eigenvectors are not available
+  if( Eig.info() != Eigen::Success )
+    return;
+
   //Eigen::Matrix<std::complex<double>,10,1> D = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,10,10> V = Eig.eigenvectors();
 
@@ -335,6 +340,11 @@ opengv::relative_pose::modules::fivept_kneip_main(
   M(19,18) = 1.0;
 
   Eigen::EigenSolver< Eigen::Matrix<double,20,20> > Eig(M,true);
+
+  //degenerate or non-finite input: the eigenvectors are not available
+  if( Eig.info() != Eigen::Success )
+    return;
+
   Eigen::Matrix<std::complex<double>,20,1> D = Eig.eigenvalues();
   Eigen::Matrix<std::complex<double>,20,20> V = Eig.eigenvectors();
 
@@ -657,8 +667,19 @@ opengv::relative_pose::modules::eigensolver_main(
 
   Eigen::Matrix3d M = eigensolver::composeM(xxF,yyF,zzF,xyF,yzF,zxF,cayley);
   Eigen::EigenSolver< Eigen::Matrix3d > Eig(M,true);
-  Eigen::Matrix<std::complex<double>,3,1> D_complex = Eig.eigenvalues();
-  Eigen::Matrix<std::complex<double>,3,3> V_complex = Eig.eigenvectors();
+  Eigen::Matrix<std::complex<double>,3,1> D_complex;
+  Eigen::Matrix<std::complex<double>,3,3> V_complex;
+  if( Eig.info() == Eigen::Success )
+  {
+    D_complex = Eig.eigenvalues();
+    V_complex = Eig.eigenvectors();
+  }
+  else
+  {
+    //non-finite input: the decomposition is not available
+    D_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+    V_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+  }
   eigenvalues_t D;
   eigenvectors_t V;
   
@@ -708,6 +729,11 @@ opengv::relative_pose::modules::sixpt_main(
   
   //finally eigen-decompose the action-matrix and obtain the solutions
   Eigen::EigenSolver< Eigen::Matrix<double,64,64> > Eig(Action,true);
+
+  //degenerate or non-finite input: the eigenvectors are not available
+  if( Eig.info() != Eigen::Success )
+    return;
+
   Eigen::Matrix<std::complex<double>,64,64> EV = Eig.eigenvectors();
   
   solutions.reserve(64);  
@@ -847,8 +873,19 @@ opengv::relative_pose::modules::ge_main(
       x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,cayley);
   
   Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-  Eigen::Matrix<std::complex<double>,4,1> D_complex = Eig.eigenvalues();
-  Eigen::Matrix<std::complex<double>,4,4> V_complex = Eig.eigenvectors();
+  Eigen::Matrix<std::complex<double>,4,1> D_complex;
+  Eigen::Matrix<std::complex<double>,4,4> V_complex;
+  if( Eig.info() == Eigen::Success )
+  {
+    D_complex = Eig.eigenvalues();
+    V_complex = Eig.eigenvectors();
+  }
+  else
+  {
+    //non-finite input: the decomposition is not available
+    D_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+    V_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+  }
   Eigen::Vector4d D;
   Eigen::Matrix4d V;
   
@@ -1019,8 +1056,19 @@ opengv::relative_pose::modules::ge_main2(
       x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P,cayley);
   
   Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-  Eigen::Matrix<std::complex<double>,4,1> D_complex = Eig.eigenvalues();
-  Eigen::Matrix<std::complex<double>,4,4> V_complex = Eig.eigenvectors();
+  Eigen::Matrix<std::complex<double>,4,1> D_complex;
+  Eigen::Matrix<std::complex<double>,4,4> V_complex;
+  if( Eig.info() == Eigen::Success )
+  {
+    D_complex = Eig.eigenvalues();
+    V_complex = Eig.eigenvectors();
+  }
+  else
+  {
+    //non-finite input: the decomposition is not available
+    D_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+    V_complex.setConstant(std::numeric_limits<double>::quiet_NaN());
+  }
   Eigen::Vector4d D;
   Eigen::Matrix4d V;
   
-- 
2.43.0


From cb6e56cab99c719625080210d3bf446166c67183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 25/36] fix: Epnp::qr_solve shared static work buffers between
 threads

---
 src/absolute_pose/modules/Epnp.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index cb3d9fc..64f424f 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -723,24 +723,12 @@ opengv::absolute_pose::modules::Epnp::qr_solve(
 {
   Eigen::Matrix<double,4,6> A = A_orig.transpose();
 
-  static int max_nr = 0;
-  static double * A1, * A2;
+  //local, such that several threads can solve at the same time
+  double A1[4], A2[4];
 
   const int nr = A_orig.rows();
   const int nc = A_orig.cols();
 
-  if (max_nr != 0 && max_nr < nr)
-  {
-    delete [] A1;
-    delete [] A2;
-  }
-  if (max_nr < nr)
-  {
-    max_nr = nr;
-    A1 = new double[nr];
-    A2 = new double[nr];
-  }
-
   double * pA = A.data(), * ppAkk = pA;
   for(int k = 0; k < nc; k++)
   {
-- 
2.43.0


From 65bdcc69a8698e9007dcb59a286b27d39e69ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 26/36] fix: Epnp::qr_solve left the step uninitialized for a
 singular system

---
 src/absolute_pose/modules/Epnp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index 64f424f..d5819fe 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -743,6 +743,7 @@ opengv::absolute_pose::modules::Epnp::qr_solve(
     if (eta == 0)
     {
       A1[k] = A2[k] = 0.0;
+      X.setZero();
       cerr << "God damnit, A is singular, this shouldn't happen." << endl;
       return;
     }
-- 
2.43.0


From 924519af99c3e53dc703e6076a3ed0e7c1f1ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 27/36] fix: EPnP crashed on bearing vectors perpendicular to
 the optical axis

---
 src/absolute_pose/modules/Epnp.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index d5819fe..6732766 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -34,6 +34,7 @@
 
 
 #include <iostream>
+#include <limits>
 using namespace std;
 
 #include <opengv/absolute_pose/modules/Epnp.hpp>
@@ -240,6 +241,24 @@ opengv::absolute_pose::modules::Epnp::compute_pose(
     double R[3][3],
     double t[3])
 {
+  //no solution for non-finite correspondences (for instance bearing vectors
+  //perpendicular to the optical axis), they would break the decompositions
+  double sum = 0.0;
+  for(int i = 0; i < 3 * number_of_correspondences; i++)
+    sum += fabs(pws[i]);
+  for(int i = 0; i < 2 * number_of_correspondences; i++)
+    sum += fabs(us[i]);
+  if( !(sum <= std::numeric_limits<double>::max()) )
+  {
+    for(int i = 0; i < 3; i++)
+    {
+      for(int j = 0; j < 3; j++)
+        R[i][j] = std::numeric_limits<double>::quiet_NaN();
+      t[i] = std::numeric_limits<double>::quiet_NaN();
+    }
+    return std::numeric_limits<double>::infinity();
+  }
+
   choose_control_points();
   compute_barycentric_coordinates();
 
-- 
2.43.0


From 88e5a99699fff4f47c7c7e5fbf16972cc1694bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 28/36] fix: arun returned uninitialized memory for non-finite
 correlations (p3p_gao on degenerate samples)

---
 src/math/arun.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/arun.cpp b/src/math/arun.cpp
index a0d6296..0a028a0 100644
--- a/src/math/arun.cpp
+++ b/src/math/arun.cpp
@@ -29,11 +29,16 @@
  ******************************************************************************/
 
 
+#include <limits>
 #include <opengv/math/arun.hpp>
 
 opengv::rotation_t
 opengv::math::arun( const Eigen::MatrixXd & Hcross )
 {
+  //the decomposition of a non-finite matrix is undefined
+  if( !Hcross.allFinite() )
+    return rotation_t::Constant(std::numeric_limits<double>::quiet_NaN());
+
   //decompose matrix H to obtain rotation
   Eigen::JacobiSVD< Eigen::MatrixXd > SVDcross(
       Hcross,
-- 
2.43.0


From efa11c6b3506e67c3b814d77bf4bbcf84d8f7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 29/36] fix: EPnP returned uninitialized memory if the betas
 are not finite (duplicate points)

---
 src/absolute_pose/modules/Epnp.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index 6732766..e713334 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -408,6 +408,18 @@ opengv::absolute_pose::modules::Epnp::estimate_R_and_t(
     }
   }
 
+  //the decomposition of a non-finite matrix is undefined (betas not finite)
+  if( !Abt.allFinite() )
+  {
+    for(int i = 0; i < 3; i++)
+    {
+      for(int j = 0; j < 3; j++)
+        R[i][j] = std::numeric_limits<double>::quiet_NaN();
+      t[i] = std::numeric_limits<double>::quiet_NaN();
+    }
+    return;
+  }
+
   Eigen::JacobiSVD< Eigen::MatrixXd > SVD(
       Abt,
       Eigen::ComputeFullV | Eigen::ComputeFullU );
-- 
2.43.0


From 237ce1d254843cacb66b2a666cf7f371f130aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 30/36] fix: skip non-finite essential matrices when selecting
 the relative pose hypothesis

---
 .../relative_pose/CentralRelativePoseSacProblem.cpp           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp
index 8fd78df..163f4df 100644
--- a/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/CentralRelativePoseSacProblem.cpp
@@ -108,6 +108,10 @@ opengv::sac_problems::
 
   for(size_t i = 0; i < essentialMatrices.size(); i++)
   {
+    // the decomposition of a non-finite matrix is undefined
+    if( !essentialMatrices[i].allFinite() )
+      continue;
+
     // decompose
     Eigen::MatrixXd tempEssential = essentialMatrices[i];
     Eigen::JacobiSVD< Eigen::MatrixXd > SVD(
-- 
2.43.0


From 9e099e8c9e3ca093c275c7093e5b59d82a2e7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 31/36] fix: eigensolver took the translation sign from a
 correspondence of weight zero

---
 src/relative_pose/methods.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/relative_pose/methods.cpp b/src/relative_pose/methods.cpp
index bb5d1df..b4885eb 100644
--- a/src/relative_pose/methods.cpp
+++ b/src/relative_pose/methods.cpp
@@ -542,9 +542,13 @@ rotation_t eigensolver(
   //Do minimization
   modules::eigensolver_main(xxF,yyF,zzF,xyF,yzF,zxF,output);
 
-  //Correct the translation
-  bearingVector_t f1 = adapter.getBearingVector1(indices[0]);
-  bearingVector_t f2 = adapter.getBearingVector2(indices[0]);
+  //Correct the translation (with a correspondence that has an influence)
+  size_t reference = 0;
+  while( useWeights && reference + 1 < numberCorrespondences &&
+      adapter.getWeight(indices[reference]) == 0.0 )
+    reference++;
+  bearingVector_t f1 = adapter.getBearingVector1(indices[reference]);
+  bearingVector_t f2 = adapter.getBearingVector2(indices[reference]);
   f2 = output.rotation * f2;
   Eigen::Vector3d opticalFlow = f1 - f2;
   if( opticalFlow.dot(output.translation) < 0.0 )
-- 
2.43.0


From c618a41f38abb11e4d39a6a553b61e00854c628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 32/36] fix: Epnp::qr_solve takes the least-squares step for a
 singular system

---
 src/absolute_pose/modules/Epnp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/absolute_pose/modules/Epnp.cpp b/src/absolute_pose/modules/Epnp.cpp
index e713334..73d32da 100644
--- a/src/absolute_pose/modules/Epnp.cpp
+++ b/src/absolute_pose/modules/Epnp.cpp
@@ -774,8 +774,10 @@ opengv::absolute_pose::modules::Epnp::qr_solve(
     if (eta == 0)
     {
       A1[k] = A2[k] = 0.0;
-      X.setZero();
       cerr << "God damnit, A is singular, this shouldn't happen." << endl;
+      //b is still unchanged, take the minimum-norm least-squares solution
+      X = Eigen::JacobiSVD<Eigen::MatrixXd>(
+          A_orig, Eigen::ComputeThinU | Eigen::ComputeThinV ).solve(b);
       return;
     }
     else
-- 
2.43.0


From 489a845f6baff6bb14ad4595748f6fe183513049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 33/36] fix: gp3p returned non-finite poses for solutions at
 infinity

---
 src/absolute_pose/modules/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/absolute_pose/modules/main.cpp b/src/absolute_pose/modules/main.cpp
index 46c204e..ca83bed 100644
--- a/src/absolute_pose/modules/main.cpp
+++ b/src/absolute_pose/modules/main.cpp
@@ -439,7 +439,10 @@ opengv::absolute_pose::modules::gp3p_main(
       transformation_t transformation;
       transformation.block<3,3>(0,0) = rotation;
       transformation.col(3) = translation;
-      solutions.push_back(transformation);
+
+      //solutions at infinity (half turns) are no poses
+      if( transformation.allFinite() )
+        solutions.push_back(transformation);
     }
   }
 }
-- 
2.43.0


From 461aece2292bc8cb8ae1c0d2cf3beb3086e2bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 34/36] fix: the MATLAB gateway leaked its adapter and the
 method string in every call

---
 matlab/opengv.cpp | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/matlab/opengv.cpp b/matlab/opengv.cpp
index c37eb31..18a5f94 100644
--- a/matlab/opengv.cpp
+++ b/matlab/opengv.cpp
@@ -54,6 +54,7 @@ static const char *copyright =
 //standard headers
 #include <stdlib.h>
 #include <stdio.h>
+#include <memory>
 #include <vector>
 #include "mex.h"
 
@@ -279,9 +280,9 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
 
   // Now get the string and find the caseNumber
   mwSize strlen = (mwSize) mxGetN(prhs[0]) + 1;
-  char * method = (char *) malloc(strlen);
-  mxGetString(prhs[0], method, strlen);
-  int caseNumber = findCase(method, (int) mxGetN(prhs[0]));
+  std::vector<char> method(strlen);
+  mxGetString(prhs[0], method.data(), strlen);
+  int caseNumber = findCase(method.data(), (int) mxGetN(prhs[0]));
 
   // Return if method not found
   if( caseNumber < 0 )
@@ -405,9 +406,9 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
   }
 
   //create three pointers to absolute, relative, and point_cloud adapters here
-  opengv::absolute_pose::AbsoluteAdapterBase* absoluteAdapter;
-  opengv::relative_pose::RelativeAdapterBase* relativeAdapter;
-  opengv::point_cloud::PointCloudAdapterBase* pointCloudAdapter;
+  std::unique_ptr<opengv::absolute_pose::AbsoluteAdapterBase> absoluteAdapter;
+  std::unique_ptr<opengv::relative_pose::RelativeAdapterBase> relativeAdapter;
+  std::unique_ptr<opengv::point_cloud::PointCloudAdapterBase> pointCloudAdapter;
 
   int translationPrior = 0;
   int rotationPrior = 0;
@@ -481,11 +482,11 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
       return;
     }
 
-    absoluteAdapter = new opengv::absolute_pose::MACentralAbsolute(
+    absoluteAdapter.reset( new opengv::absolute_pose::MACentralAbsolute(
         (double*) mxGetData(data1),
         (double*) mxGetData(data2),
         data1dim[1],
-        data2dim[1] );
+        data2dim[1] ) );
 
     if( translationPrior == 1 )
       absoluteAdapter->sett(translation);
@@ -507,11 +508,11 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
       return;
     }
 
-    absoluteAdapter = new opengv::absolute_pose::MANoncentralAbsolute(
+    absoluteAdapter.reset( new opengv::absolute_pose::MANoncentralAbsolute(
         (double*) mxGetData(data1),
         (double*) mxGetData(data2),
         data1dim[1],
-        data2dim[1] );
+        data2dim[1] ) );
 
     if( translationPrior == 1 )
       absoluteAdapter->sett(translation);
@@ -534,19 +535,19 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
 
     if( data2dim[0] == 3 )
     {
-      absoluteAdapter = new opengv::absolute_pose::MACentralAbsolute(
+      absoluteAdapter.reset( new opengv::absolute_pose::MACentralAbsolute(
           (double*) mxGetData(data1),
           (double*) mxGetData(data2),
           data1dim[1],
-          data2dim[1] );
+          data2dim[1] ) );
     }
     else
     {
-      absoluteAdapter = new opengv::absolute_pose::MANoncentralAbsolute(
+      absoluteAdapter.reset( new opengv::absolute_pose::MANoncentralAbsolute(
           (double*) mxGetData(data1),
           (double*) mxGetData(data2),
           data1dim[1],
-          data2dim[1] );
+          data2dim[1] ) );
     }
     
     if( translationPrior == 1 )
@@ -569,11 +570,11 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
       return;
     }
 
-    relativeAdapter = new opengv::relative_pose::MACentralRelative(
+    relativeAdapter.reset( new opengv::relative_pose::MACentralRelative(
         (double*) mxGetData(data1),
         (double*) mxGetData(data2),
         data1dim[1],
-        data2dim[1] );
+        data2dim[1] ) );
 
     if( translationPrior == 1 )
       relativeAdapter->sett12(translation);
@@ -595,11 +596,11 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
       return;
     }
 
-    relativeAdapter = new opengv::relative_pose::MANoncentralRelative(
+    relativeAdapter.reset( new opengv::relative_pose::MANoncentralRelative(
         (double*) mxGetData(data1),
         (double*) mxGetData(data2),
         data1dim[1],
-        data2dim[1] );
+        data2dim[1] ) );
 
     if( translationPrior == 1 )
       relativeAdapter->sett12(translation);
@@ -621,11 +622,11 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
       return;
     }
 
-    pointCloudAdapter = new opengv::point_cloud::MAPointCloud(
+    pointCloudAdapter.reset( new opengv::point_cloud::MAPointCloud(
         (double*) mxGetData(data1),
         (double*) mxGetData(data2),
         data1dim[1],
-        data2dim[1] );
+        data2dim[1] ) );
 
     if( translationPrior == 1 )
       pointCloudAdapter->sett12(translation);
-- 
2.43.0


From 89bf6fd32fffeca6bd2e7ad0d7a51a47c6c97edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 35/36] fix: the MATLAB gateway indexed an empty inlier list
 when a robust method found no model

---
 matlab/opengv.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/matlab/opengv.cpp b/matlab/opengv.cpp
index 18a5f94..7e6f84a 100644
--- a/matlab/opengv.cpp
+++ b/matlab/opengv.cpp
@@ -54,6 +54,7 @@ static const char *copyright =
 //standard headers
 #include <stdlib.h>
 #include <stdio.h>
+#include <algorithm>
 #include <memory>
 #include <vector>
 #include "mex.h"
@@ -791,7 +792,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
         
       }
 
@@ -824,7 +825,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -856,7 +857,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -937,7 +938,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1277,7 +1278,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1314,7 +1315,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1346,7 +1347,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1378,7 +1379,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1410,7 +1411,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1445,7 +1446,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1572,7 +1573,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1604,7 +1605,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1636,7 +1637,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
 
       break;
@@ -1712,7 +1713,7 @@ void mexFunction( int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[] )
         dims[0] = 1;
         dims[1] = inliers.size();
         plhs[1] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-        memcpy(mxGetData(plhs[1]), (void*) &(inliers[0]), inliers.size()*sizeof(int));
+        std::copy(inliers.begin(), inliers.end(), (int*) mxGetData(plhs[1]));
       }
       
       break;
-- 
2.43.0


From a4e77ecbb356dbf0f65ba503dd2f60a0686a3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 36/36] fix: UPnP lost the true pose for four correspondences

The non-symmetric template used for up to four correspondences misses the
true pose in 20-40 % of noise-free four-point scenes (and for axis-aligned
rotations with three points). The symmetric one used for all other sizes
finds it, and is not worse under noise.
---
 src/absolute_pose/methods.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index 6ceb95b..c99868f 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -535,10 +535,9 @@ transformations_t upnp(
   
   //now do the main computation
   std::vector<std::pair<double,Eigen::Vector4d>,Eigen::aligned_allocator< std::pair<double,Eigen::Vector4d> > > quaternions1;
-  if( indices.size() > 4 )
-    modules::upnp_main_sym( M, C, gamma, quaternions1 );
-  else
-    modules::upnp_main( M, C, gamma, quaternions1 );
+  //the non-symmetric template (upnp_main) loses precision or the true solution
+  //for four correspondences, and for axis-aligned rotations if there are three
+  modules::upnp_main_sym( M, C, gamma, quaternions1 );
   
   //prepare the output vector
   transformations_t transformations;
-- 
2.43.0

