From 69d3813218664fd1ddc6267675b8cb3281e11ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 01/64] fix: MathTools::slerp swapped the y and z components of
 the result

---
 VirtualRobot/MathTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 8fe6837..66f14e0 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1541,8 +1541,8 @@ namespace VirtualRobot
         Eigen::Quaternion<float> eq = eq1.slerp(alpha, eq2);
         MathTools::Quaternion res;
         res.x = eq.x();
-        res.y = eq.z();
-        res.z = eq.x();
+        res.y = eq.y();
+        res.z = eq.z();
         res.w = eq.w();
         return res;
     }
-- 
2.43.0


From 38619c12663d7d93fdd77369a6eb0d88a2427c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 02/64] fix: MathTools::quat2eigen3f was declared but defined
 outside its namespace, so it could not be linked

---
 VirtualRobot/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 66f14e0..9777fab 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -757,7 +757,7 @@ namespace VirtualRobot
     }
 
 
-    Eigen::Matrix3f VIRTUAL_ROBOT_IMPORT_EXPORT quat2eigen3f(float qx, float qy, float qz, float qw)
+    Eigen::Matrix3f VIRTUAL_ROBOT_IMPORT_EXPORT MathTools::quat2eigen3f(float qx, float qy, float qz, float qw)
     {
         return Eigen::Quaternionf{qw, qx, qy, qz}.toRotationMatrix();
     }
-- 
2.43.0


From cf673a816aa301bad5611c96a22a5566978d4c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 03/64] fix: LimitVectorLength scaled over-long vectors up
 instead of down

---
 VirtualRobot/math/Helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Helpers.cpp b/VirtualRobot/math/Helpers.cpp
index 59a264a..64b2d9d 100644
--- a/VirtualRobot/math/Helpers.cpp
+++ b/VirtualRobot/math/Helpers.cpp
@@ -343,7 +343,7 @@ Eigen::VectorXf Helpers::LimitVectorLength(const Eigen::VectorXf& vec, const Eig
             scale = std::min(scale, maxLen(j) / std::abs(vec(i)));
         }
     }
-    return vec / scale;
+    return vec * scale;
 }
 
 Eigen::AngleAxisf Helpers::GetAngleAxisFromTo(const Eigen::Matrix3f& start, const Eigen::Matrix3f& target)
-- 
2.43.0


From 2a55d1b744e2d1dac72dfa1e8c3eb7854c816a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 04/64] fix: ImplicitPlane::GetSignedDistance used the wrong
 sign for the plane offset

---
 VirtualRobot/math/ImplicitPlane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/ImplicitPlane.cpp b/VirtualRobot/math/ImplicitPlane.cpp
index 34890df..888bbf2 100644
--- a/VirtualRobot/math/ImplicitPlane.cpp
+++ b/VirtualRobot/math/ImplicitPlane.cpp
@@ -68,7 +68,7 @@ ImplicitPlane ImplicitPlane::FromContact(Contact c)
 
 float ImplicitPlane::GetSignedDistance(const Eigen::Vector3f &p)
 {
-    return GetNormal().dot(p) + d;
+    return GetNormal().dot(p) - d;
 }
 
 Line ImplicitPlane::Intersect(Plane plane)
-- 
2.43.0


From 52906f335aa974efe2674a93cc1bc1a9eaa9d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 05/64] fix: projectPointToPlane2D rotated before removing the
 plane's origin, so planePoint3D did not invert it

---
 VirtualRobot/MathTools.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 9777fab..2aad2ea 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -699,11 +699,9 @@ namespace VirtualRobot
         Quaternion quat = getRotation(plane.n, normalUp);
 
         Eigen::Matrix4f rotationMatrix = quat2eigen4f(quat);
-        rotationMatrix(0, 3) = -plane.p(0);
-        rotationMatrix(1, 3) = -plane.p(1);
-        rotationMatrix(2, 3) = -plane.p(2);
 
         // transform point
+        ptPlane -= plane.p;
         Eigen::Vector4f pt4(ptPlane(0), ptPlane(1), ptPlane(2), 1.0f);
         pt4 = rotationMatrix * pt4;
 
-- 
2.43.0


From a93eb7274be9be48cdccaed86e7955c91655b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 06/64] fix: getTriangleArea returned NaN for collinear points
 (negative radicand due to rounding)

---
 VirtualRobot/MathTools.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 2aad2ea..8674d4c 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -2115,20 +2115,9 @@ namespace VirtualRobot
         Eigen::Vector3f ab = b - a;
         Eigen::Vector3f ac = c - a;
         
-        float abNorm = ab.norm();
-        float acNorm = ac.norm();
-        
-        if (abNorm <= 0 || acNorm <= 0) return 0;  // collapsed triangle
-        
-        // alpha := angle at a, i.e. between ab and ac
-        // => cos(alpha) = ab * ac
-        // => sin(alpha) = sqrt( 1 - cos(alpha)^2 )
-        float cos_alpha = (ab / abNorm).dot(ac / acNorm);
-        float sin_alpha = std::sqrt(1 - cos_alpha * cos_alpha);
-        
-        // area = 1/2 * sin(alpha) * |ab| * |ac|
-        // (where sin(alpha) * |ab| = distance of b to |ac|)
-        float area = 0.5f * sin_alpha * abNorm * acNorm;
+        // half of the parallelogram that is spanned by ab and ac
+        // (1 - cos(alpha)^2 may become negative due to rounding, so sin(alpha) is not computed from the cosine)
+        float area = 0.5f * ab.cross(ac).norm();
         return area;
     }
 
-- 
2.43.0


From 31b1c00a535c60c1109fb6372b861a279dd25dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 07/64] fix: Nullable::get threw with a std::exception
 constructor that does not exist, so it could not be compiled when used

---
 VirtualRobot/math/MathForwardDefinitions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/MathForwardDefinitions.h b/VirtualRobot/math/MathForwardDefinitions.h
index f5213a9..2c4bc27 100644
--- a/VirtualRobot/math/MathForwardDefinitions.h
+++ b/VirtualRobot/math/MathForwardDefinitions.h
@@ -47,7 +47,7 @@ public:
     {
         if(!defined)
         {
-            throw std::exception("Value is not set");
+            throw std::runtime_error("Value is not set");
         }
         return value;
     }
-- 
2.43.0


From 66895bedfeff605423ea3b508580fc20a2691795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 08/64] fix: getGlobalPoseForRobotNode and
 getGlobalPositionForRobotNode dropped the robot's orientation, so the node
 missed the requested pose

---
 VirtualRobot/Robot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index b8e226a..0d9c22e 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -831,9 +831,9 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
         
-        if (math::Helpers::Orientation(globalPoseNode).isIdentity())
+        if (math::Helpers::Orientation(globalPoseNode) == node->getGlobalOrientation())
         {
-            // set position to avoid accumulating rounding errors when using rotation
+            // only a translation is needed: set position to avoid accumulating rounding errors when using rotation
             return getGlobalPositionForRobotNode(node, math::Helpers::Position(globalPoseNode));
         }
         
@@ -867,7 +867,7 @@ namespace VirtualRobot
         // apply translation to current global position of robot
         const Eigen::Vector3f robotPosition = getGlobalPosition() + translation;
         
-        return math::Helpers::Pose(robotPosition);
+        return math::Helpers::Pose(robotPosition, getGlobalOrientation());
     }
     
     void Robot::setGlobalPositionForRobotNode(
-- 
2.43.0


From be8f2df7ed50b2264deaca214d1758f6151107e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 09/64] fix: limitless joints mirrored positive values below a
 positive lower limit

---
 VirtualRobot/Nodes/RobotNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 4287337..ea51df6 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -187,7 +187,7 @@ namespace VirtualRobot
                 q = fmod(q, 2.0f * M_PI);
             while (q > jointLimitHi) q -= 2.0f * M_PI;
             if(q < jointLimitLo)
-                q = -fmod(fabs(q), 2.0f * M_PI);
+                q = fmod(q, 2.0f * M_PI);
             while (q < jointLimitLo) q += 2.0f * M_PI;
         }
         else
-- 
2.43.0


From c62da7f0c4a60706cc4e25d14e8e4dc1072b21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 10/64] fix: isKinematicChain and getMaximumExtension read past
 the end of an empty robot node set

---
 VirtualRobot/RobotNodeSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 38cc155..54ad76d 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -501,7 +501,7 @@ namespace VirtualRobot
 
     bool RobotNodeSet::isKinematicChain()
     {
-        for (unsigned int i = 0; i < this->robotNodes.size() - 1; i++)
+        for (size_t i = 0; i + 1 < this->robotNodes.size(); i++)
         {
             if (!this->robotNodes[i]->hasChild(this->robotNodes[i + 1], true))
             {
@@ -560,7 +560,7 @@ namespace VirtualRobot
             result += v.norm();
         }
 
-        for (size_t i = 0; i < this->robotNodes.size() - 1; i++)
+        for (size_t i = 0; i + 1 < this->robotNodes.size(); i++)
         {
             t = robotNodes[i]->getTransformationTo(robotNodes[i + 1]);
             v = MathTools::getTranslation(t);
-- 
2.43.0


From bc9b24c782391de1ed2f99779cfb4762af98ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 11/64] fix: RobotNodePrismatic's DH constructor left
 visuScaling uninitialised

---
 VirtualRobot/Nodes/RobotNodePrismatic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index b5b86fd..a759677 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -47,6 +47,8 @@ namespace VirtualRobot
                                           ) : RobotNode(rob, name, jointLimitLo, jointLimitHi, visualization, collisionModel, jointValueOffset, p, colChecker, type)
     {
         initialized = false;
+        visuScaling = false;
+        visuScaleFactor << 1.0f, 1.0f, 1.0f;
         optionalDHParameter.isSet = true;
         optionalDHParameter.setAInMM(a);
         optionalDHParameter.setDInMM(d);
-- 
2.43.0


From f1f96ed74d3339d1fbec06c275cfb76a8206f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 12/64] fix: limitless joints with a negative upper limit ended
 above it (fmod of values below the lower limit was not mapped back)

---
 VirtualRobot/Nodes/RobotNode.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index ea51df6..edfce88 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -183,11 +183,9 @@ namespace VirtualRobot
         if (limitless)
         {
             // limitless joint: map q to allowed interval
-            if(q > jointLimitHi)
+            if(q > jointLimitHi || q < jointLimitLo)
                 q = fmod(q, 2.0f * M_PI);
             while (q > jointLimitHi) q -= 2.0f * M_PI;
-            if(q < jointLimitLo)
-                q = fmod(q, 2.0f * M_PI);
             while (q < jointLimitLo) q += 2.0f * M_PI;
         }
         else
-- 
2.43.0


From 3a96224fe3033de8b1d72f7cafea30eaaa329c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 13/64] fix: cloned robot nodes lost a disabled joint limit
 enforcement, so clones clamped joint values

---
 VirtualRobot/Nodes/RobotNode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index edfce88..b6e9c02 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -561,6 +561,7 @@ namespace VirtualRobot
         result->setMaxAcceleration(maxAcceleration);
         result->setMaxTorque(maxTorque);
         result->setLimitless(limitless);
+        result->setEnforceJointLimits(enforceJointLimits);
 
         std::map< std::string, float>::iterator it = propagatedJointValues.begin();
 
-- 
2.43.0


From 9544cfb74c59f745ec1b8f5607b31debe7bef1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 14/64] fix: CoMIK's Jacobian in a local coordinate system
 mapped velocities with the wrong rotation

---
 VirtualRobot/IK/CoMIK.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/IK/CoMIK.cpp b/VirtualRobot/IK/CoMIK.cpp
index d68aef4..97d6d17 100644
--- a/VirtualRobot/IK/CoMIK.cpp
+++ b/VirtualRobot/IK/CoMIK.cpp
@@ -79,6 +79,12 @@ namespace VirtualRobot
                     Eigen::Vector3f toTCP = node->getCoMGlobal()
                                             - dof->getGlobalPose().block(0, 3, 3, 1);
 
+                    if (coordSystem)
+                    {
+                        // express the vector in the same coordinate system as the axis
+                        toTCP = coordSystem->getGlobalPose().block<3, 3>(0, 0).transpose() * toTCP;
+                    }
+
                     if (convertMMtoM)
                     {
                         toTCP /= 1000.0f;
-- 
2.43.0


From a0e0b4c3c202daff227209d35ac5e080f14d79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 15/64] fix: DifferentialIK's errors of the default TCP looked
 up the mode of no TCP

---
 VirtualRobot/IK/DifferentialIK.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/IK/DifferentialIK.cpp b/VirtualRobot/IK/DifferentialIK.cpp
index 4cb382d..69129da 100644
--- a/VirtualRobot/IK/DifferentialIK.cpp
+++ b/VirtualRobot/IK/DifferentialIK.cpp
@@ -767,14 +767,14 @@ namespace VirtualRobot
 
     float DifferentialIK::getErrorPosition(SceneObjectPtr tcp)
     {
-        if (modes[tcp] == IKSolver::Orientation)
+        if (!tcp)
         {
-            return 0.0f;    // ignoring position
+            tcp = getDefaultTCP();
         }
 
-        if (!tcp)
+        if (modes[tcp] == IKSolver::Orientation)
         {
-            tcp = getDefaultTCP();
+            return 0.0f;    // ignoring position
         }
 
         Vector3f position = targets[tcp].block(0, 3, 3, 1) - tcp->getGlobalPose().block(0, 3, 3, 1);
@@ -800,14 +800,14 @@ namespace VirtualRobot
 
     float DifferentialIK::getErrorRotation(SceneObjectPtr tcp)
     {
-        if (!(modes[tcp] & IKSolver::Orientation))
+        if (!tcp)
         {
-            return 0.0f;    // no error in this dimensions
+            tcp = getDefaultTCP();
         }
 
-        if (!tcp)
+        if (!(modes[tcp] & IKSolver::Orientation))
         {
-            tcp = getDefaultTCP();
+            return 0.0f;    // no error in this dimensions
         }
 
         Matrix4f orientation = this->targets[tcp] * tcp->getGlobalPose().inverse();
-- 
2.43.0


From 78f9da92241ef37e94f683a61f223610a09e62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 16/64] fix: PositionConstraint accepted any position below the
 target in a single direction

---
 VirtualRobot/IK/constraints/PositionConstraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/PositionConstraint.cpp b/VirtualRobot/IK/constraints/PositionConstraint.cpp
index 12d1e7e..329ecbf 100644
--- a/VirtualRobot/IK/constraints/PositionConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PositionConstraint.cpp
@@ -105,13 +105,13 @@ bool PositionConstraint::checkTolerances()
     switch(cartesianSelection)
     {
         case IKSolver::CartesianSelection::X:
-            return d.x() <= tolerance;
+            return std::fabs(d.x()) <= tolerance;
 
         case IKSolver::CartesianSelection::Y:
-            return d.y() <= tolerance;
+            return std::fabs(d.y()) <= tolerance;
 
         case IKSolver::CartesianSelection::Z:
-            return d.z() <= tolerance;
+            return std::fabs(d.z()) <= tolerance;
 
         case IKSolver::CartesianSelection::Position:
         case IKSolver::CartesianSelection::All:
-- 
2.43.0


From 041e2e02088bcb2e30e7b925ae5cabadd278c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 17/64] fix: the gradient of PoseConstraint's position
 objective was too large by the inverse of the tradeoff factor

---
 VirtualRobot/IK/constraints/PoseConstraint.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/IK/constraints/PoseConstraint.cpp b/VirtualRobot/IK/constraints/PoseConstraint.cpp
index 2d88b0e..4663ad9 100644
--- a/VirtualRobot/IK/constraints/PoseConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PoseConstraint.cpp
@@ -172,17 +172,17 @@ Eigen::VectorXf PoseConstraint::positionOptimizationGradient()
     switch(cartesianSelection)
     {
         case IKSolver::CartesianSelection::X:
-            return 2 * Eigen::Vector3f(d.x(), 0, 0).transpose() * J;
+            return 2 * posRotTradeoff * Eigen::Vector3f(d.x(), 0, 0).transpose() * J;
 
         case IKSolver::CartesianSelection::Y:
-            return 2 * Eigen::Vector3f(0, d.y(), 0).transpose() * J;
+            return 2 * posRotTradeoff * Eigen::Vector3f(0, d.y(), 0).transpose() * J;
 
         case IKSolver::CartesianSelection::Z:
-            return 2 * Eigen::Vector3f(0, 0, d.z()).transpose() * J;
+            return 2 * posRotTradeoff * Eigen::Vector3f(0, 0, d.z()).transpose() * J;
 
         case IKSolver::CartesianSelection::Position:
         case IKSolver::CartesianSelection::All:
-            return 2 * d.transpose() * J;
+            return 2 * posRotTradeoff * d.transpose() * J;
 
         case IKSolver::CartesianSelection::Orientation:
             return Eigen::VectorXf::Zero(size);
-- 
2.43.0


From 3e0187e2065e9ae2fef1aaafe04bc63f2e1b3e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 18/64] fix: TSRConstraint ignored the tolerances passed to its
 constructor

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index c8d3a5b..0238709 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -40,8 +40,8 @@ TSRConstraint::TSRConstraint(const RobotPtr& robot, const RobotNodeSetPtr& nodeS
     transformation(transformation),
     eefOffset(eefOffset),
     bounds(bounds),
-    toleranceTranslation(1.0f),
-    toleranceRotation(0.1f),
+    toleranceTranslation(tolerancePosition),
+    toleranceRotation(toleranceRotation),
     posRotTradeoff(0.1f)
 {
     ik.reset(new DifferentialIK(nodeSet));
-- 
2.43.0


From 474d750ada886e3ef3703d2babf13a36648a9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 19/64] fix: the gradient of TSRConstraint's position objective
 ignored the region's frame, the offset and the tradeoff factor

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index 0238709..2cbd538 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -159,9 +159,18 @@ double TSRConstraint::positionOptimizationFunction()
 
 Eigen::VectorXf TSRConstraint::positionOptimizationGradient()
 {
-    Eigen::MatrixXf J = ik->getJacobianMatrix(eef).block(0, 0, 3, nodeSet->getSize());
+    Eigen::MatrixXf J = ik->getJacobianMatrix(eef);
+    // The Jacobian of the offset point, in the frame of the task space region (where the error is measured)
+    Eigen::Vector3f offset = eef->getGlobalPose().block<3, 3>(0, 0) * eefOffset.block<3, 1>(0, 3);
+    Eigen::MatrixXf JOffset(3, J.cols());
+    for (int i = 0; i < J.cols(); i++)
+    {
+        Eigen::Vector3f v = J.block<3, 1>(0, i);
+        Eigen::Vector3f w = J.block<3, 1>(3, i);
+        JOffset.col(i) = transformation.block<3, 3>(0, 0).transpose() * (v + w.cross(offset));
+    }
     Eigen::VectorXf e = posRotTradeoff * getPositionError();
-    return 2 * e.transpose() * J;
+    return 2 * posRotTradeoff * e.transpose() * JOffset;
 }
 
 double TSRConstraint::orientationOptimizationFunction()
-- 
2.43.0


From b574e164bd40629c9a79fc6126d1cb2edc7e7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 20/64] fix: CoMConstraint::updateTarget left the target of the
 objective and of the tolerance check unchanged

---
 VirtualRobot/IK/constraints/CoMConstraint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/IK/constraints/CoMConstraint.cpp b/VirtualRobot/IK/constraints/CoMConstraint.cpp
index debe401..63ac70e 100644
--- a/VirtualRobot/IK/constraints/CoMConstraint.cpp
+++ b/VirtualRobot/IK/constraints/CoMConstraint.cpp
@@ -59,11 +59,13 @@ CoMConstraint::CoMConstraint(const RobotPtr &robot, const RobotNodeSetPtr &joint
 
 void CoMConstraint::updateTarget(const Eigen::Vector3f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
 void CoMConstraint::updateTarget(const Eigen::Vector2f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
-- 
2.43.0


From 27a49feb32467ca8d6dc6be2fa17f15f326d8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 21/64] fix: the gradient of the balance objective lacked the
 slope of the sigmoid

---
 VirtualRobot/IK/constraints/BalanceConstraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 9a4bb52..8bc0bbd 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -130,7 +130,8 @@ double BalanceConstraintOptimizationFunction::sigmoid(double x)
 
 double BalanceConstraintOptimizationFunction::sigmoid_prime(double x)
 {
-    return sigmoid(x) * (1 - sigmoid(x));
+    float beta = 0.1f;
+    return beta * sigmoid(x) * (1 - sigmoid(x));
 }
 
 
-- 
2.43.0


From b5955c8cdf35f980fedee3f170c9ffcd4c6b75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 22/64] fix: the balance objective used the centre of mass of
 the joints instead of the bodies

---
 VirtualRobot/IK/constraints/BalanceConstraint.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 8bc0bbd..57ed6ae 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -219,7 +219,7 @@ float BalanceConstraint::getDifferentiableStabilityIndex()
     }
 
     MathTools::ConvexHull2DPtr ch = supportPolygon->getSupportPolygon2D();
-    Eigen::Vector2f com2D = rns->getCoM().head(2);
+    Eigen::Vector2f com2D = bodies->getCoM().head(2);
 
     if (!ch || ch->vertices.size() < 2 || !MathTools::isInside(com2D, ch))
     {
@@ -247,7 +247,7 @@ double BalanceConstraint::optimizationFunction(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
@@ -263,13 +263,13 @@ Eigen::VectorXf BalanceConstraint::optimizationGradient(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
     }
 
-    return differnentiableStability->evaluateOptimizationGradient(com, comIK->getJacobianMatrix());
+    return differnentiableStability->evaluateOptimizationGradient(com, comIK->getJacobianMatrix().topRows(2));
 }
 
 Eigen::MatrixXf BalanceConstraint::getJacobianMatrix()
-- 
2.43.0


From 66d3711ee8333401e459d87d34b436389c19669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 23/64] fix: c-space path length ignored the metric weights
 exactly when they were asked for

---
 MotionPlanning/CSpace/CSpacePath.cpp                | 2 +-
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 411d947..3aa3caf 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -135,7 +135,7 @@ namespace Saba
             c1 = path[i];
             c2 = path[i + 1];
 
-            l = cspace->calcDist(c1, c2, useCSpaceWeights);
+            l = cspace->calcDist(c1, c2, !useCSpaceWeights);
             pathLength += l;
         }
 
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 665932f..06a0375 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -291,10 +291,9 @@ namespace Saba
 
         Eigen::VectorXf s = optimizedPath->getPoint(startIndex);
         Eigen::VectorXf e = optimizedPath->getPoint(endIndex);
-        Eigen::VectorXf d = e - s;
 
         // test line between start and end
-        float distShortcut = d.norm();
+        float distShortcut = cspace->calcDist(s, e);
         float distPath = optimizedPath->getLength(startIndex, endIndex);
 
         // -------------------------------------------------------------------
-- 
2.43.0


From eead3329a14b4a10e384f06f49bf60fe8fabe58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 24/64] fix: index returned by path interpolation was out of
 range at the end and for paths of length zero

---
 MotionPlanning/CSpace/CSpacePath.cpp | 8 ++++++--
 VirtualRobot/Trajectory.cpp          | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 3aa3caf..e9cf73b 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -331,7 +331,7 @@ namespace Saba
 
             if (storeIndex != nullptr)
             {
-                *storeIndex = (int)path.size();
+                *storeIndex = (int)path.size() - 1;
             }
 
             return;
@@ -357,7 +357,11 @@ namespace Saba
             actLength += lastLength;
         }
 
-        startIndex--;
+        if (startIndex > 0)
+        {
+            startIndex--;
+        }
+
         actLength -= lastLength;
 
         // segment starts with startIndex
diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 976896e..bbed1b2 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -291,7 +291,11 @@ namespace VirtualRobot
             actLength += lastLength;
         }
 
-        startIndex--;
+        if (startIndex > 0)
+        {
+            startIndex--;
+        }
+
         actLength -= lastLength;
 
         // segment starts with startIndex
-- 
2.43.0


From 20da1be6d11caef3c476ece2346abc65d07a3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 25/64] fix: CSpaceTree::getTreeLength used node IDs as
 positions in the node list

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 44b6fb5..7973861 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -463,9 +463,14 @@ namespace Saba
 
         for (unsigned int i = 0; i < nMaxNodes; i++)
         {
-            if (nodes[i] && nodes[i]->parentID >= 0 && nodes[i]->parentID < (int)nMaxNodes)
+            if (nodes[i] && nodes[i]->parentID >= 0)
             {
-                res += cspace->calcDist(nodes[i]->configuration, nodes[nodes[i]->parentID]->configuration, !useMetricWeights);
+                CSpaceNodePtr parent = getNode(nodes[i]->parentID);
+
+                if (parent)
+                {
+                    res += cspace->calcDist(nodes[i]->configuration, parent->configuration, !useMetricWeights);
+                }
             }
         }
 
-- 
2.43.0


From b278f7ad0a4044cb1558d4133e109bb719466f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 26/64] fix: CSpaceTree::getPathDist did not check the end
 node, walked past identical nodes and ignored useMetricWeights

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 7973861..5745ff8 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -87,16 +87,21 @@ namespace Saba
         return true;
     }
 
-    float CSpaceTree::getPathDist(unsigned int idStart, unsigned int idEnd, bool /*useMetricWeights*/)
+    float CSpaceTree::getPathDist(unsigned int idStart, unsigned int idEnd, bool useMetricWeights)
     {
         float result = 0.0f;
 
-        if (!getNode(idStart) || !getNode(idStart))
+        if (!getNode(idStart) || !getNode(idEnd))
         {
             SABA_ERROR << "CSpaceTree::getPathDist: start or goal id not correct..." << endl;
             return -1.0f;
         }
 
+        if (idStart == idEnd)
+        {
+            return 0.0f;
+        }
+
         unsigned int actID = idEnd;
         unsigned int actID2 = getNode(idEnd)->parentID;
         CSpaceNodePtr actNode;
@@ -107,20 +112,20 @@ namespace Saba
             actNode = getNode(actID);
             actNode2 = getNode(actID2);
 
-            if (/*actID2 < 0 ||*/ actNode->parentID < 0 || !actNode || !actNode2)
+            if (/*actID2 < 0 ||*/ !actNode || actNode->parentID < 0 || !actNode2)
             {
                 std::cout << "CSpaceTree::getPathDist: error, no path from start to end ?!" << std::endl;
                 return result;
             }
 
-            result += cspace->calcDist(actNode->configuration, actNode2->configuration);
+            result += cspace->calcDist(actNode->configuration, actNode2->configuration, !useMetricWeights);
 
             actID = actID2;
             actID2 = actNode2->parentID;
         }
 
         // add last part
-        result += cspace->calcDist(getNode(actID)->configuration, getNode(actID2)->configuration);
+        result += cspace->calcDist(getNode(actID)->configuration, getNode(actID2)->configuration, !useMetricWeights);
 
         return result;
     }
-- 
2.43.0


From 4dfa2b714b4803811617a38877b53b65fe0a1c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 27/64] fix: cloned c-space moved the joints of the original
 robot and took the random seed as number of nodes

---
 MotionPlanning/CSpace/CSpaceSampled.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpaceSampled.cpp b/MotionPlanning/CSpace/CSpaceSampled.cpp
index 3ec0733..bc8e312 100644
--- a/MotionPlanning/CSpace/CSpaceSampled.cpp
+++ b/MotionPlanning/CSpace/CSpaceSampled.cpp
@@ -51,7 +51,15 @@ namespace Saba
             return CSpaceSampledPtr();
         }
 
-        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, robotNodes, newRandomSeed));
+        VirtualRobot::RobotNodeSetPtr newRobotNodes = newRobot->getRobotNodeSet(robotNodes->getName());
+
+        if (!newRobotNodes)
+        {
+            SABA_ERROR << ": No robot node set " << robotNodes->getName() << " in new robot..." << endl;
+            return CSpaceSampledPtr();
+        }
+
+        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, newRobotNodes, maxNodes, newRandomSeed));
         result->setBoundaries(boundaryMin, boundaryMax);
 
         if (useMetricWeights)
-- 
2.43.0


From 646fb8b200434edcaf05c817b1d6c1f64b396090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 28/64] fix: Sampler left its dimension and weights
 uninitialised

---
 MotionPlanning/CSpace/Sampler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/Sampler.cpp b/MotionPlanning/CSpace/Sampler.cpp
index 2ce3810..276d879 100644
--- a/MotionPlanning/CSpace/Sampler.cpp
+++ b/MotionPlanning/CSpace/Sampler.cpp
@@ -6,8 +6,8 @@ namespace Saba
 
     Sampler::Sampler(unsigned int dimension)
     {
-        dimension = dimension;
-        metricWeights.Ones(dimension);
+        this->dimension = dimension;
+        metricWeights.setOnes(dimension);
     }
 
     Sampler::~Sampler()
-- 
2.43.0


From d9ba66f60dcd449fbfb0a81f545f7f6b4948b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 29/64] fix: unsigned underflow in loops over empty and one
 point paths

---
 MotionPlanning/CSpace/CSpace.cpp                       | 2 +-
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 4 ++--
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 40a496b..1d2555b 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -178,7 +178,7 @@ namespace Saba
             SABA_INFO << "Checking " << s << " segments:" << endl;
         }
 
-        for (unsigned int i = s - 1; i > 0; i--)
+        for (unsigned int i = s > 0 ? s - 1 : 0; i > 0; i--)
         {
             clock_t t1 = clock();
             bool bColFree = isPathValid(solution->getPoint(i), solution->getPoint(i - 1));
diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 1596a84..5634fb6 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -174,7 +174,7 @@ using namespace VirtualRobot;
          Eigen::VectorXf fc;
 
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-1;i++)
+        for (unsigned int i=1;i+1<optimizedPath->getNrOfPoints();i++)
         {
 
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
@@ -222,7 +222,7 @@ using namespace VirtualRobot;
     {
         float ssd = 2 * cspace->getSamplingSize()*cspace->getSamplingSize();
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-2;i++)
+        for (unsigned int i=1;i+2<optimizedPath->getNrOfPoints();i++)
         {
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
             Eigen::VectorXf& act = optimizedPath->getPointRef(i);
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 06a0375..af72f57 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -202,7 +202,7 @@ namespace Saba
 
         unsigned int i = 0;
 
-        while (i < optimizedPath->getNrOfPoints() - 2)
+        while (i + 2 < optimizedPath->getNrOfPoints())
         {
             Eigen::VectorXf startConfig = optimizedPath->getPoint(i);
             Eigen::VectorXf endConfig = optimizedPath->getPoint(i + 2);
-- 
2.43.0


From 0630665188465b0e38be048bfaab9ecd1d195b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 30/64] fix: ShortcutProcessor::doShortcut added the new points
 to the number of saved points

---
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index af72f57..af66bc6 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -122,7 +122,7 @@ namespace Saba
             }
         }
 
-        int nodes = endIndex - startIndex - 1 + newP;
+        int nodes = endIndex - startIndex - 1 - newP;
 
         if (verbose)
         {
-- 
2.43.0


From d25a43430e566093c566eb5596b554cbd8579c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 31/64] fix: ElasticBandProcessor::getForces ignored the
 previous point of the path

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 5634fb6..3c0eef8 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -273,7 +273,7 @@ using namespace VirtualRobot;
         unsigned int b = i;
         unsigned int c = i;
         if (i<optimizedPath->getNrOfPoints()-1)
-            a=i+1;
+            c=i+1;
 
         Eigen::VectorXf& before = optimizedPath->getPointRef(a);
         Eigen::VectorXf& act = optimizedPath->getPointRef(b);
-- 
2.43.0


From c67dbe130de9a56cc676d5afa43370095309b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 32/64] fix: CSpace::getDirectionVector pointed from c2 to c1

---
 MotionPlanning/CSpace/CSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 1d2555b..433d902 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -378,7 +378,7 @@ namespace Saba
 
         for (unsigned int i = 0; i < dimension; i++)
         {
-            storeDir[i] = c1[i] - interpolate(c1, c2, i, factor);
+            storeDir[i] = interpolate(c1, c2, i, factor) - c1[i];
         }
     }
 
-- 
2.43.0


From a1754e434041e725b3123d0f2b0d756709350207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 33/64] fix: WeightedVec3Average left its sum uninitialised

---
 VirtualRobot/math/WeightedAverage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/WeightedAverage.h b/VirtualRobot/math/WeightedAverage.h
index e85f442..a25f9b4 100644
--- a/VirtualRobot/math/WeightedAverage.h
+++ b/VirtualRobot/math/WeightedAverage.h
@@ -45,7 +45,7 @@ namespace math
         Eigen::Vector3f Average();
         float WeightSum();
     private:
-        Eigen::Vector3f sum;
+        Eigen::Vector3f sum = Eigen::Vector3f::Zero();
         float weightSum = 0;
     };
 }
-- 
2.43.0


From de21444820505c9bbba80b48649db72f6c800eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 34/64] fix: LinearInterpolatedOrientation stayed at its start
 when the change per time was small

---
 VirtualRobot/math/LinearInterpolatedOrientation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/LinearInterpolatedOrientation.cpp b/VirtualRobot/math/LinearInterpolatedOrientation.cpp
index ffea50c..371d70a 100644
--- a/VirtualRobot/math/LinearInterpolatedOrientation.cpp
+++ b/VirtualRobot/math/LinearInterpolatedOrientation.cpp
@@ -45,7 +45,7 @@ LinearInterpolatedOrientation::LinearInterpolatedOrientation(const Eigen::Matrix
 
 Eigen::Quaternionf math::LinearInterpolatedOrientation::Get(float t)
 {
-    if(derivative.squaredNorm() < 0.001)
+    if(fabs(angle) < 0.01)
     {
         return startOri;
     }
-- 
2.43.0


From 83318f99ed22872081607527ef96a04178305072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 35/64] fix: second derivatives of WilliamsMinusKernel had the
 wrong sign

---
 VirtualRobot/math/Kernels.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/math/Kernels.cpp b/VirtualRobot/math/Kernels.cpp
index fea8cf2..6d87f01 100644
--- a/VirtualRobot/math/Kernels.cpp
+++ b/VirtualRobot/math/Kernels.cpp
@@ -148,12 +148,12 @@ float WilliamsMinusKernel::Kernel_dx(float x, float /*y*/, float /*z*/, float r,
 
 float WilliamsMinusKernel::Kernel_ddx(float x, float /*y*/, float /*z*/, float r, float R) const
 {
-    if (r == 0) return 6 * R;
-    return -6 * (r - R) + 6 * x * x / r;
+    if (r == 0) return -6 * R;
+    return 6 * (r - R) + 6 * x * x / r;
 }
 
 float WilliamsMinusKernel::Kernel_dxdy(float x, float y, float /*z*/, float r, float /*R*/) const
 {
     if (r == 0) return 0;
-    return -6 * x * y / r;
+    return 6 * x * y / r;
 }
-- 
2.43.0


From 3678d4d94c7308b3fec86b95a285606b0f123521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:59 +0000
Subject: [PATCH 36/64] fix: Grid3D.cpp used another
 std::vector<Eigen::Vector3f> than its users: points allocated with new were
 released with free

---
 VirtualRobot/math/Grid3D.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/math/Grid3D.h b/VirtualRobot/math/Grid3D.h
index 90ff83a..201a7be 100644
--- a/VirtualRobot/math/Grid3D.h
+++ b/VirtualRobot/math/Grid3D.h
@@ -21,6 +21,7 @@
 
 #pragma once
 
+#include "../VirtualRobot.h"
 #include "MathForwardDefinitions.h"
 
 namespace math
-- 
2.43.0


From 691dc71288437d9e94938396525d83efdcfbbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 37/64] fix: BoundingBox::planeGoesThrough read the corners of
 an empty box

---
 VirtualRobot/BoundingBox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index 1af12ff..6e5c255 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -15,7 +15,7 @@ namespace VirtualRobot
 
         std::vector < Eigen::Vector3f > points = getPoints();
 
-        for (int i = 0; i < 8; i++)
+        for (size_t i = 0; i < points.size(); i++)
             if (MathTools::onNormalPointingSide(points[i], p))
             {
                 left = true;
-- 
2.43.0


From e43711a44332494e397e380c6cca7c379d905379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 38/64] fix: BoundingBox::isInside accepted every point along
 the flat side of a box

---
 VirtualRobot/BoundingBox.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index 6e5c255..092c200 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -219,15 +219,6 @@ namespace VirtualRobot
 
     bool BoundingBox::isInside(Eigen::Vector3f point) const
     {
-        Eigen::Vector3f p0(min(0), min(1), min(2));
-        Eigen::Vector3f p1(min(0), min(1), max(2));
-        Eigen::Vector3f p2(min(0), max(1), min(2));
-        Eigen::Vector3f p4(max(0), min(1), min(2));
-
-        Eigen::Vector3f v01 = p0 - p1;
-        Eigen::Vector3f v02 = p0 - p2;
-        Eigen::Vector3f v04 = p0 - p4;
-
         point(0) = std::isnan(point(0)) ? (max(0) + min(0)) / 2 : point(0);
         point(1) = std::isnan(point(1)) ? (max(1) + min(1)) / 2 : point(1);
         point(2) = std::isnan(point(2)) ? (max(2) + min(2)) / 2 : point(2);
@@ -243,8 +234,8 @@ namespace VirtualRobot
             }
         };
 
-        return isBetween(v01.dot(point), v01.dot(p0), v01.dot(p1))
-                && isBetween(v02.dot(point), v02.dot(p0), v02.dot(p2))
-                && isBetween(v04.dot(point), v04.dot(p0), v04.dot(p4));
+        return isBetween(point(0), min(0), max(0))
+                && isBetween(point(1), min(1), max(1))
+                && isBetween(point(2), min(2), max(2));
     }
 }
-- 
2.43.0


From 0402b48c6575bfe3923bdf0207985927b10740d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 39/64] fix: TriMeshModel::addTriangleWithFace read the alpha
 value past the end of the colour vectors

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 06f6cac..6e65847 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -91,9 +91,9 @@ namespace VirtualRobot
     void TriMeshModel::addTriangleWithFace(const Eigen::Vector3f& vertex1, const Eigen::Vector3f& vertex2, const Eigen::Vector3f& vertex3, const Eigen::Vector4f& vertexColor1, const Eigen::Vector4f& vertexColor2, const Eigen::Vector4f& vertexColor3)
     {
         Eigen::Vector3f normal = TriMeshModel::CreateNormal(vertex1, vertex2, vertex3);
-        VisualizationFactory::Color color1(vertexColor1(0), vertexColor1(1), vertexColor1(2), vertexColor1(4));
-        VisualizationFactory::Color color2(vertexColor2(0), vertexColor2(1), vertexColor2(2), vertexColor2(4));
-        VisualizationFactory::Color color3(vertexColor3(0), vertexColor3(1), vertexColor3(2), vertexColor3(4));
+        VisualizationFactory::Color color1(vertexColor1(0), vertexColor1(1), vertexColor1(2), vertexColor1(3));
+        VisualizationFactory::Color color2(vertexColor2(0), vertexColor2(1), vertexColor2(2), vertexColor2(3));
+        VisualizationFactory::Color color3(vertexColor3(0), vertexColor3(1), vertexColor3(2), vertexColor3(3));
         addTriangleWithFace(vertex1, vertex2, vertex3, normal, color1, color2, color3);
     }
 
-- 
2.43.0


From 9189bb4f911ef8124bd8e3ad5868a48d51c70ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 40/64] fix: TriMeshModel::addMissingNormals left normals
 missing when a face had some of them

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 6e65847..fabe0b6 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -251,7 +251,7 @@ namespace VirtualRobot
             }
             if(face.idNormal2 == UINT_MAX)
             {
-                if(normalId == UINT_MAX)
+                if(normalId != UINT_MAX)
                     face.idNormal2 = normalId;
                 else
                 {
@@ -261,7 +261,7 @@ namespace VirtualRobot
             }
             if(face.idNormal3 == UINT_MAX)
             {
-                if(normalId == UINT_MAX)
+                if(normalId != UINT_MAX)
                     face.idNormal3 = normalId;
                 else
                 {
-- 
2.43.0


From 45a6483180907e49944dae96df96f93e90e8282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 41/64] fix: TriMeshModel::clear kept the normals

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index fabe0b6..3d7249d 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -223,6 +223,7 @@ namespace VirtualRobot
     void TriMeshModel::clear()
     {
         vertices.clear();
+        normals.clear();
         colors.clear();
         faces.clear();
         materials.clear();
-- 
2.43.0


From 8393fff4516ebd92d454fa92581db0c9d3052304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 42/64] fix: the bounding box of a fattened or shrunk
 TriMeshModel was not updated

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 3d7249d..f4bf35b 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -577,6 +577,9 @@ namespace VirtualRobot
             }
         }
 
+        boundingBox.clear();
+        boundingBox.addPoints(vertices);
+
         if(updateNormals)
         {
             normals.clear();
-- 
2.43.0


From 4b685499c34195af36174531c9be58fe8a3e58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 43/64] fix: the normal of a new TriangleFace was
 uninitialised, addMissingNormals branched on it

---
 VirtualRobot/MathTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.h b/VirtualRobot/MathTools.h
index 0a41d8c..44d3009 100644
--- a/VirtualRobot/MathTools.h
+++ b/VirtualRobot/MathTools.h
@@ -403,7 +403,7 @@ namespace VirtualRobot
                 : id1(UINT_MAX), id2(UINT_MAX), id3(UINT_MAX),
                   idColor1(UINT_MAX), idColor2(UINT_MAX), idColor3(UINT_MAX),
                   idNormal1(UINT_MAX), idNormal2(UINT_MAX), idNormal3(UINT_MAX),
-                  idMaterial(UINT_MAX) {}
+                  idMaterial(UINT_MAX), normal(Eigen::Vector3f::Zero()) {}
 
             /**
              * Flips the orientation of the contained vertex and the normal.
-- 
2.43.0


From 64836cac02548c5cb3953ab548f46dc855ece9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 44/64] fix: flipping a TriangleFace exchanged the colours and
 normals of its vertices

---
 VirtualRobot/MathTools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/MathTools.h b/VirtualRobot/MathTools.h
index 44d3009..d20f695 100644
--- a/VirtualRobot/MathTools.h
+++ b/VirtualRobot/MathTools.h
@@ -411,6 +411,8 @@ namespace VirtualRobot
             void flipOrientation()
             {
                 std::swap(id3, id1);
+                std::swap(idColor3, idColor1);
+                std::swap(idNormal3, idNormal1);
                 normal *= -1.0f;
             }
             void set(unsigned int id1, unsigned int id2, unsigned int id3)
-- 
2.43.0


From 807c5e399aa735e8d0306b8433b74786dffcc1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:17 +0000
Subject: [PATCH 45/64] fix: CollisionModel::inflateModel and scale left the
 pose used by collision checks uninitialised

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 762d47d..55ea777 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -97,6 +97,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
         if(!origVisualization)
             margin = 0.0;
@@ -398,6 +399,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
 
         if (visualization)
-- 
2.43.0


From b295eae48fd196dcd65165a47500efea6024494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 46/64] fix: scaling a CollisionModel again dropped the scaling
 before

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 55ea777..6f976eb 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -392,10 +392,10 @@ namespace VirtualRobot
     {
         if (model)
         {
-            TriMeshModelPtr modelScaled = model->clone(scaleFactor);
-            bbox = modelScaled->boundingBox;
+            model = model->clone(scaleFactor);
+            bbox = model->boundingBox;
 #if defined(VR_COLLISION_DETECTION_PQP)
-            collisionModelImplementation.reset(new CollisionModelPQP(modelScaled, colChecker, id));
+            collisionModelImplementation.reset(new CollisionModelPQP(model, colChecker, id));
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
-- 
2.43.0


From 4a5458efb2e4f5994d236173fab8f781a1d1f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 47/64] fix: WorkspaceDataArray::getMaxSummedAngleReachablity
 skipped exactly the positions with data

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 5a888dc..b558586 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -261,7 +261,7 @@ namespace VirtualRobot
     {
         int res = 0;
 
-        if (hasEntry(x0, x1, x2))
+        if (!hasEntry(x0, x1, x2))
         {
             return 0;
         }
-- 
2.43.0


From 507b59cd6e8be2b48dd3f4e6d15250b508a1e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 48/64] fix: the number of filled voxels counted voxels that
 were set to zero

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index b558586..1bf31c5 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -167,10 +167,14 @@ namespace VirtualRobot
         unsigned int posTr = 0, posRot = 0;
         getPos(x0, x1, x2, x3, x4, x5, posTr, posRot);
 
-        if (data[posTr][posRot] == 0)
+        if (data[posTr][posRot] == 0 && value != 0)
         {
             voxelFilledCount++;
         }
+        else if (data[posTr][posRot] != 0 && value == 0)
+        {
+            voxelFilledCount--;
+        }
 
         data[posTr][posRot] = value;
 
@@ -186,10 +190,14 @@ namespace VirtualRobot
         unsigned int posTr = 0, posRot = 0;
         getPos(x, posTr, posRot);
 
-        if (data[posTr][posRot] == 0)
+        if (data[posTr][posRot] == 0 && value != 0)
         {
             voxelFilledCount++;
         }
+        else if (data[posTr][posRot] != 0 && value == 0)
+        {
+            voxelFilledCount--;
+        }
 
         data[posTr][posRot] = value;
 
-- 
2.43.0


From 08762b54e96f19c89b29b342edf09276a1ac6311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 49/64] fix: binarizing workspace data without entries reported
 a maximum entry

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 1bf31c5..faadb2b 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -348,7 +348,10 @@ namespace VirtualRobot
             }
         }
 
-        maxEntry = minValidValue;
+        if (maxEntry > minValidValue)
+        {
+            maxEntry = minValidValue;
+        }
     }
 
     void WorkspaceDataArray::bisectData()
-- 
2.43.0


From 974c35862453ffb62bc39c51e7f93899eace7bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 50/64] fix: WorkspaceRepresentation::fillHoles changed the
 filled voxels instead of the holes

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 99f3d32..7c68075 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1392,7 +1392,7 @@ namespace VirtualRobot
                         for (x[4] = 1; x[4] < (unsigned int)numVoxels[4] - 1; x[4]++)
                             for (x[5] = 1; x[5] < (unsigned int)numVoxels[5] - 1; x[5]++)
                             {
-                                if (data->get(x) > 0)
+                                if (data->get(x) == 0)
                                 {
                                     int sum = 0;
                                     int count = 0;
-- 
2.43.0


From e2f5abe1f592c93b216d5191e2c96fd2a9c5ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 51/64] fix: poses up to 1.5 voxels (positions up to one voxel)
 below the bounds of a workspace were taken for covered

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 7c68075..8408939 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -807,10 +807,10 @@ namespace VirtualRobot
             pos = ((x[i] - minBounds[i]) / spaceSize[i]) * (float)numVoxels[i];
             a = (int)(pos);
 
-            if (a < 0)
+            if (pos < 0)
             {
                 // check for rounding errors
-                if (a==-1 && (fabs(float(a) - pos)<0.5f))
+                if (pos > -0.5f)
                     a = 0;
                 else
                     return false;    //pos[i] = 0; // if pose is outside of voxel space, ignore it
@@ -847,7 +847,7 @@ namespace VirtualRobot
 
         for (int i = 0; i < 3; i++)
         {
-            a = (int)(((x[i] - minBounds[i]) / spaceSize[i]) * (float)numVoxels[i]);
+            a = (int)std::floor(((x[i] - minBounds[i]) / spaceSize[i]) * (float)numVoxels[i]);
             if (a < 0)
             {
                 return false;    //pos[i] = 0; // if pose is outside of voxel space, ignore it
-- 
2.43.0


From 50e20b420cc4e8862638ee98736571fa1b3bab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 52/64] fix: WorkspaceRepresentation::getPoseFromVoxel returned
 poses outside of the voxel when a dimension was smaller than the
 discretization

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 8408939..fbf7835 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1246,16 +1246,7 @@ namespace VirtualRobot
                 return false;
             }
 
-            v[i] = ((((float) x[i]) * spaceSize[i]) / ((float)numVoxels[i]))  + minBounds[i];
-
-            if (i < 3)
-            {
-                v[i] += discretizeStepTranslation / 2;
-            }
-            else
-            {
-                v[i] += discretizeStepRotation / 2;
-            }
+            v[i] = (((float) x[i] + 0.5f) * spaceSize[i]) / ((float)numVoxels[i])  + minBounds[i];
         }
 
         return true;
-- 
2.43.0


From 41ddb4660aeda8a8e3454a1ee66499c4d9d7fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 53/64] fix: WorkspaceRepresentation::getVoxelSize read past
 the end of its arrays for dimension six

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index fbf7835..e3b3d3c 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -679,7 +679,7 @@ namespace VirtualRobot
 
     float WorkspaceRepresentation::getVoxelSize(int dim) const
     {
-        if (dim < 0 || dim > 6)
+        if (dim < 0 || dim > 5)
         {
             return 0.0f;
         }
-- 
2.43.0


From af7741082303a0648f99aca851ffbe98b46633a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 54/64] fix: WorkspaceRepresentation::getAdjustOnOverflow
 returned an uninitialised value

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index e3b3d3c..48a76d5 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1110,6 +1110,7 @@ namespace VirtualRobot
         collisionConfigs = 0;
         discretizeStepTranslation = 0;
         discretizeStepRotation = 0;
+        adjustOnOverflow = true;
 
         for (int i = 0; i < 6; i++)
         {
@@ -1173,6 +1174,7 @@ namespace VirtualRobot
         // build data
         this->discretizeStepTranslation = discretizeStepTranslation;
         this->discretizeStepRotation = discretizeStepRotation;
+        this->adjustOnOverflow = adjustOnOverflow;
 
         for (int i = 0; i < 6; i++)
         {
-- 
2.43.0


From a00673346327466f7936476e601f72e6809ee943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 55/64] fix: the volume of a workspace used the discretization
 instead of the size of its voxels

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 48a76d5..220ea86 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1298,8 +1298,7 @@ namespace VirtualRobot
                 }
             }
         }
-        double discrM = discretizeStepTranslation * 0.001;
-        double voxelVolume = discrM * discrM * discrM;
+        double voxelVolume = (getVoxelSize(0) * 0.001) * (getVoxelSize(1) * 0.001) * (getVoxelSize(2) * 0.001);
         result.volumeVoxel3D = (float)voxelVolume;
         result.volumeFilledVoxels3D = (float)((double)result.filledVoxelCount3D * voxelVolume);
         result.volume3D = (float)(((double)result.filledVoxelCount3D - 0.5*(double)result.borderVoxelCount3D) * voxelVolume);
-- 
2.43.0


From ef6368868644ac37452d4e5bf0f8b6b0374754e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 56/64] fix: WorkspaceGrid took positions up to one cell below
 its extends for its first cells

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index d322e38..a7bab26 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -6,6 +6,7 @@
 #include "../Robot.h"
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 using namespace std;
 
 #define MIN_VALUES_STORE_GRASPS 100
@@ -65,8 +66,8 @@ namespace VirtualRobot
             return 0;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
@@ -84,8 +85,8 @@ namespace VirtualRobot
             return false;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
@@ -115,8 +116,8 @@ namespace VirtualRobot
             return false;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
@@ -198,8 +199,8 @@ namespace VirtualRobot
             return;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
         setCellEntry(nPosX, nPosY, value, grasp);
     }
 
@@ -242,8 +243,8 @@ namespace VirtualRobot
             return;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
-- 
2.43.0


From 264061e91ff691e14ce9e080690ff84aa475c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 57/64] fix: WorkspaceGrid::getRandomPos returned positions
 outside of the cell it reported

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index a7bab26..547143b 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -381,8 +381,8 @@ namespace VirtualRobot
                 *entries = nEntry;
             if (nEntry >= minEntry)
             {
-                storeXGlobal = minX + ((float)x + 0.5f) * discretizeSize;
-                storeYGlobal = minY + ((float)y + 0.5f) * discretizeSize;
+                storeXGlobal = minX + ((float)x + 0.5f) * gridExtendX / (float)gridSizeX;
+                storeYGlobal = minY + ((float)y + 0.5f) * gridExtendY / (float)gridSizeY;
 
                 return true;
             }
@@ -415,8 +415,8 @@ namespace VirtualRobot
                 *entries = nEntry;
             if (nEntry >= minEntry)
             {
-                storeXGlobal = minX + ((float)x + 0.5f) * discretizeSize;
-                storeYGlobal = minY + ((float)y + 0.5f) * discretizeSize;
+                storeXGlobal = minX + ((float)x + 0.5f) * gridExtendX / (float)gridSizeX;
+                storeYGlobal = minY + ((float)y + 0.5f) * gridExtendY / (float)gridSizeY;
                 return true;
             }
 
-- 
2.43.0


From 0d61f5e08cb59b796f1b62e78fa0909aeec06dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 58/64] fix: merging workspace grids used an uninitialised
 entry outside of a grid and extended grids with negative coordinates

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index 547143b..6992020 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -506,9 +506,9 @@ namespace VirtualRobot
     WorkspaceGridPtr WorkspaceGrid::MergeWorkspaceGrids(const std::vector<WorkspaceGridPtr> &grids)
     {
         VR_ASSERT(grids.size() >= 2);
-        float totalMaxX = std::numeric_limits<float>::min();
+        float totalMaxX = std::numeric_limits<float>::lowest();
         float totalMinX = std::numeric_limits<float>::max();
-        float totalMaxY = std::numeric_limits<float>::min();
+        float totalMaxY = std::numeric_limits<float>::lowest();
         float totalMinY = std::numeric_limits<float>::max();
         for(auto& grid : grids)
         {
@@ -530,7 +530,7 @@ namespace VirtualRobot
                 GraspPtr grasp;
                 for(auto& grid : grids)
                 {
-                    int score;
+                    int score = 0;
                     GraspPtr tmpGrasp;
                     if(grid->getEntry(x, y, score, tmpGrasp))
                     {
-- 
2.43.0


From a2447fdc453fad37d7ce5d3de5090ce0de484802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:25 +0000
Subject: [PATCH 59/64] fix: WorkspaceGrid::setEntryCheckNeighbors left out all
 neighbours of cells at the border

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index 6992020..5c63ff9 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -254,17 +254,15 @@ namespace VirtualRobot
 
         setCellEntry(nPosX, nPosY, value, grasp);
 
-        if (nPosX > 0 && nPosX < (gridSizeX - 1) && nPosY > 0 && nPosY < (gridSizeY - 1))
-        {
-            setCellEntry(nPosX - 1, nPosY, value, grasp);
-            setCellEntry(nPosX - 1, nPosY - 1, value, grasp);
-            setCellEntry(nPosX - 1, nPosY + 1, value, grasp);
-            setCellEntry(nPosX, nPosY - 1, value, grasp);
-            setCellEntry(nPosX, nPosY + 1, value, grasp);
-            setCellEntry(nPosX + 1, nPosY - 1, value, grasp);
-            setCellEntry(nPosX + 1, nPosY, value, grasp);
-            setCellEntry(nPosX + 1, nPosY + 1, value, grasp);
-        }
+        // cells outside of the grid are ignored
+        setCellEntry(nPosX - 1, nPosY, value, grasp);
+        setCellEntry(nPosX - 1, nPosY - 1, value, grasp);
+        setCellEntry(nPosX - 1, nPosY + 1, value, grasp);
+        setCellEntry(nPosX, nPosY - 1, value, grasp);
+        setCellEntry(nPosX, nPosY + 1, value, grasp);
+        setCellEntry(nPosX + 1, nPosY - 1, value, grasp);
+        setCellEntry(nPosX + 1, nPosY, value, grasp);
+        setCellEntry(nPosX + 1, nPosY + 1, value, grasp);
     }
 
     void WorkspaceGrid::setEntries(std::vector<WorkspaceRepresentation::WorkspaceCut2DTransformationPtr>& wsData, Eigen::Matrix4f& graspGlobal, GraspPtr grasp)
-- 
2.43.0


From 2d8adb79d0e318f3b9d34263fd10d80f7b229977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:35 +0000
Subject: [PATCH 60/64] fix: sphere collision checks use the given radius

---
 VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
index 23bd8cd..53c3259 100644
--- a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
+++ b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
@@ -132,10 +132,7 @@ namespace VirtualRobot
             pqpChecker->PQP_Tolerance(&result,
                                       R1, T1, m1.get(),
                                       R2, T2, pointModel.get(),
-                                      50);
-
-
-
+                                      tolerance);
             return ((bool)(result.CloserThanTolerance() != 0));
         }
     }
-- 
2.43.0


From 32a428a399af162da30d8ea1f9877192ac5826d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:35 +0000
Subject: [PATCH 61/64] fix: CDManager::addCollisionModel does not change the
 list it iterates

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index aa854b6..b4cb57e 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -38,6 +38,12 @@ namespace VirtualRobot
                 VR_WARNING << "CollisionModel of SceneObjectSet '" << m->getName() << "' is linked to a different instance of collision checker than this CollisionManager..." << endl;
             }
 
+            // addCollisionModelPair() adds m to the list while it is iterated otherwise
+            if (!_hasSceneObjectSet(m))
+            {
+                colModels.push_back(m);
+            }
+
             for (const auto & colModel : colModels)
             {
                 if (m != colModel)
@@ -45,11 +51,6 @@ namespace VirtualRobot
                     addCollisionModelPair(colModel, m);
                 }
             }
-
-            if (!_hasSceneObjectSet(m))
-            {
-                colModels.push_back(m);
-            }
         }
     }
 
-- 
2.43.0


From b1b09faa145aee5b83954ac8e27a0141a183f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:35 +0000
Subject: [PATCH 62/64] fix: CDManager distances with points leave out the
 distance of a set to itself

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index b4cb57e..8f12d0c 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -249,6 +249,11 @@ namespace VirtualRobot
 
         for (const auto & colModel : colModels)
         {
+            if (m == colModel)
+            {
+                continue;
+            }
+
             tmp = (float)colChecker->calculateDistance(m, colModel, _P1, _P2, &_trID1, &_trID2);
 
             if (tmp < minDist)
-- 
2.43.0


From 40cd1823edc5205f144f461f4abd2e581419abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:35 +0000
Subject: [PATCH 63/64] fix: adding objects to a set goes on after an object
 that is already contained

---
 VirtualRobot/SceneObjectSet.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/SceneObjectSet.cpp b/VirtualRobot/SceneObjectSet.cpp
index 1ebbc66..19ed38b 100644
--- a/VirtualRobot/SceneObjectSet.cpp
+++ b/VirtualRobot/SceneObjectSet.cpp
@@ -90,16 +90,17 @@ namespace VirtualRobot
         }
 
         std::vector< SceneObjectPtr > so = sceneObjectSet->getSceneObjects();
+        bool result = true;
 
         for (const auto & i : so)
         {
             if (!addSceneObject(i))
             {
-                return false;
+                result = false;
             }
         }
 
-        return true;
+        return result;
     }
 
     bool SceneObjectSet::addSceneObjects(RobotNodeSetPtr robotNodeSet)
@@ -116,6 +117,8 @@ namespace VirtualRobot
 
     bool SceneObjectSet::addSceneObjects(std::vector<RobotNodePtr> robotNodes)
     {
+        bool result = true;
+
         for (auto & robotNode : robotNodes)
         {
             SceneObjectPtr cm = boost::dynamic_pointer_cast<SceneObject>(robotNode);
@@ -130,13 +133,13 @@ namespace VirtualRobot
                 {
                     if (!addSceneObject(cm))
                     {
-                        return false;
+                        result = false;
                     }
                 }
             }
         }
 
-        return true;
+        return result;
     }
 
     bool SceneObjectSet::removeSceneObject(SceneObjectPtr sceneObject)
-- 
2.43.0


From c3c57c48bcbea7a4aa3f06b82217d8bc9a79c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:58 +0000
Subject: [PATCH 64/64] fix: CDManager does not check an object that is added
 twice against itself

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index 8f12d0c..3dd9e86 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -46,7 +46,10 @@ namespace VirtualRobot
 
             for (const auto & colModel : colModels)
             {
-                if (m != colModel)
+                // an object is not checked against itself, also when it was added within another set before
+                bool sameObject = m->getSize() == 1 && colModel->getSize() == 1 && colModel->getSceneObject(0) == m->getSceneObject(0);
+
+                if (m != colModel && !sameObject)
                 {
                     addCollisionModelPair(colModel, m);
                 }
-- 
2.43.0

