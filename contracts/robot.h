// Builders of kinematic trees through the public API, and the specification of the joint motion.
#pragma once
#include "vc.h"
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/Nodes/RobotNodeRevolute.h>
#include <VirtualRobot/Nodes/RobotNodePrismatic.h>
#include <VirtualRobot/Nodes/RobotNodeFixed.h>
#include <VirtualRobot/Nodes/PositionSensor.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/Visualization/VisualizationNode.h>
namespace vcr
{
using namespace VirtualRobot;
using namespace Eigen;

static inline Vector3f unit(const char* n)
{
    Matrix3f r = vc::rot(n);
    Vector3f v;
    for (int i = 0; i < 3; i++) v(i) = r(i, 2);
    return v;
}
// rotation by angle q about the unit axis a (Rodrigues)
static inline Matrix3f rodrigues(const Vector3f& a, float q)
{
    float c = vc_cos(q), s = vc_sin(q);
    float t = 1 - c;
    Matrix3f m;
    m(0,0) = c + a(0)*a(0)*t;       m(0,1) = a(0)*a(1)*t - a(2)*s;  m(0,2) = a(0)*a(2)*t + a(1)*s;
    m(1,0) = a(1)*a(0)*t + a(2)*s;  m(1,1) = c + a(1)*a(1)*t;       m(1,2) = a(1)*a(2)*t - a(0)*s;
    m(2,0) = a(2)*a(0)*t - a(1)*s;  m(2,1) = a(2)*a(1)*t + a(0)*s;  m(2,2) = c + a(2)*a(2)*t;
    return m;
}
static inline Matrix4f revolute(const Vector3f& a, float q) { return vc::poseOf(rodrigues(a, q), Vector3f(0, 0, 0)); }
static inline Matrix4f prismatic(const Vector3f& d, float q) { return vc::poseOf(Matrix3f::Identity(), Vector3f(d(0)*q, d(1)*q, d(2)*q)); }
static inline Matrix4f I4() { Matrix4f m = Matrix4f::Identity(); return m; }

static inline RobotNodePtr fixed(RobotPtr r, const char* n, const Matrix4f& t)
{
    RobotNodePtr p(new RobotNodeFixed(r, n, t));
    r->registerRobotNode(p);
    return p;
}
static inline RobotNodePtr rev(RobotPtr r, const char* n, const Matrix4f& t, const Vector3f& axis, float lo = -3, float hi = 3, float off = 0)
{
    RobotNodePtr p(new RobotNodeRevolute(r, n, lo, hi, t, axis, VisualizationNodePtr(), CollisionModelPtr(), off));
    r->registerRobotNode(p);
    return p;
}
static inline RobotNodePtr pris(RobotPtr r, const char* n, const Matrix4f& t, const Vector3f& dir, float lo = -1000, float hi = 1000, float off = 0)
{
    RobotNodePtr p(new RobotNodePrismatic(r, n, lo, hi, t, dir, VisualizationNodePtr(), CollisionModelPtr(), off));
    r->registerRobotNode(p);
    return p;
}
static inline RobotPtr robot() { return RobotPtr(new LocalRobot("r")); }
}
