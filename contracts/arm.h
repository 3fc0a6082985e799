// A robot arm with arbitrary geometry and its forward kinematics, written independently of the library.
#pragma once
#include "robot.h"
using namespace vcr;
using vc::eq; using vc::mul; using vc::rinv; using vc::app;

static Matrix4f tr(const Vector3f& v) { return vc::poseOf(Matrix3f::Identity(), v); }
static Vector3f pos(const Matrix4f& m) { return Vector3f(m(0,3), m(1,3), m(2,3)); }
static Vector3f col(const Matrix4f& m, int c) { return Vector3f(m(0,c), m(1,c), m(2,c)); }
static Vector3f sub(const Vector3f& a, const Vector3f& b) { return Vector3f(a(0) - b(0), a(1) - b(1), a(2) - b(2)); }
static SceneObject::Physics physics(const Vector3f& com, float mass)
{
    SceneObject::Physics p;
    p.comLocation = SceneObject::Physics::eCustom;
    p.localCoM = com;
    p.massKg = mass;
    return p;
}
// root a in an arbitrary pose, revolute b, prismatic c, revolute d, tool t; a side branch with the joint s
struct Arm
{
    RobotPtr r;
    RobotNodePtr a, b, c, d, t, s;
    Matrix4f G, B, C, D, T;
    Vector3f ax, ay, az, cb, cd;
    float qb, qc, qd, mb, md;
    RobotNodeSetPtr set;
    Arm(bool withSide = true)
    {
        r = robot();
        G = vc::pose("G"); B = tr(vc::vec3("B")); C = tr(vc::vec3("C")); D = tr(vc::vec3("D")); T = vc::pose("T");
        ax = Vector3f(1, 0, 0); ay = Vector3f(0, 1, 0); az = Vector3f(0, 0, 1);
        cb = vc::vec3("cb"); cd = vc::vec3("cd");
        mb = vc_nondet_range("mb", 0.1f, 100); md = vc_nondet_range("md", 0.1f, 100);
        a = fixed(r, "a", I4());
        b.reset(new RobotNodeRevolute(r, "b", -3, 3, B, az, VisualizationNodePtr(), CollisionModelPtr(), 0, physics(cb, mb)));
        r->registerRobotNode(b);
        c = pris(r, "c", C, ay);
        d.reset(new RobotNodeRevolute(r, "d", -3, 3, D, ax, VisualizationNodePtr(), CollisionModelPtr(), 0, physics(cd, md)));
        r->registerRobotNode(d);
        t = fixed(r, "t", T); s = rev(r, "s", I4(), ax);
        a->attachChild(b); b->attachChild(c); c->attachChild(d); d->attachChild(t); a->attachChild(s);
        r->setRootNode(a);
        r->setGlobalPose(G);
        qb = vc_nondet_range("qb", -3, 3); qc = vc_nondet_range("qc", -1000, 1000); qd = vc_nondet_range("qd", -3, 3);
        b->setJointValue(qb); c->setJointValue(qc); d->setJointValue(qd);
        std::vector<RobotNodePtr> n;
        n.push_back(b); n.push_back(c); n.push_back(d);
        if (withSide) n.push_back(s);
        set = RobotNodeSet::createRobotNodeSet(r, "set", n, a, t);
    }
    Matrix4f pa() { return G; }
    Matrix4f pb() { return mul(mul(G, B), vcr::revolute(az, qb)); }
    Matrix4f pc() { return mul(mul(pb(), C), vcr::prismatic(ay, qc)); }
    Matrix4f pd() { return mul(mul(pc(), D), vcr::revolute(ax, qd)); }
    Matrix4f pt() { return mul(pd(), T); }
    // the velocity of a point (global) carried by the last link for a unit velocity of each joint
    Vector3f vb(const Vector3f& p) { return vc::cross(col(pb(), 2), sub(p, pos(pb()))); }
    Vector3f vC() { return col(pc(), 1); }
    Vector3f vd(const Vector3f& p) { return vc::cross(col(pd(), 0), sub(p, pos(pd()))); }
};
// a robot with one joint whose tool is at the position p
struct Slide
{
    RobotPtr r;
    RobotNodePtr a, t;
    Vector3f p;
    RobotNodeSetPtr set;
    Slide()
    {
        r = robot();
        p = vc::vec3("p");
        a = pris(r, "a", I4(), Vector3f(1, 0, 0)); t = fixed(r, "t", tr(p));
        a->attachChild(t);
        r->setRootNode(a);
        std::vector<RobotNodePtr> n;
        n.push_back(a);
        set = RobotNodeSet::createRobotNodeSet(r, "set", n, a, t);
    }
};
