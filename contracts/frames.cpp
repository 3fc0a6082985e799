// VC-PROPERTY: C07
// VC-TU: %robot VirtualRobot/LinkedCoordinate.cpp
// Coordinate frame conversions of scene objects, robot nodes and linked coordinates
#include "robot.h"
#include <VirtualRobot/LinkedCoordinate.h>
using namespace vcr;
using vc::eq; using vc::mul; using vc::rinv; using vc::app;

static Vector3f rotate(const Matrix4f& m, const Vector3f& v) { return vc::app3(m.block<3, 3>(0, 0), v); }
static Matrix3f rotmul(const Matrix4f& m, const Matrix3f& r) { Matrix3f a = m.block<3, 3>(0, 0); return vc::mul3(a, r); }
static SceneObjectPtr object(const char* n, const Matrix4f& p)
{
    SceneObjectPtr o(new SceneObject(n));
    o->setGlobalPose(p);
    return o;
}
VC_HARNESS(object_local_global)
{
    Matrix4f A = vc::pose("A"), P = vc::pose("P");
    Vector3f v = vc::vec3("v");
    SceneObjectPtr o = object("o", A);
    eq(o->getGlobalPose(), A, "global pose stored");
    eq(o->getGlobalPosition(), Vector3f(A(0,3), A(1,3), A(2,3)), "global position");
    eq(o->getGlobalOrientation(), Matrix3f(A.block<3, 3>(0, 0)), "global orientation");
    eq(o->toGlobalCoordinateSystem(P), mul(A, P), "toGlobalCoordinateSystem");
    eq(o->toGlobalCoordinateSystemVec(v), app(A, v), "toGlobalCoordinateSystemVec");
    eq(o->toLocalCoordinateSystem(P), mul(rinv(A), P), "toLocalCoordinateSystem");
    eq(o->toLocalCoordinateSystemVec(v), app(rinv(A), v), "toLocalCoordinateSystemVec");
    eq(o->getGlobalPose(P), mul(A, P), "global pose of a local pose");
    eq(o->getGlobalPosition(v), app(A, v), "global position of a local position");
    eq(o->getGlobalDirection(v), rotate(A, v), "global direction of a local direction");
    Matrix3f R = vc::rot("R");
    eq(o->getGlobalOrientation(R), rotmul(A, R), "global orientation of a local orientation");
}
VC_HARNESS(object_roundtrip)
{
    Matrix4f A = vc::pose("A"), P = vc::pose("P");
    Vector3f v = vc::vec3("v");
    SceneObjectPtr o = object("o", A);
    eq(o->toLocalCoordinateSystem(o->toGlobalCoordinateSystem(P)), P, "local pose survives the way to the global frame and back");
    eq(o->toGlobalCoordinateSystem(o->toLocalCoordinateSystem(P)), P, "global pose survives the way to the local frame and back");
    eq(o->toLocalCoordinateSystemVec(o->toGlobalCoordinateSystemVec(v)), v, "local position survives the way to the global frame and back");
    eq(o->toGlobalCoordinateSystemVec(o->toLocalCoordinateSystemVec(v)), v, "global position survives the way to the local frame and back");
}
VC_HARNESS(between_objects)
{
    Matrix4f A = vc::pose("A"), B = vc::pose("B"), P = vc::pose("P");
    Vector3f v = vc::vec3("v");
    SceneObjectPtr a = object("a", A), b = object("b", B);
    eq(a->getTransformationTo(b), mul(rinv(A), B), "transformation to another object");
    eq(a->getTransformationFrom(b), mul(rinv(B), A), "transformation from another object");
    eq(a->transformTo(b, P), mul(mul(rinv(A), B), P), "pose of the other object's frame in this frame");
    eq(a->transformTo(b, v), app(rinv(A), app(B, v)), "position of the other object's frame in this frame");
    eq(mul(a->getTransformationTo(b), b->getTransformationTo(a)), I4(), "the transformations are inverse to each other");
}
// a robot in an arbitrary pose, root r0 with an arbitrary offset, two branches
struct F
{
    RobotPtr r;
    RobotNodePtr a, b, c;
    Matrix4f G, A, B, C;
    float q;
    F()
    {
        r = robot();
        G = vc::pose("G"); A = vc::poseOf(Matrix3f::Identity(), vc::vec3("A")); B = vc::pose("B"); C = vc::pose("C");
        q = vc_nondet_range("q", -3, 3);
        a = fixed(r, "a", A); b = rev(r, "b", B, Vector3f(0, 1, 0)); c = fixed(r, "c", C);
        a->attachChild(b); a->attachChild(c);
        r->setRootNode(a);
        r->setGlobalPose(G);
        b->setJointValue(q);
    }
    Matrix4f wa() { return mul(G, A); }
    Matrix4f lb() { return mul(B, vcr::revolute(Vector3f(0, 1, 0), q)); }
    Matrix4f wb() { return mul(wa(), lb()); }
    Matrix4f wc() { return mul(wa(), C); }
};
VC_HARNESS(root_frame)
{
    F f;
    Matrix4f P = vc::pose("P");
    Vector3f v = vc::vec3("v");
    Matrix3f R = vc::rot("R");
    eq(f.b->getPoseInRootFrame(), f.lb(), "pose in the root frame");
    eq(f.b->getPositionInRootFrame(), Vector3f(f.B(0,3), f.B(1,3), f.B(2,3)), "position in the root frame");
    eq(f.b->getOrientationInRootFrame(), Matrix3f(f.lb().block<3, 3>(0, 0)), "orientation in the root frame");
    eq(f.c->getPoseInRootFrame(P), mul(f.C, P), "local pose in the root frame");
    eq(f.c->getPositionInRootFrame(v), app(f.C, v), "local position in the root frame");
    eq(f.c->getDirectionInRootFrame(v), rotate(f.C, v), "local direction in the root frame");
    eq(f.c->getOrientationInRootFrame(R), rotmul(f.C, R), "local orientation in the root frame");
    eq(f.a->getPoseInRootFrame(), I4(), "the root's pose in the root frame");
}
VC_HARNESS(between_nodes)
{
    F f;
    Vector3f v = vc::vec3("v");
    eq(f.b->getTransformationTo(f.c), mul(rinv(f.lb()), f.C), "transformation between branches");
    eq(f.c->transformTo(f.b, v), app(rinv(f.C), app(f.lb(), v)), "position between branches");
    eq(f.c->toLocalCoordinateSystemVec(f.b->toGlobalCoordinateSystemVec(v)), app(rinv(f.C), app(f.lb(), v)), "position via the global frame");
}
VC_HARNESS(axis_in_frame)
{
    F f;
    boost::shared_ptr<RobotNodeRevolute> b = boost::dynamic_pointer_cast<RobotNodeRevolute>(f.b);
    Vector3f g = b->getJointRotationAxis(), l = b->getJointRotationAxis(f.c);
    eq(g, rotate(f.wb(), Vector3f(0, 1, 0)), "rotation axis in the global frame");
    eq(l, rotate(mul(rinv(f.C), f.B), Vector3f(0, 1, 0)), "rotation axis in another node's frame");
}
VC_HARNESS(translation_axis_in_frame)
{
    RobotPtr r = robot();
    Matrix4f G = vc::pose("G"), B = vc::pose("B"), C = vc::pose("C");
    Vector3f d = unit("d");
    boost::shared_ptr<RobotNodePrismatic> b(new RobotNodePrismatic(r, "b", -3, 3, B, d));
    r->registerRobotNode(b);
    RobotNodePtr c = fixed(r, "c", C);
    b->attachChild(c);
    r->setRootNode(b);
    r->setGlobalPose(G);
    eq(b->getJointTranslationDirection(), rotate(mul(G, B), d), "translation direction in the global frame");
    eq(b->getJointTranslationDirection(c), rotate(rinv(C), d), "translation direction in another node's frame");
}
VC_HARNESS(linked_coordinate)
{
    F f;
    Matrix4f P = vc::pose("P");
    LinkedCoordinate k(f.r);
    k.set(f.b, P);
    vc_ensure(k.getFrame() == f.b, "frame stored");
    eq(k.getPose(), P, "pose stored");
    eq(k.getPosition(), Vector3f(P(0,3), P(1,3), P(2,3)), "position");
    eq(k.getInFrame("c"), mul(mul(rinv(f.C), f.lb()), P), "pose in another frame");
    eq(k.getPose(), P, "the query leaves the coordinate alone");
    k.changeFrame("c");
    vc_ensure(k.getFrame() == f.c, "frame changed");
    eq(k.getPose(), mul(mul(rinv(f.C), f.lb()), P), "pose expressed in the new frame");
    k.changeFrame(f.b);
    eq(k.getPose(), P, "pose survives the way to another frame and back");
}
VC_HARNESS(linked_position)
{
    F f;
    Vector3f v = vc::vec3("v");
    LinkedCoordinate k(f.r);
    k.set("c", v);
    vc_ensure(k.getFrame() == f.c, "frame stored");
    eq(k.getPosition(), v, "position stored");
    k.changeFrame(f.a);
    eq(k.getPosition(), app(f.C, v), "position expressed in the new frame");
    Matrix4f T = LinkedCoordinate::getCoordinateTransformation(f.b, f.c, f.r);
    eq(T, mul(rinv(f.C), f.lb()), "transformation from one node's frame to another's");
}
VC_HARNESS(linked_coordinate_rejects)
{
    F f;
    RobotPtr other = robot();
    RobotNodePtr x = fixed(other, "x", I4());
    other->setRootNode(x);
    LinkedCoordinate k(f.r);
    k.set(f.b, I4());
    int n = 0;
    try { k.set(x, I4()); } catch (...) { n++; }
    try { k.changeFrame(x); } catch (...) { n++; }
    try { k.changeFrame("nope"); } catch (...) { n++; }
    try { k.getInFrame(x); } catch (...) { n++; }
    vc_ensure(n == 4, "frames of other robots are rejected");
    vc_ensure(k.getFrame() == f.b, "a rejected frame leaves the coordinate alone");
    eq(k.getPose(), I4(), "a rejected frame leaves the coordinate alone");
}
