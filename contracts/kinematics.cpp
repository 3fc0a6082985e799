// VC-PROPERTY: C05
// VC-TU: %robot VirtualRobot/Nodes/Sensor.cpp VirtualRobot/Nodes/PositionSensor.cpp
// VC-ASSUME: math::Helpers::OrthogonalizeSVD (Eigen::JacobiSVD) returns its argument when that is a rotation; the callers are proved to pass a rotation
#include "robot.h"
using namespace vcr;
using vc::eq;
using vc::mul;

// root -> fixed a (arbitrary pose) -> joint b, arbitrary robot pose
VC_HARNESS(revolute)
{
    RobotPtr r = robot();
    Matrix4f A = vc::pose("A"), B = vc::pose("B"), G = vc::pose("G");
    Vector3f ax = unit("axis");
    float off = vc_nondet_float("offset"), q = vc_nondet_range("q", -3, 3);
    RobotNodePtr a = fixed(r, "a", A), b = rev(r, "b", B, ax, -3, 3, off);
    a->attachChild(b);
    r->setRootNode(a);
    r->setGlobalPose(G);
    b->setJointValue(q);
    eq(b->getJointValue(), q, "joint value");
    vc::eqm(a->getGlobalPose(), mul(G, A), 4, 4, "root node pose");
    vc::eqm(b->getGlobalPose(), mul(mul(mul(G, A), B), revolute(ax, q + off)), 4, 4, "revolute joint pose");
    vc_cover("end");
}
VC_HARNESS(prismatic)
{
    RobotPtr r = robot();
    Matrix4f A = vc::pose("A"), B = vc::pose("B"), G = vc::pose("G");
    Vector3f ax = unit("dir");
    float off = vc_nondet_float("offset"), q = vc_nondet_range("q", -1000, 1000);
    RobotNodePtr a = fixed(r, "a", A), b = pris(r, "b", B, ax, -1000, 1000, off);
    a->attachChild(b);
    r->setRootNode(a);
    r->setGlobalPose(G);
    b->setJointValue(q);
    eq(b->getJointValue(), q, "joint value");
    vc::eqm(b->getGlobalPose(), mul(mul(mul(G, A), B), vcr::prismatic(ax, q + off)), 4, 4, "prismatic joint pose");
    vc_cover("end");
}
// the axis given to the constructor need not be normalised
VC_HARNESS(revolute_axis_scaled)
{
    RobotPtr r = robot();
    Vector3f ax = unit("axis");
    float s = vc_nondet_range("s", 0.001f, 1000), q = vc_nondet_range("q", -3, 3);
    RobotNodePtr b = rev(r, "b", I4(), ax * s);
    r->setRootNode(b);
    b->setJointValue(q);
    vc::eqm(b->getGlobalPose(), vcr::revolute(ax, q), 4, 4, "revolute joint with scaled axis");
}
VC_HARNESS(fixed_joint)
{
    RobotPtr r = robot();
    Matrix4f A = vc::pose("A"), B = vc::pose("B"), G = vc::pose("G");
    RobotNodePtr a = fixed(r, "a", A), b = fixed(r, "b", B);
    a->attachChild(b);
    r->setRootNode(a);
    r->setGlobalPose(G);
    vc::eqm(b->getGlobalPose(), mul(mul(G, A), B), 4, 4, "fixed node pose");
    vc::eqm(b->getLocalTransformation(), B, 4, 4, "local transformation");
    // a fixed node has no joint
    vc_ensure(!b->isRotationalJoint() && !b->isTranslationalJoint(), "a fixed node is no joint");
}
// Denavit-Hartenberg parameters: RotZ(theta) TransZ(d) TransX(a) RotX(alpha)
static Matrix4f dh(float a, float d, float alpha, float theta)
{
    Vector3f z(0, 0, 1), x(1, 0, 0);
    Matrix4f m = mul(vcr::revolute(z, theta), vcr::prismatic(z, d));
    return mul(mul(m, vcr::prismatic(x, a)), vcr::revolute(x, alpha));
}
VC_HARNESS(dh_revolute)
{
    RobotPtr r = robot();
    float a = vc_nondet_float("a"), d = vc_nondet_float("d"), al = vc_nondet_float("alpha"), th = vc_nondet_float("theta"), off = vc_nondet_float("off"), q = vc_nondet_range("q", -3, 3);
    RobotNodePtr b(new RobotNodeRevolute(r, "b", -3, 3, a, d, al, th, VisualizationNodePtr(), CollisionModelPtr(), off));
    r->registerRobotNode(b);
    r->setRootNode(b);
    vc::eqm(b->getLocalTransformation(), dh(a, d, al, th), 4, 4, "DH transformation");
    b->setJointValue(q);
    vc::eqm(b->getGlobalPose(), mul(dh(a, d, al, th), vcr::revolute(Vector3f(0, 0, 1), q + off)), 4, 4, "revolute joint with DH parameters");
}
VC_HARNESS(dh_prismatic)
{
    RobotPtr r = robot();
    float a = vc_nondet_float("a"), d = vc_nondet_float("d"), al = vc_nondet_float("alpha"), th = vc_nondet_float("theta"), off = vc_nondet_float("off"), q = vc_nondet_range("q", -30, 30);
    RobotNodePtr b(new RobotNodePrismatic(r, "b", -30, 30, a, d, al, th, VisualizationNodePtr(), CollisionModelPtr(), off));
    r->registerRobotNode(b);
    r->setRootNode(b);
    b->setJointValue(q);
    vc::eqm(b->getGlobalPose(), mul(dh(a, d, al, th), vcr::prismatic(Vector3f(0, 0, 1), q + off)), 4, 4, "prismatic joint with DH parameters");
}
VC_HARNESS(dh_fixed)
{
    RobotPtr r = robot();
    float a = vc_nondet_float("a"), d = vc_nondet_float("d"), al = vc_nondet_float("alpha"), th = vc_nondet_float("theta");
    RobotNodePtr b(new RobotNodeFixed(r, "b", a, d, al, th));
    r->registerRobotNode(b);
    r->setRootNode(b);
    vc::eqm(b->getGlobalPose(), dh(a, d, al, th), 4, 4, "fixed node with DH parameters");
}
// root a with two joints b, c; e hangs below b, f below c
struct Tree
{
    RobotPtr r;
    RobotNodePtr a, b, c, e, f;
    Matrix4f A, B, C, E, F, G;
    Vector3f bx, cx;
    Tree(bool poses = true)
    {
        r = robot();
        G = vc::pose("G"); A = I4();
        B = vc::poseOf(Matrix3f::Identity(), vc::vec3("B")); C = vc::poseOf(Matrix3f::Identity(), vc::vec3("C"));
        E = vc::pose("E"); F = vc::pose("F");
        bx = Vector3f(0, 0, 1); cx = Vector3f(0, 1, 0);
        a = fixed(r, "a", A); b = rev(r, "b", B, bx); c = pris(r, "c", C, cx); e = fixed(r, "e", E); f = rev(r, "f", F, cx);
        a->attachChild(b); a->attachChild(c); b->attachChild(e); c->attachChild(f);
        r->setRootNode(a);
        r->setGlobalPose(G);
    }
    void check(const Matrix4f& g, float qb, float qc, float qf)
    {
        vc::eqm(r->getGlobalPose(), g, 4, 4, "robot pose");
        vc::eqm(a->getGlobalPose(), mul(g, A), 4, 4, "root pose");
        Matrix4f pb = mul(mul(mul(g, A), B), vcr::revolute(bx, qb)), pc = mul(mul(mul(g, A), C), vcr::prismatic(cx, qc));
        vc::eqm(b->getGlobalPose(), pb, 4, 4, "first branch pose");
        vc::eqm(c->getGlobalPose(), pc, 4, 4, "second branch pose");
        vc::eqm(e->getGlobalPose(), mul(pb, E), 4, 4, "end of first branch pose");
        vc::eqm(f->getGlobalPose(), mul(mul(pc, F), vcr::revolute(cx, qf)), 4, 4, "end of second branch pose");
        eq(b->getJointValue(), qb, "first joint value");
        eq(c->getJointValue(), qc, "second joint value");
        eq(f->getJointValue(), qf, "third joint value");
    }
};
static float qr(const char* n) { return vc_nondet_range(n, -3, 3); }
static float qp(const char* n) { return vc_nondet_range(n, -1000, 1000); }
VC_HARNESS(tree_joints_one_by_one)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1"), b2 = qr("b2");
    t.check(t.G, 0, 0, 0);
    t.b->setJointValue(b1);
    t.check(t.G, b1, 0, 0);
    t.r->setJointValue(t.c, c1);
    t.check(t.G, b1, c1, 0);
    t.r->setJointValue("f", f1);
    t.check(t.G, b1, c1, f1);
    t.b->setJointValue(b2);
    t.check(t.G, b2, c1, f1);
}
VC_HARNESS(tree_joints_by_name_map)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1"), c2 = qp("c2");
    std::map<std::string, float> m;
    m["b"] = b1; m["c"] = c1; m["f"] = f1;
    t.r->setJointValues(m);
    t.check(t.G, b1, c1, f1);
    std::map<std::string, float> m2;
    m2["c"] = c2;
    t.r->setJointValues(m2);
    t.check(t.G, b1, c2, f1);
}
VC_HARNESS(tree_joints_by_node_map)
{
    Tree t;
    float b1 = qr("b1"), f1 = qr("f1");
    std::map<RobotNodePtr, float> m;
    m[t.b] = b1; m[t.f] = f1;
    t.r->setJointValues(m);
    t.check(t.G, b1, 0, f1);
}
VC_HARNESS(tree_joints_by_vector)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1");
    std::vector<RobotNodePtr> n;
    n.push_back(t.f); n.push_back(t.b); n.push_back(t.c);
    std::vector<float> v;
    v.push_back(f1); v.push_back(b1); v.push_back(c1);
    t.r->setJointValues(n, v);
    t.check(t.G, b1, c1, f1);
}
static RobotNodeSetPtr rns(Tree& t, bool root)
{
    std::vector<RobotNodePtr> n;
    n.push_back(t.c); n.push_back(t.f);
    return RobotNodeSet::createRobotNodeSet(t.r, "s", n, root ? t.a : RobotNodePtr(), t.f);
}
VC_HARNESS(tree_joints_by_node_set)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1");
    t.b->setJointValue(b1);
    RobotNodeSetPtr s = rns(t, true);
    std::vector<float> v;
    v.push_back(c1); v.push_back(f1);
    s->setJointValues(v);
    t.check(t.G, b1, c1, f1);
    std::vector<float> g = s->getJointValues();
    vc_ensure(g.size() == 2, "joint value count");
    eq(g[0], c1, "joint values of the set");
    eq(g[1], f1, "joint values of the set");
}
VC_HARNESS(tree_joints_by_node_set_eigen)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1");
    t.b->setJointValue(b1);
    RobotNodeSetPtr s = rns(t, false);
    VectorXf v(2);
    v(0) = c1; v(1) = f1;
    t.r->setJointValues(s, v);
    t.check(t.G, b1, c1, f1);
    VectorXf g = s->getJointValuesEigen();
    vc_ensure(g.rows() == 2, "joint value count");
    eq(g(0), c1, "joint values of the set");
    eq(g(1), f1, "joint values of the set");
}
VC_HARNESS(tree_joints_by_config)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1");
    RobotConfigPtr c(new RobotConfig(t.r, "c"));
    c->setConfig(t.b, b1);
    c->setConfig("f", f1);
    t.c->setJointValue(c1);
    t.r->setJointValues(c);
    t.check(t.G, b1, c1, f1);
    // the set contains c and f: only f is taken from the configuration
    RobotConfigPtr d(new RobotConfig(t.r, "d"));
    float b2 = qr("b2"), f2 = qr("f2");
    d->setConfig("b", b2);
    d->setConfig(t.f, f2);
    t.r->setJointValues(rns(t, true), d);
    t.check(t.G, b1, c1, f2);
}
VC_HARNESS(robot_config_roundtrip)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1");
    t.b->setJointValue(b1); t.c->setJointValue(c1); t.f->setJointValue(f1);
    RobotConfigPtr k = t.r->getConfig();
    t.b->setJointValue(0); t.c->setJointValue(1); t.f->setJointValue(2);
    t.check(t.G, 0, 1, 2);
    vc_ensure(t.r->setConfig(k), "configuration applied");
    t.check(t.G, b1, c1, f1);
    eq(k->getConfig("b"), b1, "stored value");
    eq(k->getConfig("c"), c1, "stored value");
    eq(k->getConfig("f"), f1, "stored value");
    vc_ensure(!k->hasConfig("a") && !k->hasConfig("e"), "fixed nodes are not part of the configuration");
}
VC_HARNESS(tree_move_robot)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1");
    t.b->setJointValue(b1); t.c->setJointValue(c1); t.f->setJointValue(f1);
    Matrix4f H = vc::pose("H");
    t.r->setGlobalPose(H);
    t.check(H, b1, c1, f1);
}
// assumed contract of the singular value decomposition: the closest rotation to a rotation is that rotation
VC_STUB("math::Helpers::OrthogonalizeSVD(Eigen::Matrix<float, 3, 3, 0, 3, 3> const&)")
Eigen::Matrix3f stub_orthogonalize(const Eigen::Matrix3f& m)
{
    for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++)
        vc_ensure_eq(m(0,i)*m(0,j) + m(1,i)*m(1,j) + m(2,i)*m(2,j), i == j ? 1 : 0, "OrthogonalizeSVD is given a rotation (precondition of its assumed contract)");
    return m;
}
VC_HARNESS(move_robot_by_node)
{
    Tree t;
    float c1 = qp("c1"), f1 = qr("f1");
    t.c->setJointValue(c1); t.f->setJointValue(f1);
    Matrix4f P = vc::pose("P");
    t.r->setGlobalPoseForRobotNode(t.f, P);
    vc::eqm(t.f->getGlobalPose(), P, 4, 4, "node reaches the requested pose");
    eq(t.c->getJointValue(), c1, "joint value unchanged");
    eq(t.f->getJointValue(), f1, "joint value unchanged");
    vc::eqm(t.c->getGlobalPose(), mul(mul(t.r->getGlobalPose(), t.C), vcr::prismatic(t.cx, c1)), 4, 4, "robot moved as a whole");
}
VC_HARNESS(move_robot_by_node_upright)
{
    Tree t;
    Matrix4f P = vc::poseOf(Matrix3f::Identity(), vc::vec3("P"));
    t.r->setGlobalPoseForRobotNode(t.e, P);
    vc::eqm(t.e->getGlobalPose(), P, 4, 4, "node reaches the requested pose");
}
VC_HARNESS(move_robot_by_node_position)
{
    Tree t;
    float c1 = qp("c1");
    t.c->setJointValue(c1);
    Vector3f p = vc::vec3("p");
    Matrix4f before = t.f->getGlobalPose();
    t.r->setGlobalPositionForRobotNode(t.f, p);
    Matrix4f after = t.f->getGlobalPose();
    for (int i = 0; i < 3; i++) eq(after(i, 3), p(i), "node reaches the requested position");
    vc::eqm(after, before, 3, 3, "node keeps its orientation");
}
VC_HARNESS(set_local_transformation)
{
    Tree t;
    float b1 = qr("b1");
    Matrix4f N = vc::pose("N");
    t.B = N;
    t.b->setLocalTransformation(N);
    t.b->setJointValue(b1);
    t.check(t.G, b1, 0, 0);
}
VC_HARNESS(attached_object_follows)
{
    RobotPtr r = robot();
    Vector3f ax(0, 0, 1);
    float q1 = vc_nondet_range("q1", -3, 3), q2 = vc_nondet_range("q2", -3, 3);
    Matrix4f G = vc::pose("G");
    RobotNodePtr a = rev(r, "a", I4(), ax);
    r->setRootNode(a);
    r->setGlobalPose(G);
    SceneObjectPtr o(new SceneObject("o"));
    vc_ensure(a->attachChild(o), "attached");
    a->setJointValue(q1);
    vc::eqm(o->getGlobalPose(), mul(G, vcr::revolute(ax, q1)), 4, 4, "attached object follows");
    a->detachChild(o);
    a->setJointValue(q2);
    vc::eqm(o->getGlobalPose(), mul(G, vcr::revolute(ax, q1)), 4, 4, "detached object stays");
    vc::eqm(a->getGlobalPose(), mul(G, vcr::revolute(ax, q2)), 4, 4, "node moves on");
    vc_ensure(!o->hasParent() && !a->hasChild(o), "detached");
}
VC_HARNESS(propagated_joint)
{
    Tree t;
    float b1 = qr("b1"), k = vc_nondet_range("k", -1, 1);
    vc_assume(k != 0);
    t.b->propagateJointValue("f", k);
    t.b->setJointValue(b1);
    t.check(t.G, b1, 0, b1 * k);
}
VC_HARNESS(axis_getters)
{
    RobotPtr r = robot();
    Matrix4f A = vc::pose("A");
    Vector3f ax = unit("axis"), dir = unit("dir");
    boost::shared_ptr<RobotNodeRevolute> b(new RobotNodeRevolute(r, "b", -3, 3, I4(), ax));
    boost::shared_ptr<RobotNodePrismatic> c(new RobotNodePrismatic(r, "c", -3, 3, I4(), dir));
    r->registerRobotNode(b); r->registerRobotNode(c);
    b->attachChild(c);
    r->setRootNode(b);
    r->setGlobalPose(A);
    Vector3f g = b->getJointRotationAxis();
    for (int i = 0; i < 3; i++) eq(g(i), A(i,0)*ax(0) + A(i,1)*ax(1) + A(i,2)*ax(2), "rotation axis in the global frame");
    Vector3f l = b->getJointRotationAxisInJointCoordSystem();
    for (int i = 0; i < 3; i++) eq(l(i), ax(i), "rotation axis in the joint frame");
    g = c->getJointTranslationDirection();
    for (int i = 0; i < 3; i++) eq(g(i), A(i,0)*dir(0) + A(i,1)*dir(1) + A(i,2)*dir(2), "translation direction in the global frame");
    l = c->getJointTranslationDirectionJointCoordSystem();
    for (int i = 0; i < 3; i++) eq(l(i), dir(i), "translation direction in the joint frame");
    vc_ensure(b->isRotationalJoint() && !b->isTranslationalJoint() && c->isTranslationalJoint() && !c->isRotationalJoint(), "joint kinds");
}

VC_HARNESS(sensor_follows)
{
    RobotPtr r = robot();
    Vector3f ax(0, 0, 1);
    float q1 = vc_nondet_range("q1", -3, 3);
    Matrix4f G = vc::pose("G"), S = vc::pose("S");
    RobotNodePtr a = rev(r, "a", I4(), ax);
    SensorPtr s(new PositionSensor(a, "s", VisualizationNodePtr(), S));
    vc_ensure(a->registerSensor(s), "sensor registered");
    r->setRootNode(a);
    r->setGlobalPose(G);
    vc::eqm(s->getGlobalPose(), mul(G, S), 4, 4, "sensor pose");
    a->setJointValue(q1);
    vc::eqm(s->getGlobalPose(), mul(mul(G, vcr::revolute(ax, q1)), S), 4, 4, "sensor follows its node");
    vc::eqm(s->getRobotNodeToSensorTransformation(), S, 4, 4, "mounting pose");
    vc_ensure(a->hasSensor("s") && !a->hasSensor("t") && r->getSensor("s") == s, "sensor found by name");
}
// without the intermediate update nothing moves; applyJointValues brings every node to its pose
VC_HARNESS(update_disabled_visualization)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1");
    t.r->setUpdateVisualization(false);
    t.r->setUpdateCollisionModel(false);
    t.b->setJointValue(b1); t.c->setJointValue(c1);
    t.r->setJointValue("f", f1);
    t.check(t.G, b1, c1, f1);
}
VC_HARNESS(node_set_config)
{
    Tree t;
    float b1 = qr("b1"), c1 = qp("c1"), f1 = qr("f1"), f2 = qr("f2"), c2 = qp("c2");
    RobotNodeSetPtr s = rns(t, true);
    t.r->setJointValue(t.b, b1); t.r->setJointValue(t.c, c1); t.r->setJointValue("f", f1);
    RobotConfigPtr k(new RobotConfig(t.r, "k"));
    s->getJointValues(k);
    eq(k->getConfig("f"), f1, "value taken from the robot");
    std::map<std::string, float> m = s->getJointValueMap();
    vc_ensure(m.size() == s->getSize(), "one value per node");
    eq(m["f"], f1, "value taken from the robot");
    t.f->setJointValue(f2);
    t.c->setJointValue(c2);
    s->setJointValues(k);
    t.check(t.G, b1, c1, f1);
}
