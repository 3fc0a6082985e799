// VC-PROPERTY: C16
// VC-TU: %robot VirtualRobot/Nodes/Sensor.cpp VirtualRobot/Nodes/PositionSensor.cpp VirtualRobot/Nodes/ForceTorqueSensor.cpp VirtualRobot/EndEffector/EndEffector.cpp VirtualRobot/EndEffector/EndEffectorActor.cpp
// VC-ASSUME: math::Helpers::OrthogonalizeSVD (Eigen::JacobiSVD) returns its argument when that is a rotation; the callers are proved to pass a rotation
// Copies of robots: same state, nothing shared
#include "robot.h"
#include <VirtualRobot/Nodes/ForceTorqueSensor.h>
using namespace vcr;
using vc::eq; using vc::mul;

static Matrix4f tr(const Vector3f& v) { return vc::poseOf(Matrix3f::Identity(), v); }
static Matrix4f scaled(const Matrix4f& m, float s) { Matrix4f r = m; for (int i = 0; i < 3; i++) r(i, 3) = m(i, 3) * s; return r; }
static SceneObject::Physics physics(const Vector3f& com, float mass, const Matrix3f& in)
{
    SceneObject::Physics p;
    p.comLocation = SceneObject::Physics::eCustom;
    p.localCoM = com;
    p.massKg = mass;
    p.inertiaMatrix = in;
    return p;
}
// root a with a revolute b (e fixed below), and a prismatic c (revolute f below)
struct Tree
{
    RobotPtr r;
    RobotNodePtr a, b, c, e, f;
    Matrix4f G, A, B, C, E, F;
    Vector3f bx, cx, fx, com;
    float bo, co, qb, qc, qf, mass;
    Tree()
    {
        r = robot();
        G = vc::pose("G"); A = tr(vc::vec3("A")); B = tr(vc::vec3("B")); C = tr(vc::vec3("C")); E = vc::pose("E"); F = tr(vc::vec3("F"));
        bx = Vector3f(0, 0, 1); cx = Vector3f(0, 1, 0); fx = Vector3f(1, 0, 0);
        bo = vc_nondet_float("bo"); co = vc_nondet_float("co");
        com = vc::vec3("com"); mass = vc_nondet_range("mass", 0.1f, 100);
        Matrix3f in = Matrix3f::Identity();
        a = fixed(r, "a", A);
        b.reset(new RobotNodeRevolute(r, "b", -2, 3, B, bx, VisualizationNodePtr(), CollisionModelPtr(), bo, physics(com, mass, in)));
        r->registerRobotNode(b);
        c = pris(r, "c", C, cx, -500, 1000, co);
        e = fixed(r, "e", E); f = rev(r, "f", F, fx);
        a->attachChild(b); a->attachChild(c); b->attachChild(e); c->attachChild(f);
        r->setRootNode(a);
        r->setGlobalPose(G);
    }
    void move()
    {
        qb = vc_nondet_range("qb", -2, 3); qc = vc_nondet_range("qc", -500, 1000); qf = vc_nondet_range("qf", -3, 3);
        b->setJointValue(qb); c->setJointValue(qc); f->setJointValue(qf);
    }
};
// the poses of a robot with this structure
static void poses(RobotPtr x, Tree& t, const Matrix4f& G, float qb, float qc, float qf, float s = 1)
{
    Matrix4f pa = mul(G, scaled(t.A, s));
    Matrix4f pb = mul(mul(pa, scaled(t.B, s)), vcr::revolute(t.bx, qb + t.bo)), pc = mul(mul(pa, scaled(t.C, s)), vcr::prismatic(t.cx, (qc + t.co) * s));
    vc::eqm(x->getGlobalPose(), G, 4, 4, "robot pose");
    vc::eqm(x->getRobotNode("a")->getGlobalPose(), pa, 4, 4, "root pose");
    vc::eqm(x->getRobotNode("b")->getGlobalPose(), pb, 4, 4, "pose of the revolute joint");
    vc::eqm(x->getRobotNode("c")->getGlobalPose(), pc, 4, 4, "pose of the prismatic joint");
    vc::eqm(x->getRobotNode("e")->getGlobalPose(), mul(pb, scaled(t.E, s)), 4, 4, "pose of the fixed node");
    vc::eqm(x->getRobotNode("f")->getGlobalPose(), mul(mul(pc, scaled(t.F, s)), vcr::revolute(t.fx, qf)), 4, 4, "pose of the second revolute joint");
}
static void joints(RobotPtr x, float qb, float qc, float qf)
{
    eq(x->getRobotNode("b")->getJointValue(), qb, "revolute joint value");
    eq(x->getRobotNode("c")->getJointValue(), qc, "prismatic joint value");
    eq(x->getRobotNode("f")->getJointValue(), qf, "second revolute joint value");
}
VC_HARNESS(clone_state)
{
    Tree t;
    t.move();
    RobotPtr x = t.r->clone("copy");
    vc_ensure(x->getName() == "copy", "name of the copy");
    vc_ensure(x->getType() == t.r->getType(), "type of the copy");
    vc_ensure(x->getRobotNodes().size() == 5, "number of nodes of the copy");
    poses(x, t, t.G, t.qb, t.qc, t.qf);
    joints(x, t.qb, t.qc, t.qf);
    vc_ensure(x->getRootNode() == x->getRobotNode("a"), "root of the copy");
    vc_ensure(x->getRootNode() != t.a, "the nodes of the copy are new ones");
    vc_ensure(x->getRobotNode("e")->getRobot() == x, "the nodes of the copy belong to the copy");
    vc_cover("end");
}
VC_HARNESS(copy_is_independent)
{
    Tree t;
    t.move();
    float qb = t.qb, qc = t.qc, qf = t.qf;
    RobotPtr x = t.r->clone("copy");
    float nb = vc_nondet_range("nb", -2, 3), nf = vc_nondet_range("nf", -3, 3), nc = vc_nondet_range("nc", -500, 1000);
    Matrix4f H = vc::pose("H");
    x->getRobotNode("b")->setJointValue(nb);
    x->setGlobalPose(H);
    poses(t.r, t, t.G, qb, qc, qf);
    joints(t.r, qb, qc, qf);
    poses(x, t, H, nb, qc, qf);
    // and the other way round
    t.f->setJointValue(nf);
    t.r->setJointValue(t.c, nc);
    poses(x, t, H, nb, qc, qf);
    joints(x, nb, qc, qf);
    poses(t.r, t, t.G, qb, nc, nf);
    vc_cover("end");
}
VC_HARNESS(copy_of_a_copy)
{
    Tree t;
    t.move();
    RobotPtr x = t.r->clone("copy"), y = x->clone();
    vc_ensure(y->getName() == "copy", "an unnamed copy keeps the name");
    poses(y, t, t.G, t.qb, t.qc, t.qf);
    joints(y, t.qb, t.qc, t.qf);
}
VC_HARNESS(clone_node_attributes)
{
    Tree t;
    float vel = vc_nondet_float("vel"), acc = vc_nondet_float("acc"), tor = vc_nondet_float("tor");
    int lim = vc_case("limitless", 0, 1), enf = vc_case("enforced", 0, 1);
    t.b->setMaxVelocity(vel); t.b->setMaxAcceleration(acc); t.b->setMaxTorque(tor);
    t.b->setLimitless(lim == 1);
    t.b->setEnforceJointLimits(enf == 1);
    RobotPtr x = t.r->clone("copy");
    RobotNodePtr n = x->getRobotNode("b");
    eq(n->getMaxVelocity(), vel, "maximum velocity"); eq(n->getMaxAcceleration(), acc, "maximum acceleration"); eq(n->getMaxTorque(), tor, "maximum torque");
    vc_ensure(n->isLimitless() == (lim == 1), "limitless flag");
    eq(n->getJointLimitLo(), -2, "lower limit"); eq(n->getJointLimitHi(), 3, "upper limit");
    eq(n->getJointValueOffset(), t.bo, "joint value offset");
    eq(n->getMass(), t.mass, "mass"); eq(n->getCoMLocal(), t.com, "centre of mass");
    vc_ensure(n->isRotationalJoint() && !n->isTranslationalJoint(), "kind of joint");
    RobotNodePtr m = x->getRobotNode("c");
    vc_ensure(m->isTranslationalJoint() && !m->isRotationalJoint(), "kind of the other joint");
    eq(m->getJointLimitLo(), -500, "lower limit of the other joint"); eq(m->getJointLimitHi(), 1000, "upper limit of the other joint");
    // what the copy does with a value outside its limits is what the original does
    float w = vc_nondet_range("w", -9, 9);
    n->setJointValue(w); t.b->setJointValue(w);
    eq(n->getJointValue(), t.b->getJointValue(), "joint values outside the limits are treated alike");
}
VC_HARNESS(clone_structure)
{
    Tree t;
    RobotPtr x = t.r->clone("copy");
    vc_ensure(x->getRobotNode("a")->getChildren().size() == 2, "children of the root");
    vc_ensure(x->getRobotNode("b")->getParent() == x->getRobotNode("a"), "parent of the revolute joint");
    vc_ensure(x->getRobotNode("c")->getParent() == x->getRobotNode("a"), "parent of the prismatic joint");
    vc_ensure(x->getRobotNode("e")->getParent() == x->getRobotNode("b"), "parent of the fixed node");
    vc_ensure(x->getRobotNode("f")->getParent() == x->getRobotNode("c"), "parent of the second revolute joint");
    vc_ensure(t.b->getParent() == t.a && t.a->getChildren().size() == 2, "the original is unchanged");
}
VC_HARNESS(clone_scaled)
{
    Tree t;
    float s = vc_nondet_range("s", 0.01f, 100), qb = vc_nondet_range("qb", -2, 3);
    t.co = 0;
    t.b->setJointValue(qb);
    RobotPtr x = t.r->clone("copy", CollisionCheckerPtr(), s);
    eq(x->getScaling(), s, "scaling of the copy");
    Matrix4f pa = mul(t.G, scaled(t.A, s)), pb = mul(mul(pa, scaled(t.B, s)), vcr::revolute(t.bx, qb + t.bo));
    vc::eqm(x->getRobotNode("b")->getGlobalPose(), pb, 4, 4, "pose of the scaled revolute joint");
    vc::eqm(x->getRobotNode("e")->getGlobalPose(), mul(pb, scaled(t.E, s)), 4, 4, "pose of the scaled fixed node");
    Vector3f c = x->getRobotNode("b")->getCoMLocal();
    for (int i = 0; i < 3; i++) eq(c(i), t.com(i) * s, "scaled centre of mass");
    eq(x->getRobotNode("b")->getMass(), t.mass, "mass of the scaled node");
}
VC_HARNESS(clone_propagation)
{
    Tree t;
    float k = vc_nondet_range("k", -1, 1), q = vc_nondet_range("q", -2, 2);
    t.b->propagateJointValue("f", k);
    RobotPtr x = t.r->clone("copy");
    float qf = t.f->getJointValue();
    x->getRobotNode("b")->setJointValue(q);
    eq(x->getRobotNode("f")->getJointValue(), k * q, "the copy propagates joint values like the original");
    eq(t.f->getJointValue(), qf, "to its own joints only");
}
VC_HARNESS(clone_node_sets)
{
    Tree t;
    t.move();
    std::vector<RobotNodePtr> n;
    n.push_back(t.b); n.push_back(t.f);
    RobotNodeSet::createRobotNodeSet(t.r, "s", n, t.a, t.e, true);
    RobotPtr x = t.r->clone("copy");
    vc_ensure(x->hasRobotNodeSet("s"), "the node set is copied");
    RobotNodeSetPtr y = x->getRobotNodeSet("s");
    vc_ensure(y->getSize() == 2 && y->getNode(0) == x->getRobotNode("b") && y->getNode(1) == x->getRobotNode("f"), "nodes of the copied set in order");
    vc_ensure(y->getTCP() == x->getRobotNode("e"), "tool centre point of the copied set");
    vc_ensure(y->getKinematicRoot() == x->getRobotNode("a"), "kinematic root of the copied set");
    std::vector<float> v = y->getJointValues();
    eq(v[0], t.qb, "first joint value of the copied set"); eq(v[1], t.qf, "second joint value of the copied set");
}
VC_HARNESS(clone_sensors_and_objects)
{
    Tree t;
    t.move();
    Matrix4f S = vc::pose("S"), P = vc::pose("P");
    RobotNodePtr b = t.b;
    PositionSensorPtr s(new PositionSensor(b, "s", VisualizationNodePtr(), S));
    b->registerSensor(s);
    s->initialize(b);
    SceneObjectPtr o(new SceneObject("o"));
    o->setGlobalPose(P);
    t.e->attachChild(o);
    RobotPtr x = t.r->clone("copy");
    vc_ensure(x->getRobotNode("b")->hasSensor("s"), "the sensor is copied");
    SensorPtr z = x->getSensor("s");
    vc_ensure(z && z != s, "the sensor of the copy is a new one");
    vc::eqm(z->getGlobalPose(), s->getGlobalPose(), 4, 4, "pose of the copied sensor");
    vc::eqm(z->getGlobalPose(), mul(b->getGlobalPose(), S), 4, 4, "pose of the sensor on its node");
    std::vector<SceneObjectPtr> ch = x->getRobotNode("e")->getChildren();
    vc_ensure(ch.size() == 1, "the attached object is copied");
    vc_ensure(ch[0] != o && ch[0]->getName() == "o", "the attached object of the copy is a new one");
    // an attached object moves with its node
    vc::eqm(ch[0]->getGlobalPose(), x->getRobotNode("e")->getGlobalPose(), 4, 4, "pose of the copied attached object");
    Matrix4f H = vc::pose("H"), old = x->getRobotNode("e")->getGlobalPose();
    t.r->setGlobalPose(H);
    vc::eqm(ch[0]->getGlobalPose(), old, 4, 4, "the copied object stays with the copy");
    vc::eqm(o->getGlobalPose(), t.e->getGlobalPose(), 4, 4, "the original object stays with the original");
}
// the sub tree that starts at a joint, as a robot of its own
VC_HARNESS(sub_part)
{
    Tree t;
    t.move();
    RobotPtr x = t.r->extractSubPart(t.c, "type", "part");
    vc_ensure(x->getName() == "part" && x->getType() == "type", "name and type of the part");
    vc_ensure(x->getRobotNodes().size() == 2, "only the nodes of the sub tree");
    vc_ensure(x->getRootNode() == x->getRobotNode("c"), "root of the part");
    eq(x->getRobotNode("c")->getJointValue(), t.qc, "first joint value of the part"); eq(x->getRobotNode("f")->getJointValue(), t.qf, "second joint value of the part");
    Matrix4f pc = mul(t.C, vcr::prismatic(t.cx, t.qc + t.co));
    vc::eqm(x->getRobotNode("c")->getGlobalPose(), pc, 4, 4, "pose of the root of the part");
    vc::eqm(x->getRobotNode("f")->getGlobalPose(), mul(mul(pc, t.F), vcr::revolute(t.fx, t.qf)), 4, 4, "pose of the end of the part");
    vc_ensure(t.r->getRobotNodes().size() == 5 && t.c->getParent() == t.a, "the original keeps its nodes");
    // a node of another robot is refused
    RobotPtr r2 = robot();
    RobotNodePtr o = fixed(r2, "a", I4());
    r2->setRootNode(o);
    bool thrown = false;
    try { t.r->extractSubPart(o, "type", "part"); } catch (VirtualRobotException&) { thrown = true; }
    vc_ensure(thrown, "a node of another robot is refused");
}
// only the node sets inside the sub tree come along
VC_HARNESS(sub_part_node_sets)
{
    Tree t;
    std::vector<RobotNodePtr> in, out;
    in.push_back(t.c); in.push_back(t.f);
    out.push_back(t.b); out.push_back(t.f);
    RobotNodeSet::createRobotNodeSet(t.r, "in", in, t.c, t.f, true);
    RobotNodeSet::createRobotNodeSet(t.r, "out", out, t.c, t.f, true);
    RobotPtr x = t.r->extractSubPart(t.c, "type", "part", true);
    vc_ensure(x->hasRobotNodeSet("in"), "a node set inside the part is copied");
    vc_ensure(!x->hasRobotNodeSet("out"), "a node set that leaves the part is not copied");
    RobotPtr y = t.r->extractSubPart(t.c, "type", "part", false);
    vc_ensure(!y->hasRobotNodeSet("in"), "node sets are copied on request only");
}
