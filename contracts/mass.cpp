// VC-PROPERTY: C09
// VC-TU: %robot VirtualRobot/Visualization/VisualizationNode.cpp VirtualRobot/Visualization/TriMeshModel.cpp VirtualRobot/Visualization/Visualization.cpp VirtualRobot/BoundingBox.cpp
// Masses, centres of mass and inertia tensors
#include "robot.h"
#include <VirtualRobot/Visualization/TriMeshModel.h>
using namespace vcr;
using vc::eq; using vc::mul; using vc::rinv; using vc::app;

static SceneObject::Physics physics(const Vector3f& com, float mass, const Matrix3f& in)
{
    SceneObject::Physics p;
    p.comLocation = SceneObject::Physics::eCustom;
    p.localCoM = com;
    p.massKg = mass;
    p.inertiaMatrix = in;
    return p;
}
static Matrix3f mat3(const char* n)
{
    Matrix3f m;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = vc_nondet_float(n);
    return m;
}
static Matrix3f E3() { Matrix3f m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = i == j ? 1.0f : 0.0f; return m; }
static float mass(const char* n) { return vc_nondet_range(n, 0.001f, 1000); }
static RobotNodePtr fixedM(RobotPtr r, const char* n, const Matrix4f& t, const Vector3f& c, float m)
{
    RobotNodePtr p(new RobotNodeFixed(r, n, t, VisualizationNodePtr(), CollisionModelPtr(), physics(c, m, E3())));
    r->registerRobotNode(p);
    return p;
}
static RobotNodePtr revM(RobotPtr r, const char* n, const Matrix4f& t, const Vector3f& a, const Vector3f& c, float m)
{
    RobotNodePtr p(new RobotNodeRevolute(r, n, -3, 3, t, a, VisualizationNodePtr(), CollisionModelPtr(), 0, physics(c, m, E3())));
    r->registerRobotNode(p);
    return p;
}
// robot in an arbitrary pose with three massive nodes and one without mass
struct M
{
    RobotPtr r;
    RobotNodePtr a, b, c, d;
    Matrix4f G, B, C, D;
    Vector3f ca, cb, cc;
    float ma, mb, mc, q;
    M(bool move = true)
    {
        r = robot();
        G = vc::pose("G");
        B = vc::poseOf(Matrix3f::Identity(), vc::vec3("B")); C = vc::poseOf(Matrix3f::Identity(), vc::vec3("C")); D = I4();
        ca = vc::vec3("ca"); cb = vc::vec3("cb"); cc = vc::vec3("cc");
        ma = mass("ma"); mb = mass("mb"); mc = mass("mc");
        a = fixedM(r, "a", I4(), ca, ma); b = revM(r, "b", B, Vector3f(0, 0, 1), cb, mb); c = revM(r, "c", C, Vector3f(1, 0, 0), cc, mc);
        d = fixed(r, "d", D);
        a->attachChild(b); b->attachChild(c); c->attachChild(d);
        r->setRootNode(a);
        r->setGlobalPose(G);
        q = vc_nondet_range("q", -3, 3);
        if (move) b->setJointValue(q); else q = 0;
    }
    Matrix4f wb() { return mul(mul(G, B), vcr::revolute(Vector3f(0, 0, 1), q)); }
    Matrix4f wc() { return mul(wb(), C); }
    Vector3f wmean()
    {
        Vector3f x = app(G, ca), y = app(wb(), cb), z = app(wc(), cc), s;
        for (int i = 0; i < 3; i++) s(i) = x(i)*ma + y(i)*mb + z(i)*mc;
        return s;
    }
};
static void eqScaled(const Vector3f& com, float m, const Vector3f& s, const char* l) { for (int i = 0; i < 3; i++) vc_ensure_eq(com(i) * m, s(i), l); }
VC_HARNESS(node_com)
{
    M m;
    eq(m.b->getCoMLocal(), m.cb, "local centre of mass of a node");
    eq(m.b->getMass(), m.mb, "mass of a node");
    eq(m.a->getCoMGlobal(), app(m.G, m.ca), "global centre of mass of the root node");
    eq(m.b->getCoMGlobal(), app(m.wb(), m.cb), "global centre of mass of a joint");
    eq(m.c->getCoMGlobal(), app(m.wc(), m.cc), "global centre of mass of the next joint");
    eq(m.d->getMass(), 0, "mass of a node without physics");
}
VC_HARNESS(robot_com)
{
    M m;
    eq(m.r->getMass(), m.ma + m.mb + m.mc, "mass of the robot");
    eqScaled(m.r->getCoMGlobal(), m.ma + m.mb + m.mc, m.wmean(), "centre of mass of the robot");
}
VC_HARNESS(robot_com_local)
{
    M m;
    eqScaled(app(m.G, m.r->getCoMLocal()), m.ma + m.mb + m.mc, m.wmean(), "centre of mass of the robot in its own frame");
}
static void nodeset(int which)
{
    M m;
    std::vector<RobotNodePtr> n;
    if (which & 1) n.push_back(m.a);
    if (which & 2) n.push_back(m.b);
    if (which & 4) n.push_back(m.c);
    if (which & 8) n.push_back(m.d);
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(m.r, "s", n, m.a, m.c);
    float ma = which & 1 ? m.ma : 0, mb = which & 2 ? m.mb : 0, mc = which & 4 ? m.mc : 0;
    eq(s->getMass(), ma + mb + mc, "mass of the node set");
    m.ma = ma; m.mb = mb; m.mc = mc;
    eqScaled(s->getCoM(), ma + mb + mc, m.wmean(), "centre of mass of the node set");
}
VC_HARNESS(nodeset_com_bc) { nodeset(2 + 4); }
VC_HARNESS(nodeset_com_abcd) { nodeset(15); }
VC_HARNESS(nodeset_com_ad) { nodeset(1 + 8); }
VC_HARNESS(nodeset_com_c) { nodeset(4); }
VC_HARNESS(massless)
{
    RobotPtr r = robot();
    RobotNodePtr a = fixed(r, "a", vc::pose("A"));
    r->setRootNode(a);
    r->setGlobalPose(vc::pose("G"));
    std::vector<RobotNodePtr> n;
    n.push_back(a);
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(r, "s", n);
    eq(r->getMass(), 0, "mass of a massless robot");
    eq(s->getMass(), 0, "mass of a massless node set");
    eq(r->getCoMGlobal(), Vector3f(0, 0, 0), "centre of mass of a massless robot");
    eq(s->getCoM(), Vector3f(0, 0, 0), "centre of mass of a massless node set");
}
// the setters replace the values
VC_HARNESS(setters)
{
    M m(false);
    float m2 = mass("m2");
    Vector3f c2 = vc::vec3("c2");
    Matrix3f in = mat3("I");
    m.b->setMass(m2);
    m.b->setCoMLocal(c2);
    m.b->setInertiaMatrix(in);
    eq(m.b->getMass(), m2, "mass set");
    eq(m.b->getCoMLocal(), c2, "centre of mass set");
    eq(m.b->getInertiaMatrix(), in, "inertia tensor set");
    m.mb = m2; m.cb = c2;
    eqScaled(m.r->getCoMGlobal(), m.ma + m2 + m.mc, m.wmean(), "centre of mass of the robot with changed values");
}
// an object attached to a node moves rigidly with it
VC_HARNESS(attached_object)
{
    M m;
    Vector3f c = vc::vec3("c");
    Matrix4f P = vc::pose("P");
    SceneObjectPtr o(new SceneObject("o", VisualizationNodePtr(), CollisionModelPtr(), physics(c, mass("m"), E3())));
    o->setGlobalPose(P);
    eq(o->getCoMGlobal(), app(P, c), "centre of mass of an object");
}
// parallel axis theorem: tensor about a point shifted from the centre of mass
static Matrix3f steiner(const Matrix3f& in, float m, const Vector3f& s)
{
    Matrix3f r;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(i, j) = in(i, j) + m * ((i == j ? vc::dot(s, s) : 0) - s(i)*s(j));
    return r;
}
static Matrix3f conj(const Matrix3f& R, const Matrix3f& in) { Matrix3f t = R.transpose(); return vc::mul3(vc::mul3(R, in), t); }
VC_HARNESS(inertia)
{
    Matrix3f in = mat3("I");
    float m = vc_nondet_float("m");
    Vector3f s = vc::vec3("s");
    Matrix3f R = vc::rot("R");
    in(0,0) = vc_nondet_range("I00", 0.001f, 1000);
    SceneObjectPtr o(new SceneObject("o", VisualizationNodePtr(), CollisionModelPtr(), physics(vc::vec3("c"), m, in)));
    eq(o->getInertiaMatrix(), in, "inertia tensor about the centre of mass");
    eq(o->getInertiaMatrix(s), steiner(in, m, s), "inertia tensor about a shifted point");
    eq(o->getInertiaMatrix(s, R), conj(R, steiner(in, m, s)), "inertia tensor about a shifted point in a rotated frame");
    eq(o->getInertiaMatrix(vc::poseOf(R, s)), conj(R, steiner(in, m, s)), "inertia tensor in the frame of a pose");
}
VC_HARNESS(default_inertia)
{
    float m = mass("m");
    Matrix3f z = Matrix3f::Zero();
    SceneObjectPtr o(new SceneObject("o", VisualizationNodePtr(), CollisionModelPtr(), physics(vc::vec3("c"), m, z)));
    o->initialize();
    Matrix3f e = E3();
    for (int i = 0; i < 3; i++) e(i, i) = 0.01f * m;
    eq(o->getInertiaMatrix(), e, "default inertia tensor of an object without model");
    SceneObjectPtr p(new SceneObject("p", VisualizationNodePtr(), CollisionModelPtr(), physics(vc::vec3("c"), 0, z)));
    p->initialize();
    eq(p->getInertiaMatrix(), E3(), "default inertia tensor of a massless object");
}
VC_HARNESS(physics_scale)
{
    Vector3f c = vc::vec3("c");
    Matrix3f in = mat3("I");
    float m = mass("m"), s = vc_nondet_range("s", 0.001f, 1000);
    SceneObject::Physics p = physics(c, m, in).scale(s);
    eq(p.localCoM, Vector3f(c(0)*s, c(1)*s, c(2)*s), "scaled centre of mass");
    eq(p.massKg, m, "the mass does not scale");
    bool thrown = false;
    try { physics(c, m, in).scale(-s); } catch (VirtualRobotException&) { thrown = true; }
    vc_ensure(thrown, "a negative scaling is refused");
}
// a model given by a triangle mesh
struct Mesh : VisualizationNode
{
    TriMeshModelPtr t;
    TriMeshModelPtr getTriMeshModel() override { return t; }
};
struct Box
{
    Vector3f lo, hi;
    boost::shared_ptr<Mesh> v;
    Box()
    {
        lo = vc::vec3("lo"); hi = vc::vec3("hi");
        vc_assume(lo(0) < hi(0)); vc_assume(lo(1) < hi(1)); vc_assume(lo(2) < hi(2));
        v.reset(new Mesh());
        v->t.reset(new TriMeshModel());
        // the vertices in no particular order
        v->t->addVertex(Vector3f(hi(0), lo(1), lo(2)));
        v->t->addVertex(Vector3f(lo(0), hi(1), hi(2)));
        v->t->addVertex(Vector3f(lo(0), lo(1), hi(2)));
        v->t->addVertex(Vector3f(hi(0), hi(1), lo(2)));
    }
};
VC_HARNESS(bbox_com_inertia)
{
    Box b;
    float m = mass("m");
    SceneObject::Physics p = physics(Vector3f(0, 0, 0), m, Matrix3f::Zero());
    p.comLocation = SceneObject::Physics::eVisuBBoxCenter;
    SceneObjectPtr o(new SceneObject("o", b.v, CollisionModelPtr(), p));
    o->initialize();
    Vector3f l;
    for (int i = 0; i < 3; i++) { l(i) = (b.hi(i) - b.lo(i)) * 0.001f; vc_ensure_eq(o->getCoMLocal()(i) * 2, b.hi(i) + b.lo(i), "centre of mass in the middle of the bounding box"); }
    Matrix3f in = Matrix3f::Zero();
    in(0,0) = m / 12 * (l(1)*l(1) + l(2)*l(2)); in(1,1) = m / 12 * (l(0)*l(0) + l(2)*l(2)); in(2,2) = m / 12 * (l(0)*l(0) + l(1)*l(1));
    eq(o->getInertiaMatrix(), in, "inertia tensor of the bounding box");
}
// the same for a joint of a robot: the model moves with the joint, the box is measured in the frame of the joint
VC_HARNESS(bbox_com_of_node)
{
    Box b;
    float m = mass("m");
    SceneObject::Physics p = physics(Vector3f(0, 0, 0), m, Matrix3f::Zero());
    p.comLocation = SceneObject::Physics::eVisuBBoxCenter;
    RobotPtr r = robot();
    RobotNodePtr a = fixed(r, "a", I4());
    RobotNodePtr n(new RobotNodeRevolute(r, "n", -3, 3, vc::poseOf(Matrix3f::Identity(), vc::vec3("N")), Vector3f(0, 0, 1), b.v, CollisionModelPtr(), 0, p));
    r->registerRobotNode(n);
    a->attachChild(n);
    r->setRootNode(a);
    for (int i = 0; i < 3; i++) vc_ensure_eq(n->getCoMLocal()(i) * 2, b.hi(i) + b.lo(i), "centre of mass of a node in the middle of the bounding box");
    float q = vc_nondet_range("q", -3, 3);
    n->setJointValue(q);
    for (int i = 0; i < 3; i++) vc_ensure_eq(n->getCoMLocal()(i) * 2, b.hi(i) + b.lo(i), "the local centre of mass does not change when the joint moves");
}
