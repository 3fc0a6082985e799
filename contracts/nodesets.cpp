// VC-PROPERTY: C15
// VC-TU: %robot
// VC-OPT: merge=0
// VC-FLAGS: -fno-access-control
#include "robot.h"
#include <VirtualRobot/SceneObjectSet.h>
using namespace vcr;
using vc::eq;

// j0 - j1 - j2, j0 - k: root r in any pose, joints at any offset
struct Tree
{
    RobotPtr r;
    RobotNodePtr a, j0, j1, j2, k;
    Matrix4f T[4];
    float lo, hi;
    Tree(const char* name = "r")
    {
        r.reset(new LocalRobot(name));
        lo = -3; hi = 3;
        a = fixed(r, "a", I4());
        for (int i = 0; i < 4; i++) T[i] = vc::poseOf(Matrix3f::Identity(), vc::vec3("T"));
        j0 = pris(r, "j0", T[0], Vector3f(1, 0, 0), lo, hi);
        j1 = pris(r, "j1", T[1], Vector3f(0, 1, 0), lo, hi);
        j2 = pris(r, "j2", T[2], Vector3f(0, 0, 1), lo, hi);
        k = pris(r, "k", T[3], Vector3f(0, 1, 0), lo, hi);
        a->attachChild(j0); j0->attachChild(j1); j1->attachChild(j2); j0->attachChild(k);
        r->setRootNode(a);
        a->initialize();
    }
    RobotNodePtr node(int i) { return i == 0 ? j0 : i == 1 ? j1 : i == 2 ? j2 : k; }
    // all joints are at q and the poses fit
    void at(const float* q, const char* l)
    {
        Matrix4f p = r->getGlobalPose();
        for (int i = 0; i < 4; i++) eq(node(i)->getJointValue(), q[i], l);
        Vector3f x(T[0](0,3) + q[0], T[0](1,3), T[0](2,3)), y(x(0) + T[1](0,3), x(1) + T[1](1,3) + q[1], x(2) + T[1](2,3));
        Vector3f z(y(0) + T[2](0,3), y(1) + T[2](1,3), y(2) + T[2](2,3) + q[2]), w(x(0) + T[3](0,3), x(1) + T[3](1,3) + q[3], x(2) + T[3](2,3));
        Vector3f e[4] = {x, y, z, w};
        for (int i = 0; i < 4; i++)
        {
            Vector3f g = vc::app(p, e[i]);
            Matrix4f m = node(i)->getGlobalPose();
            for (int c = 0; c < 3; c++) eq(m(c, 3), g(c), "poses follow");
        }
    }
    void start(float* q) { for (int i = 0; i < 4; i++) { q[i] = vc_nondet_range("q", lo, hi); node(i)->setJointValue(q[i]); } }
};
static float cut(float v, float lo, float hi) { return v < lo ? lo : v > hi ? hi : v; }

VC_HARNESS(config_values)
{
    Tree t, o("other");
    std::vector<std::string> n;
    n.push_back("j1"); n.push_back("unknown"); n.push_back("k");
    std::vector<float> v;
    for (int i = 0; i < 3; i++) v.push_back(vc_nondet_range("v", -10, 10));
    RobotConfigPtr c(new RobotConfig(t.r, "c", n, v));
    vc_ensure(vc_and(c->getNodes().size() == 2, c->getName() == "c"), "configured nodes of the robot");
    vc_ensure(c->getRobot() == t.r, "robot");
    vc_ensure(vc_and(c->hasConfig("j1"), c->hasConfig("k")), "configured nodes");
    vc_ensure(vc_and(!c->hasConfig("unknown"), !c->hasConfig("j0")), "no other nodes");
    eq(c->getConfig("j1"), v[0], "value");
    eq(c->getConfig("k"), v[2], "value");
    eq(c->getConfig("j2"), 0, "zero for nodes not configured");
    float x = vc_nondet_range("x", -10, 10);
    int how = vc_case("how", 0, 4);
    bool r = false, thrown = false;
    RobotConfig::Configuration q;
    q.name = "j1"; q.value = x;
    if (how == 0) r = c->setConfig("j1", x);
    if (how == 1) r = c->setConfig(t.j1, x);
    if (how == 2) r = c->setConfig(q);
    if (how == 3) r = c->setConfig("unknown", x);
    if (how == 4) { try { c->setConfig(o.j1, x); } catch (...) { thrown = true; } }
    vc_ensure(r == (how < 3), "set");
    vc_ensure(thrown == (how == 4), "nodes of another robot are refused");
    eq(c->getConfig("j1"), how < 3 ? x : v[0], "value set");
    eq(c->getConfig("k"), v[2], "other values are kept");
    std::map<std::string, float> m = c->getRobotNodeJointValueMap();
    vc_ensure(m.size() == 2 && m.count("j1") && m.count("k"), "map of the configured nodes");
    eq(m["j1"], how < 3 ? x : v[0], "value in the map");
    eq(m["k"], v[2], "value in the map");
    n.pop_back();
    thrown = false;
    try { RobotConfig d(t.r, "d", n, v); } catch (...) { thrown = true; }
    vc_ensure(thrown, "as many values as nodes");
}
VC_HARNESS(config_apply)
{
    Tree t;
    float q[4], v[2];
    t.r->setGlobalPose(vc::pose("G"));
    t.start(q);
    for (int i = 0; i < 2; i++) v[i] = vc_nondet_range("v", -10, 10);
    std::vector<RobotNodePtr> n;
    std::vector<float> w(v, v + 2);
    int a = vc_case("first", 0, 3), b = vc_case("second", 0, 3);
    vc_assume(a != b);
    n.push_back(t.node(a)); n.push_back(t.node(b));
    RobotConfig c(t.r, "c", n, w);
    int how = vc_case("how", 0, 2);
    bool r = true;
    if (how == 0) r = c.setJointValues();
    else if (how == 1) r = c.setJointValues(t.r);
    else t.r->setJointValues(RobotConfigPtr(new RobotConfig(t.r, "c", n, w)));
    vc_ensure(r, "applied");
    q[a] = cut(v[0], t.lo, t.hi); q[b] = cut(v[1], t.lo, t.hi);
    t.at(q, "configured joints have their values within limits, others are kept");
}
VC_HARNESS(config_apply_other)
{
    // to another robot: all or nothing
    Tree t, o("other");
    float q[4], v = vc_nondet_range("v", -3, 3);
    o.start(q);
    int more = vc_case("more", 0, 3);
    RobotNodePtr extra = pris(t.r, more < 2 ? "extra" : more == 2 ? "j1x" : "z", I4(), Vector3f(1, 0, 0));
    RobotConfig c(t.r, "c", std::vector<RobotNodePtr>(), std::vector<float>());
    int i = vc_case("joint", 0, 3);
    c.setConfig(t.node(i), v);
    if (more) c.setConfig(extra, v);
    vc_ensure(c.setJointValues(o.r) == !more, "applied exactly if the robot has all joints");
    if (!more) q[i] = v;
    o.at(q, more ? "nothing changed" : "joints of the same names");
    vc_ensure(!c.setJointValues(RobotPtr()), "no robot");
}
VC_HARNESS(config_clone)
{
    Tree t, o("other");
    float v[3];
    RobotNodePtr extra = pris(t.r, "extra", I4(), Vector3f(1, 0, 0));
    for (int i = 0; i < 3; i++) v[i] = vc_nondet_range("v", -10, 10);
    RobotConfigPtr c(new RobotConfig(t.r, "c", std::vector<RobotNodePtr>(), std::vector<float>()));
    c->setConfig(t.j0, v[0]); c->setConfig(t.k, v[1]); c->setConfig(extra, v[2]);
    bool tcp = vc_case("tcp", 0, 1), same = vc_case("same", 0, 1);
    vc_ensure(!c->hasTCP(), "no tcp");
    vc_ensure(!c->setTCP("unknown"), "unknown tcp");
    if (tcp) vc_ensure(c->setTCP("j2"), "tcp");
    RobotConfigPtr d = c->clone(same ? RobotPtr() : o.r);
    vc_ensure(d->getRobot() == (same ? t.r : o.r), "robot of the copy");
    vc_ensure(vc_and(d->getName() == "c", d->getNodes().size() == (same ? 3 : 2)), "nodes the robot has");
    eq(d->getConfig("j0"), v[0], "value");
    eq(d->getConfig("k"), v[1], "value");
    std::vector<RobotNodePtr> n = d->getNodes();
    for (size_t i = 0; i < n.size(); i++) vc_ensure(n[i]->getRobot() == (same ? t.r : o.r), "nodes of the robot of the copy");
    vc_ensure(d->hasTCP() == tcp, "tcp");
    if (tcp) vc_ensure(d->getTCP() == (same ? t.j2 : o.j2), "tcp of the robot of the copy");
    c->setConfig("j0", 77);
    eq(d->getConfig("j0"), v[0], "independent of the original");
}
VC_HARNESS(robot_configuration)
{
    Tree t;
    float q[4];
    t.start(q);
    RobotConfigPtr c = t.r->getConfig();
    for (int i = 0; i < 4; i++) eq(c->getConfig(t.node(i)->getName()), q[i], "configuration of the robot");
    float p[4];
    t.start(p);
    t.r->setConfig(c);
    t.at(q, "configuration restored");
}
VC_HARNESS(set_creation)
{
    Tree t;
    std::vector<std::string> n;
    bool root = vc_case("root", 0, 1), tcp = vc_case("tcp", 0, 1), reg = vc_case("register", 0, 1);
    int bad = vc_case("bad", 0, 3);
    n.push_back("j0"); n.push_back(bad == 1 ? "unknown" : "j1");
    bool thrown = false;
    RobotNodeSetPtr s;
    try { s = RobotNodeSet::createRobotNodeSet(t.r, "s", n, bad == 2 ? "unknown" : root ? "a" : "", bad == 3 ? "unknown" : tcp ? "j2" : "", reg); }
    catch (...) { thrown = true; }
    vc_ensure(thrown == (bad > 0), "unknown nodes are refused");
    vc_ensure(t.r->hasRobotNodeSet("s") == (reg && !bad), "registered exactly if asked for");
    if (bad || thrown) return;
    vc_ensure(vc_and(s->getSize() == 2, s->getName() == "s"), "size");
    vc_ensure(vc_and((*s)[0] == t.j0, s->getNode(1) == t.j1), "nodes in the order given");
    vc_ensure(s->getKinematicRoot() == (root ? t.a : t.j0), "root given or first node");
    vc_ensure(s->getTCP() == (tcp ? t.j2 : t.j1), "tcp given or last node");
    vc_ensure(vc_and(s->hasRobotNode(t.j1), s->hasRobotNode("j0")), "contains its nodes");
    vc_ensure(vc_and(!s->hasRobotNode(t.j2), !s->hasRobotNode("j2")), "contains no others");
    std::vector<std::string> m = s->getNodeNames();
    vc_ensure(m == n, "names");
    vc_ensure(s->getAllRobotNodes().size() == 2, "all nodes");
    vc_ensure(s->getSceneObjects().size() == 2, "objects");
    int i = vc_case("index", -1, 2);
    thrown = false;
    try { s->getNode(i); } catch (...) { thrown = true; }
    vc_ensure(thrown == (i < 0 || i > 1), "index");
    int calls = 0;
    try { s->addSceneObject(t.j2); } catch (...) { calls++; }
    try { s->removeSceneObject(t.j0); } catch (...) { calls++; }
    vc_ensure(calls == 2 && s->getSceneObjects().size() == 2, "no further objects");
    if (!reg) return;
    thrown = false;
    try { RobotNodeSet::createRobotNodeSet(t.r, "s", n, "", "", true); } catch (...) { thrown = true; }
    vc_ensure(vc_and(thrown, t.r->getRobotNodeSet("s") == s), "names are registered once");
}
VC_HARNESS(set_root)
{
    // the root of a set is an ancestor of all of its nodes, or the root of the robot
    Tree t;
    int i = vc_case("first", 0, 3), j = vc_case("second", 0, 3), k = vc_case("root", 0, 3);
    std::vector<RobotNodePtr> n;
    n.push_back(t.node(i)); n.push_back(t.node(j));
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(t.r, "s", n, t.node(k), RobotNodePtr());
    static const int above[4][4] = {{1, 1, 1, 1}, {0, 1, 1, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
    bool ok = above[k][i] && above[k][j];
    vc_ensure(s->getKinematicRoot() == (ok ? t.node(k) : t.a), "root above all nodes");
    vc_ensure(s->isKinematicChain() == (i != j && above[i][j]), "chain exactly if every node is below the one before");
}
VC_HARNESS(set_joint_values)
{
    Tree t;
    float q[4], v[2];
    t.r->setGlobalPose(vc::pose("G"));
    t.start(q);
    std::vector<RobotNodePtr> n;
    int a = vc_case("first", 0, 3), b = vc_case("second", 0, 3);
    vc_assume(a != b);
    n.push_back(t.node(a)); n.push_back(t.node(b));
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(t.r, "s", n, t.j0, RobotNodePtr());
    for (int i = 0; i < 2; i++) v[i] = vc_nondet_range("v", -10, 10);
    int how = vc_case("how", 0, 4);
    std::vector<float> f(v, v + 2);
    VectorXf e(2);
    e(0) = v[0]; e(1) = v[1];
    RobotConfigPtr c(new RobotConfig(t.r, "c", std::vector<RobotNodePtr>(), std::vector<float>()));
    c->setConfig(t.node(a), v[0]);
    if (how == 0) s->setJointValues(f);
    if (how == 1) s->setJointValues(e);
    if (how == 2) t.r->setJointValues(s, f);
    if (how == 3) t.r->setJointValues(s, e);
    if (how == 4)
    {
        // nodes that are not in the set are not touched
        c->setConfig(t.node(3), 1);
        s->setJointValues(c);
        if (b == 3) q[b] = 1;
    }
    q[a] = cut(v[0], t.lo, t.hi);
    if (how == 4 && a == 3) q[a] = 1;
    if (how < 4) q[b] = cut(v[1], t.lo, t.hi);
    t.at(q, "joints of the set have their values within limits, others are kept");
    std::vector<float> x = s->getJointValues(), y;
    VectorXf w, z = s->getJointValuesEigen();
    s->getJointValues(y);
    s->getJointValues(w);
    vc_ensure(x.size() == 2 && y.size() == 2 && w.rows() == 2 && z.rows() == 2, "a value per node");
    std::map<std::string, float> m = s->getJointValueMap();
    RobotConfigPtr d(new RobotConfig(t.r, "d", std::vector<RobotNodePtr>(), std::vector<float>()));
    s->getJointValues(d);
    vc_ensure(m.size() == 2 && d->getNodes().size() == 2, "a value per node");
    for (int i = 0; i < 2; i++)
    {
        float g = q[i ? b : a];
        eq(x[i], g, "values read"); eq(y[i], g, "values read"); eq(w(i), g, "values read"); eq(z(i), g, "values read");
        eq(m[n[i]->getName()], g, "values read");
        eq(d->getConfig(n[i]->getName()), g, "values read");
    }
}
VC_HARNESS(set_wrong_size)
{
    Tree t;
    float q[4];
    t.start(q);
    std::vector<RobotNodePtr> n;
    n.push_back(t.j0); n.push_back(t.j1);
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(t.r, "s", n);
    std::vector<float> f(3, 1), g(1, 1);
    VectorXf e = VectorXf::Ones(3), h = VectorXf::Ones(1);
    int refused = 0;
    try { s->setJointValues(f); } catch (...) { refused++; }
    try { s->setJointValues(g); } catch (...) { refused++; }
    try { s->setJointValues(e); } catch (...) { refused++; }
    try { s->setJointValues(h); } catch (...) { refused++; }
    try { s->respectJointLimits(f); } catch (...) { refused++; }
    try { s->checkJointLimits(f); } catch (...) { refused++; }
    try { s->checkJointLimits(g); } catch (...) { refused++; }
    try { s->checkJointLimits(e); } catch (...) { refused++; }
    vc_ensure(refused == 8, "vectors of another size are refused");
    t.at(q, "nothing changed");
}
VC_HARNESS(set_limits)
{
    Tree t;
    std::vector<RobotNodePtr> n;
    RobotNodePtr w = pris(t.r, "w", I4(), Vector3f(1, 0, 0), -1, 5);
    t.j2->attachChild(w);
    n.push_back(t.j0); n.push_back(w);
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(t.r, "s", n);
    float v[2] = {vc_nondet_range("v", -10, 10), vc_nondet_range("v", -10, 10)};
    std::vector<float> f(v, v + 2);
    VectorXf e(2);
    e(0) = v[0]; e(1) = v[1];
    bool ok = v[0] >= -3 && v[0] <= 3 && v[1] >= -1 && v[1] <= 5;
    vc_ensure(s->checkJointLimits(f) == ok, "within limits exactly if all joints are");
    vc_ensure(s->checkJointLimits(e) == ok, "within limits exactly if all joints are");
    s->respectJointLimits(f);
    s->respectJointLimits(e);
    eq(f[0], cut(v[0], -3, 3), "cut to the limits"); eq(e(0), cut(v[0], -3, 3), "cut to the limits");
    eq(f[1], cut(v[1], -1, 5), "cut to the limits"); eq(e(1), cut(v[1], -1, 5), "cut to the limits");
}
VC_HARNESS(set_extension)
{
    Tree t;
    float q[4];
    t.start(q);
    std::vector<RobotNodePtr> n;
    n.push_back(t.j0); n.push_back(t.j1); n.push_back(t.j2);
    int tcp = vc_case("tcp", 1, 2);
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(t.r, "s", n, t.a, t.node(tcp));
    Vector3f x(t.T[0](0,3) + q[0], t.T[0](1,3), t.T[0](2,3)), y(t.T[1](0,3), t.T[1](1,3) + q[1], t.T[1](2,3)), z(t.T[2](0,3), t.T[2](1,3), t.T[2](2,3) + q[2]);
    float e = vc_sqrt(vc::dot(x, x)) + vc_sqrt(vc::dot(y, y)) + vc_sqrt(vc::dot(z, z));
    if (tcp == 1) e += vc_sqrt(vc::dot(z, z));
    eq(s->getMaximumExtension(), e, "sum of the lengths from root to tcp");
}
VC_HARNESS(set_sufficient)
{
    Tree t;
    std::vector<RobotNodePtr> n, m;
    n.push_back(t.j0); n.push_back(t.j1);
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(t.r, "s", n, t.a, t.j2);
    int k = vc_case("nodes", 0, 31);
    if (k & 1) m.push_back(t.a);
    if (k & 2) m.push_back(t.j0);
    if (k & 4) m.push_back(t.j1);
    if (k & 8) m.push_back(t.j2);
    if (k & 16) m.push_back(t.k);
    vc_ensure(s->nodesSufficient(m) == ((k & 15) == 15), "sufficient exactly if root, tcp and all nodes are included");
}
VC_HARNESS(set_clone)
{
    Tree t, o("other");
    std::vector<RobotNodePtr> n;
    n.push_back(t.j1); n.push_back(t.j2);
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(t.r, "s", n, t.j0, t.j1, true);
    bool root = vc_case("root", 0, 1);
    RobotNodeSetPtr c = s->clone(o.r, root ? o.j1 : RobotNodePtr());
    vc_ensure(c && c->getRobot() == o.r && c->getName() == "s" && o.r->getRobotNodeSet("s") == c, "registered at the other robot");
    vc_ensure(c->getSize() == 2 && c->getNode(0) == o.j1 && c->getNode(1) == o.j2, "nodes of the other robot");
    vc_ensure(vc_and(c->getTCP() == o.j1, c->getKinematicRoot() == (root ? o.j1 : o.j0)), "tcp and root of the other robot");
    vc_ensure(t.r->getRobotNodeSet("s") == s && s->getNode(0) == t.j1, "original unchanged");
    vc_ensure(!s->clone(RobotPtr()), "no robot");
}
VC_HARNESS(set_empty)
{
    Tree t;
    std::vector<RobotNodePtr> n;
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(t.r, "s", n, t.a, t.j2);
    vc_ensure(s->getSize() == 0 && s->isKinematicChain(), "empty set");
    eq(s->getMaximumExtension(), 0, "no extension");
    vc_ensure(s->getJointValues().empty(), "no values");
    eq(s->getMass(), 0, "no mass");
    bool thrown = false;
    try { RobotNodeSet::createRobotNodeSet(t.r, "s", n); } catch (...) { thrown = true; }
    vc_ensure(thrown, "a set without nodes needs a tcp");
}
VC_HARNESS(registered_sets)
{
    Tree t;
    std::vector<RobotNodePtr> n, m;
    n.push_back(t.j0); m.push_back(t.j1);
    RobotNodeSetPtr a = RobotNodeSet::createRobotNodeSet(t.r, "x", n, t.j0, t.j0, true), b = RobotNodeSet::createRobotNodeSet(t.r, "y", m, t.j1, t.j1, true);
    vc_ensure(vc_and(t.r->getRobotNodeSet("x") == a, t.r->getRobotNodeSet("y") == b), "found by name");
    vc_ensure(vc_and(t.r->hasRobotNodeSet(a), !t.r->hasRobotNodeSet("z")), "present");
    std::vector<RobotNodeSetPtr> all = t.r->getRobotNodeSets();
    vc_ensure(all.size() == 2 && all[0] != all[1] && (all[0] == a || all[0] == b) && (all[1] == a || all[1] == b), "all sets");
    t.r->deregisterRobotNodeSet(a);
    vc_ensure(!t.r->hasRobotNodeSet("x") && t.r->hasRobotNodeSet("y") && t.r->getRobotNodeSets().size() == 1, "the set removed, no other");
    vc_ensure(!t.r->getRobotNodeSet("x"), "not found");
    RobotNodeSetPtr c = RobotNodeSet::createRobotNodeSet(t.r, "y", n, t.j0, t.j0);
    t.r->registerRobotNodeSet(c);
    vc_ensure(t.r->getRobotNodeSet("y") == c && t.r->getRobotNodeSets().size() == 1, "the later definition of a name counts");
}
