// VC-PROPERTY: C23
// VC-OPT: merge=0
// VC-TU: %robot VirtualRobot/Trajectory.cpp MotionPlanning/CSpace/CSpace.cpp MotionPlanning/CSpace/CSpaceNode.cpp MotionPlanning/CSpace/CSpacePath.cpp MotionPlanning/CSpace/CSpaceTree.cpp MotionPlanning/CSpace/CSpaceSampled.cpp MotionPlanning/CSpace/Sampler.cpp MotionPlanning/CSpace/ConfigurationConstraint.cpp MotionPlanning/Planner/MotionPlanner.cpp MotionPlanning/Planner/Rrt.cpp MotionPlanning/Planner/BiRrt.cpp
// VC-FLAGS: -fno-access-control
// VC-ASSUME: clock() returns 0 (no timeout); printing of configurations has no effect; VirtualRobot::RandomFloat() returns a number within [0,1]
// Rapidly exploring random trees: extension, connection, solutions, results of planning
#include "cspace.h"
#include "MotionPlanning/Planner/Rrt.h"
#include "MotionPlanning/Planner/BiRrt.h"
#include <VirtualRobot/Random.h>

VC_MOCK("VirtualRobot::RandomFloat()")
float stub_random()
{
    float r = vc_fresh_float("random");
    vc_assume(vc_and(r >= 0, r <= 1));
    return r;
}
VC_STUB("clock")
long stub_clock() { return 0; }

VC_MOCK("Saba::CSpace::printConfig(Eigen::Matrix<float, -1, 1, 0, -1, 1> const&) const")
void stub_print(const CSpace*, const VectorXf&) {}
// A space with arbitrary validity of configurations and ways; remembers the ways found to be valid.
struct Ways : public CSpace
{
    struct Way { VectorXf a, b; bool ok; };
    std::vector<Way> ways;
    bool free, in;
    Ways(const Chain& c, int pool) : CSpace(c.r, CDManagerPtr(), c.set, pool), free(true), in(true) {}
    CSpacePtr clone(CollisionCheckerPtr, RobotPtr, CDManagerPtr, unsigned int) override { return CSpacePtr(); }
    bool isCollisionFree(const VectorXf&) override { return free; }
    bool isInBoundary(const VectorXf&) override { return in; }
    bool isPathValid(const VectorXf& a, const VectorXf& b) override
    {
        Way w;
        w.a = a;
        w.b = b;
        w.ok = vc_case("valid", 0, 1);
        ways.push_back(w);
        return w.ok;
    }
    CSpacePathPtr createPathUntilInvalid(const VectorXf& a, const VectorXf& b, float& l) override
    {
        // contract: a prefix of the way, complete if l is 1
        CSpacePathPtr p(new CSpacePath(shared_from_this()));
        p->addPoint(a);
        l = 0;
        if (!vc_case("some", 0, 1)) return p;
        VectorXf m(a.rows());
        for (int i = 0; i < a.rows(); i++) m(i) = vc_fresh_float("between");
        p->addPoint(m);
        l = 0.5f;
        if (!vc_case("all", 0, 1)) return p;
        p->addPoint(b);
        l = 1;
        return p;
    }
};
static float dist(const VectorXf& a, const VectorXf& b)
{
    float d = 0;
    for (int i = 0; i < a.rows(); i++) d += (a(i) - b(i)) * (a(i) - b(i));
    return vc_sqrt(d);
}
// a planner with a tree of n nodes
struct Plan
{
    Chain c;
    boost::shared_ptr<Ways> s;
    boost::shared_ptr<Rrt> p;
    std::vector<CSpaceNodePtr> n;
    std::vector<int> parent;
    float step;
    Plan(const char* kind, int nodes, Rrt::RrtMethod mode = Rrt::eExtend) : c(kind, false), step(vc_nondet_range("step", 0.01f, 10))
    {
        s.reset(new Ways(c, nodes + 4));
        p.reset(new Rrt(s, mode, 0.1f, step));
        for (int i = 0; i < nodes; i++)
        {
            parent.push_back(i ? i == 1 ? 0 : vc_case("parent", 0, i - 1) : -1);
            n.push_back(p->tree->appendNode(config(c), i ? (int)n[parent[i]]->ID : -1));
        }
    }
    // the node the library calls nearest: its own contract (configuration space checks)
    CSpaceNodePtr near(VectorXf& x) { return p->tree->getNearestNeighbor(x); }
};
VC_HARNESS(extend)
{
    Plan p("p", 2);
    VectorXf x = config(p.c);
    CSpaceNodePtr nn = p.near(x);
    VectorXf from = nn->configuration;
    float d = dist(from, x);
    vc_assume(d > 0);
    int last = -5;
    Rrt::ExtensionResult r = p.p->extend(x, p.p->tree, last);
    vc_ensure(p.s->ways.size() == 1, "one way is checked");
    Ways::Way w = p.s->ways[0];
    float t = d <= p.step ? 1 : p.step / d;
    eq(w.a(0), from(0), "from the nearest node");
    eq(w.b(0), from(0) + t * (x(0) - from(0)), "a step towards the configuration");
    std::vector<CSpaceNodePtr> n = p.p->tree->getNodes();
    if (!w.ok)
    {
        vc_ensure(r == Rrt::eFailed, "no extension on an invalid way");
        vc_ensure(n.size() == 2, "no node on an invalid way");
        vc_ensure(last == -5, "no node reported");
        return;
    }
    vc_ensure(n.size() == 3, "a new node at the end of the step");
    vc_ensure(n[2]->parentID == (int)nn->ID, "below the nearest node");
    eq(n[2]->configuration(0), w.b(0), "the end of the way checked");
    vc_ensure(last == (int)n[2]->ID, "the new node is reported");
    vc_ensure(r == (d <= p.step ? Rrt::eSuccess : Rrt::ePartial), "success if the configuration is reached");
}
VC_HARNESS(connect_complete)
{
    Plan p("pp", 2);
    VectorXf x = config(p.c);
    CSpaceNodePtr nn = p.near(x);
    int last = -5;
    Rrt::ExtensionResult r = p.p->connectComplete(x, p.p->tree, last);
    vc_ensure(p.s->ways.size() == 1, "one way is checked");
    Ways::Way w = p.s->ways[0];
    std::vector<CSpaceNodePtr> n = p.p->tree->getNodes();
    for (int i = 0; i < 2; i++)
    {
        eq(w.a(i), nn->configuration(i), "from the nearest node");
        eq(w.b(i), x(i), "to the configuration");
    }
    if (!w.ok)
    {
        vc_ensure(r == Rrt::eFailed, "no connection on an invalid way");
        vc_ensure(n.size() == 2, "no node on an invalid way");
        return;
    }
    vc_ensure(r == Rrt::eSuccess, "connected");
    vc_ensure(n.size() == 3, "a new node");
    vc_ensure(n[2]->parentID == (int)nn->ID, "below the nearest node");
    for (int i = 0; i < 2; i++) eq(n[2]->configuration(i), x(i), "at the configuration");
    vc_ensure(last == (int)n[2]->ID, "the new node is reported");
}
VC_HARNESS(connect_until_invalid)
{
    Plan p("p", 2);
    VectorXf x = config(p.c);
    CSpaceNodePtr nn = p.near(x);
    int last = -5;
    Rrt::ExtensionResult r = p.p->connectUntilCollision(x, p.p->tree, last);
    std::vector<CSpaceNodePtr> n = p.p->tree->getNodes();
    int added = n.size() - 2;
    vc_ensure(vc_and(added >= 0, added <= 2), "nodes of the valid part");
    vc_ensure(r == (added == 0 ? Rrt::eFailed : added == 1 ? Rrt::ePartial : Rrt::eSuccess), "result");
    int up = nn->ID;
    for (int i = 0; i < added; i++)
    {
        vc_ensure(n[2 + i]->parentID == up, "each node below the one before");
        up = n[2 + i]->ID;
    }
    if (added == 2) eq(n[3]->configuration(0), x(0), "at the configuration");
    vc_ensure(last == (added ? up : -5), "the last node is reported");
}
static void isWay(const CSpacePathPtr& p, const std::vector<float>& x, const char* l)
{
    vc_ensure(p->getNrOfPoints() == x.size(), l);
    if (p->getNrOfPoints() != x.size()) return;
    for (size_t i = 0; i < x.size(); i++) eq(p->getPoint(i)(0), x[i], l);
}
VC_HARNESS(solution_of_a_tree)
{
    Plan p("p", 4);
    int goal = vc_case("goal", 0, 3);
    p.p->startNode = p.n[0];
    p.p->goalNode = p.n[goal];
    std::vector<float> x;
    for (int i = goal; i >= 0; i = p.parent[i]) x.insert(x.begin(), p.n[i]->configuration(0));
    bool ok = p.p->createSolution(true);
    vc_ensure(ok == (goal > 0), "there is a way down from the start");
    if (!ok) return;
    isWay(p.p->getSolution(), x, "the nodes between start and goal, in order");
}
VC_HARNESS(solution_missing)
{
    Plan p("p", 2);
    p.p->startNode = p.n[0];
    vc_ensure(!p.p->createSolution(true), "no solution without a goal");
    // a goal below another root
    CSpaceNodePtr root = p.p->tree->appendNode(config(p.c), -1), g = p.p->tree->appendNode(config(p.c), root->ID);
    p.p->goalNode = g;
    vc_ensure(!p.p->createSolution(true), "no solution if start and goal are not connected");
}
VC_HARNESS(solution_of_two_trees)
{
    Chain c("p", false);
    boost::shared_ptr<Ways> s(new Ways(c, 12));
    boost::shared_ptr<BiRrt> b(new BiRrt(s, Rrt::eConnect, Rrt::eConnect, 1));
    int na = vc_case("na", 1, 3), nb = vc_case("nb", 1, 3);
    std::vector<CSpaceNodePtr> t[2];
    std::vector<int> up[2];
    for (int k = 0; k < 2; k++) for (int i = 0; i < (k ? nb : na); i++)
    {
        up[k].push_back(i == 0 ? -1 : i == 1 ? 0 : vc_case("parent", 0, 1));
        t[k].push_back((k ? b->tree2 : b->tree)->appendNode(config(c), i ? (int)t[k][up[k][i]]->ID : -1));
    }
    // both trees have a node at the same configuration
    t[1][nb - 1]->configuration = t[0][na - 1]->configuration;
    b->lastAddedID = t[0][na - 1]->ID;
    b->lastAddedID2 = t[1][nb - 1]->ID;
    std::vector<float> x;
    for (int i = na - 1; i >= 0; i = up[0][i]) x.insert(x.begin(), t[0][i]->configuration(0));
    for (int i = up[1][nb - 1]; i >= 0; i = up[1][i]) x.push_back(t[1][i]->configuration(0));
    vc_ensure(b->createSolution(true), "there is a solution");
    isWay(b->getSolution(), x, "from the root of the first tree to the root of the second, the common configuration once");
    eq(b->getSolution()->getPoint(0)(0), t[0][0]->configuration(0), "from the start");
    if (na + nb > 2) eq(b->getSolution()->getPoint(x.size() - 1)(0), t[1][0]->configuration(0), "to the goal");
}
VC_HARNESS(start_and_goal)
{
    Chain c("p");
    boost::shared_ptr<Ways> s(new Ways(c, 6));
    boost::shared_ptr<Rrt> p(new Rrt(s, Rrt::eExtend, 0.1f, 1));
    VectorXf a = vec(1), b = vec(1);
    bool fs = vc_case("start free", 0, 1), is = vc_case("start inside", 0, 1), fg = vc_case("goal free", 0, 1), ig = vc_case("goal inside", 0, 1);
    s->free = fs; s->in = is;
    bool okS = p->setStart(a);
    s->free = fg; s->in = ig;
    bool okG = p->setGoal(b);
    vc_ensure(okS == (fs && is), "a start has to be valid");
    vc_ensure(okG == (fg && ig), "a goal has to be valid");
    vc_ensure(p->isInitialized() == (okS && okG), "ready with a valid start and a valid goal");
    eq(p->startConfig(0), a(0), "start");
    eq(p->goalConfig(0), b(0), "goal");
    if (okS)
    {
        vc_ensure(p->getTree()->getNrOfNodes() == 1, "the tree starts with the start");
        eq(p->getTree()->getNodes()[0]->configuration(0), a(0), "the tree starts with the start");
        vc_ensure(p->getTree()->getNodes()[0]->parentID < 0, "the start has no parent");
    }
    if (!(okS && okG))
    {
        vc_ensure(!p->plan(true), "no planning without a valid start and a valid goal");
        vc_ensure(s->ways.empty(), "no planning without a valid start and a valid goal");
    }
    p->reset();
    vc_ensure(!p->isInitialized(), "not ready after reset");
    vc_ensure(p->getTree()->getNrOfNodes() == 0, "no nodes after reset");
}
// a result of planning: from start to goal over ways that have been found to be valid
static void planned(Rrt::RrtMethod mode, unsigned cycles)
{
    Chain c("p", false);
    boost::shared_ptr<Ways> s(new Ways(c, 3 + cycles * 2));
    boost::shared_ptr<Rrt> p(new Rrt(s, mode, 0.1f, vc_nondet_range("step", 0.01f, 10)));
    VectorXf a = config(c), b = config(c);
    vc_assume(a(0) != b(0));
    vc_ensure(p->setStart(a) && p->setGoal(b), "start and goal");
    p->setMaxCycles(cycles);
    bool ok = p->plan(true);
    vc_ensure(p->cycles <= cycles, "number of cycles");
    if (!ok) return;
    CSpacePathPtr r = p->getSolution();
    vc_ensure(bool(r), "there is a solution");
    int n = r->getNrOfPoints();
    vc_ensure(n >= 2, "start and goal");
    eq(r->getPoint(0)(0), a(0), "from the start");
    eq(r->getPoint(n - 1)(0), b(0), "to the goal");
    for (int i = 0; i + 1 < n; i++)
    {
        bool valid = false;
        for (size_t k = 0; k < s->ways.size(); k++)
            valid = valid | vc_and(s->ways[k].ok, vc_and(s->ways[k].a(0) == r->getPoint(i)(0), s->ways[k].b(0) == r->getPoint(i + 1)(0)));
        vc_ensure(valid, "every part of the solution has been found to be valid");
    }
}
VC_HARNESS(planned_extend) { planned(Rrt::eExtend, 1); }
VC_HARNESS(planned_connect) { planned(Rrt::eConnectCompletePath, 1); }
VC_HARNESS(planned_connect_twice) { planned(Rrt::eConnectCompletePath, 2); }
