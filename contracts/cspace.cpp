// VC-PROPERTY: C13
// VC-OPT: merge=0
// VC-TU: %robot VirtualRobot/Trajectory.cpp MotionPlanning/CSpace/CSpace.cpp MotionPlanning/CSpace/CSpaceNode.cpp MotionPlanning/CSpace/CSpacePath.cpp MotionPlanning/CSpace/CSpaceTree.cpp MotionPlanning/CSpace/CSpaceSampled.cpp MotionPlanning/CSpace/Sampler.cpp MotionPlanning/CSpace/ConfigurationConstraint.cpp
// VC-FLAGS: -fno-access-control
// VC-ASSUME: VirtualRobot::RandomFloat() returns a number within [0,1]
// Configuration space: boundaries, metric, interpolation, nodes and trees of configurations
#include "cspace.h"
#include <VirtualRobot/Random.h>

VC_MOCK("VirtualRobot::RandomFloat()")
float stub_random()
{
    float r = vc_fresh_float("random");
    vc_assume(vc_and(r >= 0, r <= 1));
    return r;
}
VC_HARNESS(boundaries_of_the_joints)
{
    Chain c("pr");
    Space s(c);
    vc_ensure(s.getDimension() == 2, "one dimension per joint");
    for (int i = 0; i < 2; i++)
    {
        eq(s.getBoundaryMin(i), c.lo[i], "lower boundary is the lower joint limit");
        eq(s.getBoundaryMax(i), c.hi[i], "upper boundary is the upper joint limit");
        eq(s.getBoundaryDist(i), c.hi[i] - c.lo[i], "extent of the dimension");
        vc_ensure(!s.isBorderlessDimension(i), "limited joints have borders");
    }
    vc_ensure(s.getRobot() == c.r, "robot");
    vc_ensure(s.getRobotNodeSet() == c.set, "joints");
    for (int i = 0; i < 2; i++) eq(s.getMetricWeights()(i), 1, "no weights by default");
}
VC_HARNESS(boundaries_changed)
{
    Chain c("pr");
    Space s(c);
    VectorXf a = vec(2), b = vec(2);
    if (vc_case("single", 0, 1)) for (int i = 0; i < 2; i++) s.setBoundary(i, a(i), b(i));
    else s.setBoundaries(a, b);
    VectorXf q = vec(2);
    bool in = true;
    for (int i = 0; i < 2; i++)
    {
        float l = a(i) < b(i) ? a(i) : b(i), h = a(i) < b(i) ? b(i) : a(i);
        eq(s.getBoundaryMin(i), l, "the smaller bound is the lower boundary");
        eq(s.getBoundaryMax(i), h, "the larger bound is the upper boundary");
        eq(s.getBoundaryDist(i), h - l, "extent of the dimension");
        in = in & vc_and(q(i) >= l, q(i) <= h);
    }
    vc_ensure(s.isInBoundary(q) == in, "isInBoundary tells whether all values are within the boundaries");
    VectorXf p = q;
    s.respectBoundaries(p);
    for (int i = 0; i < 2; i++)
    {
        float l = s.getBoundaryMin(i), h = s.getBoundaryMax(i);
        eq(p(i), q(i) < l ? l : q(i) > h ? h : q(i), "respectBoundaries clamps every value");
    }
    vc_ensure(s.isInBoundary(p), "a clamped configuration is within the boundaries");
}
VC_HARNESS(metric_plain)
{
    Chain c("ppr");
    Space s(c);
    VectorXf a = vec(3), b = vec(3);
    float d = 0;
    for (int i = 0; i < 3; i++) d += (a(i) - b(i)) * (a(i) - b(i));
    eq(s.calcDist2(a, b), d, "squared distance is the sum of the squared differences");
    eq(s.calcDist2(b, a), d, "symmetric");
    eq(s.calcDist2(a, b, true), d, "the same without weights");
    eq(s.calcDist(a, b), vc_sqrt(d), "distance");
    eq(s.calcDist2(a, a), 0, "no distance from itself");
}
VC_HARNESS(metric_weighted)
{
    Chain c("pr");
    Space s(c);
    VectorXf a = vec(2), b = vec(2), w = vec(2);
    float d = 0, u = 0;
    for (int i = 0; i < 2; i++)
    {
        d += w(i) * w(i) * (a(i) - b(i)) * (a(i) - b(i));
        u += (a(i) - b(i)) * (a(i) - b(i));
    }
    s.setMetricWeights(w);
    eq(s.calcDist2(a, b), d, "differences are weighted");
    eq(s.calcDist(a, b), vc_sqrt(d), "distance");
    eq(s.calcDist2(a, b, true), u, "weights disabled for one call");
    eq(s.calcDist(a, b, true), vc_sqrt(u), "weights disabled for one call");
    s.enableWeights(false);
    eq(s.calcDist2(a, b), u, "weights disabled");
    s.enableWeights(true);
    eq(s.calcDist2(a, b), d, "weights enabled again");
    for (int i = 0; i < 2; i++) eq(s.getMetricWeights()(i), w(i), "weights are kept");
}
VC_HARNESS(metric_borderless)
{
    Chain c(vc_case("zero_to_two_pi", 0, 1) ? "mp" : "lp");
    Space s(c);
    vc_ensure(s.isBorderlessDimension(0), "a limitless joint has no borders");
    vc_ensure(!s.isBorderlessDimension(1), "a translational joint has borders");
    VectorXf a = config(c), b = config(c);
    float t = turn(a(0), b(0)), x = a(1) - b(1), l = a(0) - b(0);
    eq(s.calcDist2(a, b), t * t + x * x, "the shortest way around the circle counts");
    s.checkForBorderlessDimensions(false);
    eq(s.calcDist2(a, b), l * l + x * x, "borderless dimensions disabled: plain difference");
}
VC_HARNESS(interpolation_limited)
{
    Chain c("pr");
    Space s(c);
    VectorXf a = vec(2), b = vec(2);
    float t = vc_nondet_range("t", 0, 1);
    VectorXf x = s.interpolate(a, b, t);
    for (int i = 0; i < 2; i++)
    {
        eq(x(i), a(i) + t * (b(i) - a(i)), "linear interpolation");
        eq(s.interpolate(a, b, i, t), x(i), "a single dimension");
    }
}
static void around(const char* kind)
{
    Chain c(kind);
    Space s(c);
    VectorXf a = config(c), b = config(c);
    float t = vc_nondet_range("t", 0, 1), x, e;
    // the shorter way may cross the boundary in either direction
    if (b(0) - a(0) >= vc_pi()) { x = s.interpolate(a, b, 0, t); e = a(0) + t * (b(0) - a(0) - 2 * vc_pi()); }
    else if (b(0) - a(0) < -vc_pi()) { x = s.interpolate(a, b, 0, t); e = a(0) + t * (b(0) - a(0) + 2 * vc_pi()); }
    else { x = s.interpolate(a, b, 0, t); e = a(0) + t * (b(0) - a(0)); }
    vc_ensure_le(c.lo[0], x, "result within the boundaries");
    vc_ensure_le(x, c.hi[0], "result within the boundaries");
    eq(vc_cos(x), vc_cos(e), "interpolation along the shorter way (cos)");
    eq(vc_sin(x), vc_sin(e), "interpolation along the shorter way (sin)");
    s.checkForBorderlessDimensions(false);
    eq(s.interpolate(a, b, 0, t), a(0) + t * (b(0) - a(0)), "borderless dimensions disabled: linear");
}
VC_HARNESS(interpolation_borderless) { around("l"); }
VC_HARNESS(interpolation_borderless_positive) { around("m"); }

// steps of given length towards a configuration
VC_HARNESS(step_towards)
{
    Chain c("pr");
    Space s(c);
    VectorXf near = vec(2), to = vec(2), w = vec(2, 0.1f, 10), x(2);
    float step = vc_nondet_range("step", 0.01f, 100);
    bool weighted = vc_case("weighted", 0, 1);
    if (weighted) s.setMetricWeights(w);
    float d2 = 0;
    for (int i = 0; i < 2; i++) d2 += (weighted ? w(i) * w(i) : 1) * (near(i) - to(i)) * (near(i) - to(i));
    float d = vc_sqrt(d2);
    if (vc_case("precalculated", 0, 1)) s.generateNewConfig(to, near, x, step, d);
    else s.generateNewConfig(to, near, x, step);
    for (int i = 0; i < 2; i++) eq(x(i), d <= step ? to(i) : near(i) + (to(i) - near(i)) * step / d, "a step of the given length on the straight way, the target if it is nearer");
}
VC_HARNESS(direction)
{
    Chain c("pr");
    Space s(c);
    VectorXf a = vec(2), b = vec(2), x(2);
    float l = vc_nondet_range("l", -100, 100);
    float d = vc_sqrt((a(0) - b(0)) * (a(0) - b(0)) + (a(1) - b(1)) * (a(1) - b(1)));
    vc_assume(d > 0);
    s.getDirectionVector(a, b, x, l);
    for (int i = 0; i < 2; i++) eq(x(i), (b(i) - a(i)) * l / d, "direction from the first to the second, of the length given");
}
VC_HARNESS(random_configurations)
{
    Chain c("pr");
    boost::shared_ptr<Space> s(new Space(c));
    VectorXf q(2);
    s->getRandomConfig(q);
    for (int i = 0; i < 2; i++)
    {
        vc_ensure_le(c.lo[i], q(i), "not below the boundary");
        vc_ensure_le(q(i), c.hi[i], "not above the boundary");
        float x = s->getRandomConfig_UniformSampling(i);
        vc_ensure_le(c.lo[i], x, "not below the boundary");
        vc_ensure_le(x, c.hi[i], "not above the boundary");
    }
    s->getRandomConfig(q, true);
    vc_ensure(s->asked == 1, "a valid configuration has been checked");
    for (int i = 0; i < 2; i++) eq(s->last(i), q(i), "the configuration returned has been checked");
}
struct Uniform : public Sampler
{
    Uniform(int d) : Sampler(d) {}
    void sample(VectorXf& q, CSpacePtr s) override { getUniformlyRandomConfig(q, s); }
    using Sampler::metricWeights;
    using Sampler::dimension;
};
VC_HARNESS(custom_sampler)
{
    Chain c("pr");
    boost::shared_ptr<Space> s(new Space(c));
    boost::shared_ptr<Uniform> u(new Uniform(2));
    vc_ensure(u->dimension == 2, "dimension of the sampler");
    vc_ensure(u->metricWeights.rows() == 2, "one weight per dimension");
    s->setRandomSampler(u);
    VectorXf q(2);
    q(0) = q(1) = 5000;
    s->getRandomConfig(q);
    for (int i = 0; i < 2; i++)
    {
        vc_ensure_le(c.lo[i], q(i), "every dimension is sampled");
        vc_ensure_le(q(i), c.hi[i], "every dimension is sampled");
    }
}
struct Rule : public ConfigurationConstraint
{
    bool ok;
    int asked;
    Rule(bool ok) : ConfigurationConstraint(1), ok(ok), asked(0) {}
    bool isValid(const VectorXf&) override { asked++; return ok; }
};
VC_HARNESS(validity)
{
    Chain c("p");
    Space s(c);
    s.free = vc_case("free", 0, 1);
    bool r1 = vc_case("rule1", 0, 1), r2 = vc_case("rule2", 0, 1);
    int rules = vc_case("rules", 0, 2);
    if (rules > 0) s.addConstraintCheck(boost::shared_ptr<Rule>(new Rule(r1)));
    if (rules > 1) s.addConstraintCheck(boost::shared_ptr<Rule>(new Rule(r2)));
    VectorXf q = vec(1, -5000, 5000);
    bool in = vc_and(q(0) >= c.lo[0], q(0) <= c.hi[0]);
    bool con = (rules < 1 || r1) && (rules < 2 || r2);
    bool cb = vc_case("borders", 0, 1), cc = vc_case("collisions", 0, 1), ck = vc_case("constraints", 0, 1);
    vc_ensure(s.isSatisfyingConstraints(q) == con, "all constraints have to hold");
    vc_ensure(s.isConfigValid(q, cb, cc, ck) == ((!cb | in) & (!cc | s.free) & (!ck | con)), "valid if every check asked for passes");
    vc_ensure(s.isConfigValid(q) == (in & s.free & con), "all checks by default");
    vc_ensure(s.isPathValid(q, q) == (in & s.free & con), "path to a configuration");
}
// nodes are handed out at most once until they are given back
VC_HARNESS(node_pool)
{
    Chain c("p");
    Space s(c, 3);
    CSpaceNodePtr n[3];
    for (int i = 0; i < 3; i++)
    {
        n[i] = s.createNewNode();
        vc_ensure(n[i]->allocated, "allocated");
        vc_ensure(s.getNode(n[i]->ID) == n[i], "found by its ID");
        for (int k = 0; k < i; k++) vc_ensure(vc_and(n[i] != n[k], n[i]->ID != n[k]->ID), "each node is handed out once");
    }
    int k = vc_case("k", 0, 2);
    bool thrown = false;
    try { s.createNewNode(); }
    catch (...) { thrown = true; }
    vc_ensure(thrown, "no more nodes than there are");
    // whatever a node has been used for
    for (int i = 0; i < 3; i++)
    {
        n[i]->parentID = vc_nondet_int("parent", -1, 2);
        n[i]->status = vc_nondet_int("status", -2, 2);
        n[i]->obstacleDistance = vc_nondet_range("od", -1, 100);
        n[i]->dynDomRadius = vc_nondet_range("radius", -1, 100);
        n[i]->children.push_back(n[(i + 1) % 3]);
    }
    s.removeNode(n[k]);
    vc_ensure(!n[k]->allocated, "not allocated any more");
    CSpaceNodePtr m = s.createNewNode();
    vc_ensure(m == n[k], "a node given back is handed out again");
    vc_ensure(m->children.empty(), "without children");
    vc_ensure(m->allocated, "allocated");
    s.reset();
    for (int i = 0; i < 3; i++) vc_ensure(!n[i]->allocated, "reset frees all nodes");
    for (int i = 0; i < 3; i++) n[i]->children.push_back(n[(i + 1) % 3]);
    for (int i = 0; i < 3; i++)
    {
        n[i] = s.createNewNode();
        vc_ensure(n[i]->children.empty(), "without children after reset");
        vc_ensure(n[i]->allocated, "allocated");
    }
    for (int i = 0; i < 3; i++) for (int k = 0; k < i; k++) vc_ensure(n[i] != n[k], "each node is handed out once after reset");
}
// a solution is valid if all of its segments are
VC_HARNESS(solutions)
{
    Chain c("p");
    boost::shared_ptr<Space> s(new Space(c));
    int n = vc_case("n", 0, 3);
    CSpacePathPtr p(new CSpacePath(s));
    bool ok = true;
    for (int i = 0; i < n; i++)
    {
        VectorXf q = vec(1, -5000, 5000);
        p->addPoint(q);
        // this space checks the end of a segment, going from the end of the path to its start
        if (i + 1 < n) ok = ok & vc_and(q(0) >= c.lo[0], q(0) <= c.hi[0]);
    }
    vc_ensure(s->checkSolution(p) == ok, "a solution is valid if all its segments are");
    vc_ensure(!s->checkSolution(CSpacePathPtr()), "no solution");
}
VC_HARNESS(direct_path)
{
    Chain c("pr");
    boost::shared_ptr<Space> s(new Space(c));
    VectorXf a = config(c), b = vec(2, -5000, 5000);
    CSpacePathPtr p = s->createPath(a, b);
    vc_ensure(p->getNrOfPoints() == 2, "start and goal");
    for (int i = 0; i < 2; i++)
    {
        eq(p->getPoint(0)(i), a(i), "from the start");
        eq(p->getPoint(1)(i), b(i), "to the goal");
    }
    float l = -1;
    s->free = vc_case("free", 0, 1);
    CSpacePathPtr u = s->createPathUntilInvalid(a, b, l);
    bool in = s->isInBoundary(b) & s->free;
    vc_ensure(u->getNrOfPoints() == (in ? 2u : 1u), "the goal is part of the path if it is valid");
    vc_ensure(vc_or(in, l < 1), "an incomplete path is shorter");
    vc_ensure(vc_or(!in, l == 1), "a complete path has length 1");
}
// trees
struct Tree
{
    Chain c;
    boost::shared_ptr<Space> s;
    CSpaceTreePtr t;
    std::vector<CSpaceNodePtr> n;
    std::vector<VectorXf> q;
    std::vector<int> parent;          // position of the parent, -1 for roots
    Tree(const char* kind, int nodes, int pool = 6) : c(kind, false)
    {
        s.reset(new Space(c, pool));
        t.reset(new CSpaceTree(s));
        for (int i = 0; i < nodes; i++) add(i ? vc_case("parent", -1, i - 1) : -1);
    }
    void add(int p)
    {
        VectorXf x = config(c);
        n.push_back(t->appendNode(x, p < 0 ? -1 : (int)n[p]->ID));
        q.push_back(x);
        parent.push_back(p);
    }
};
VC_HARNESS(tree_nodes)
{
    Tree t("pp", 3);
    vc_ensure(t.t->getNrOfNodes() == 3, "number of nodes");
    vc_ensure(t.t->getDimension() == 2, "dimension");
    std::vector<CSpaceNodePtr> all = t.t->getNodes();
    for (int i = 0; i < 3; i++)
    {
        vc_ensure(t.t->getNode(t.n[i]->ID) == t.n[i], "found by its ID");
        vc_ensure(t.t->hasNode(t.n[i]), "part of the tree");
        vc_ensure(t.n[i]->parentID == (t.parent[i] < 0 ? -1 : (int)t.n[t.parent[i]]->ID), "parent");
        vc_ensure(t.n[i]->obstacleDistance < 0, "no distance calculated");
        vc_ensure(all[i] == t.n[i], "in the order they were added");
        for (int k = 0; k < 2; k++) eq(t.n[i]->configuration(k), t.q[i](k), "configuration");
    }
    vc_ensure(t.t->getLastAddedNode() == t.n[2], "last node");
    CSpaceNodePtr other = t.s->createNewNode();
    vc_ensure(!t.t->hasNode(other), "a node of the space is not a node of the tree");
    vc_ensure(!t.t->getNode(other->ID), "a node of the space is not a node of the tree");
    int k = vc_case("k", 0, 2);
    t.t->removeNode(t.n[k]);
    vc_ensure(t.t->getNrOfNodes() == 2, "one node less");
    vc_ensure(!t.t->hasNode(t.n[k]), "removed");
    vc_ensure(!t.n[k]->allocated, "given back to the space");
    for (int i = 0; i < 3; i++) if (i != k) vc_ensure(t.t->getNode(t.n[i]->ID) == t.n[i], "the others stay");
    t.t->reset();
    vc_ensure(t.t->getNrOfNodes() == 0, "no nodes after reset");
    vc_ensure(!t.t->hasNode(t.n[0]), "no nodes after reset");
}
VC_HARNESS(tree_children)
{
    Chain c("p");
    boost::shared_ptr<Space> s(new Space(c));
    CSpaceTreePtr t(new CSpaceTree(s));
    t->setUpdateChildren(true);
    CSpaceNodePtr a = t->appendNode(config(c), -1), b = t->appendNode(config(c), a->ID), d = t->appendNode(config(c), a->ID);
    vc_ensure(a->children.size() == 2, "children of the parent");
    if (a->children.size() == 2) vc_ensure(vc_and(a->children[0] == b, a->children[1] == d), "children of the parent");
    vc_ensure(vc_and(b->children.empty(), d->children.empty()), "leaves");
}
VC_HARNESS(nearest_neighbour)
{
    Tree t("pp", 3);
    VectorXf x = vec(2);
    float d2[3], d = -1;
    for (int i = 0; i < 3; i++) d2[i] = (x(0) - t.q[i](0)) * (x(0) - t.q[i](0)) + (x(1) - t.q[i](1)) * (x(1) - t.q[i](1));
    CSpaceNodePtr n = t.t->getNearestNeighbor(x, &d);
    vc_ensure(bool(n), "there is a nearest node");
    int k = n == t.n[0] ? 0 : n == t.n[1] ? 1 : 2;
    vc_ensure(n == t.n[k], "the nearest node is one of the tree");
    for (int i = 0; i < 3; i++) vc_ensure_le(d2[k], d2[i], "no node is nearer");
    eq(d, vc_sqrt(d2[k]), "distance of the nearest node");
}
VC_HARNESS(nearest_neighbour_around)
{
    Tree t("l", 2);
    VectorXf x = config(t.c);
    float e[2];
    for (int i = 0; i < 2; i++) { e[i] = turn(x(0), t.q[i](0)); e[i] = e[i] < 0 ? -e[i] : e[i]; }
    CSpaceNodePtr n = t.t->getNearestNeighbor(x);
    int k = n == t.n[0] ? 0 : 1;
    vc_ensure(n == t.n[k], "the nearest node is one of the tree");
    for (int i = 0; i < 2; i++) vc_ensure_le(e[k], e[i], "no node is nearer around the circle");
}
// the way from a node to one below it
VC_HARNESS(path_in_tree)
{
    Tree t("p", 4);
    int from = vc_case("from", 0, 3), to = vc_case("to", 0, 3);
    std::vector<int> way;
    int i = to;
    while (i >= 0 && i != from) { way.push_back(i); i = t.parent[i]; }
    bool found = i == from;
    way.push_back(from);
    CSpacePathPtr p(new CSpacePath(t.s));
    p->addPoint(vec(1));
    vc_ensure(t.t->createPath(t.n[from], t.n[to], p) == found, "a path exists if the goal is below the start");
    if (!found) return;
    vc_ensure(p->getNrOfPoints() == way.size(), "the nodes between start and goal");
    if (p->getNrOfPoints() != way.size()) return;
    float l = 0;
    for (size_t k = 0; k < way.size(); k++)
    {
        eq(p->getPoint(k)(0), t.q[way[way.size() - 1 - k]](0), "in their order");
        if (k)
        {
            float d = t.q[way[k]](0) - t.q[way[k - 1]](0);
            l += vc_sqrt(d * d);
        }
    }
    eq(t.t->getPathDist(t.n[from]->ID, t.n[to]->ID, true), l, "length of the way");
}
VC_HARNESS(length_of_tree)
{
    Tree t("pp", 3);
    VectorXf w = vec(2, 0.1f, 10);
    bool weighted = vc_case("weighted", 0, 1), use = vc_case("use", 0, 1);
    if (weighted) t.s->setMetricWeights(w);
    float l = 0;
    for (int i = 0; i < 3; i++) if (t.parent[i] >= 0)
    {
        float s = 0;
        for (int k = 0; k < 2; k++)
        {
            float d = t.q[i](k) - t.q[t.parent[i]](k);
            s += weighted && use ? w(k) * w(k) * d * d : d * d;
        }
        l += vc_sqrt(s);
    }
    eq(t.t->getTreeLength(use), l, "sum of the lengths of the edges");
}
// appending the points of a path below a node
VC_HARNESS(append_path)
{
    Tree t("p", 2);
    int at = vc_case("at", 0, 1), k = vc_case("k", 0, 3), last = -5;
    CSpacePathPtr p(new CSpacePath(t.s));
    std::vector<VectorXf> x;
    for (int i = 0; i < k; i++) { x.push_back(config(t.c)); p->addPoint(x[i]); }
    vc_ensure(t.t->appendPath(t.n[at], p, &last), "appended");
    vc_ensure(t.t->getNrOfNodes() == unsigned(2 + k), "one node for each point");
    std::vector<CSpaceNodePtr> n = t.t->getNodes();
    int parent = t.n[at]->ID;
    for (int i = 0; i < k; i++)
    {
        eq(n[2 + i]->configuration(0), x[i](0), "configurations of the path");
        vc_ensure(n[2 + i]->parentID == parent, "each node below the one before");
        parent = n[2 + i]->ID;
    }
    vc_ensure(last == parent, "the last node is reported");
}
