// VC-PROPERTY: C23
// VC-TU: %robot VirtualRobot/Trajectory.cpp MotionPlanning/CSpace/CSpace.cpp MotionPlanning/CSpace/CSpaceNode.cpp MotionPlanning/CSpace/CSpacePath.cpp MotionPlanning/CSpace/CSpaceTree.cpp MotionPlanning/CSpace/CSpaceSampled.cpp MotionPlanning/CSpace/Sampler.cpp MotionPlanning/CSpace/ConfigurationConstraint.cpp MotionPlanning/PostProcessing/PathProcessor.cpp MotionPlanning/PostProcessing/ShortcutProcessor.cpp MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
// VC-FLAGS: -fno-access-control
// VC-OPT: loop_bound=1100 merge=0
// VC-ASSUME: rand() returns any non-negative integer below 2^20; the collision checker returns any distance and any pair of points
// Shortening and pruning of paths, forces of the elastic band
#include "cspace.h"
#include "MotionPlanning/PostProcessing/ShortcutProcessor.h"
#include "MotionPlanning/PostProcessing/ElasticBandProcessor.h"

VC_STUB("rand")
int stub_rand() { return vc_fresh_int("rand") & 0xfffff; }
VC_STUB("clock")
long stub_clock() { return 0; }

// The distance of two configurations is any non-negative number (its own contract: configuration space checks).
static float dists[6][6];
VC_MOCK("Saba::CSpace::calcDist(Eigen::Matrix<float, -1, 1, 0, -1, 1> const&, Eigen::Matrix<float, -1, 1, 0, -1, 1> const&, bool)")
float stub_dist(CSpace*, const VectorXf& a, const VectorXf& b, bool plain)
{
    int i = int(a(1)), k = int(b(1));
    return plain || i < 0 || k < 0 || i > 5 || k > 5 ? -1000 : dists[i][k];
}
VC_MOCK("Saba::CSpace::calcDist2(Eigen::Matrix<float, -1, 1, 0, -1, 1> const&, Eigen::Matrix<float, -1, 1, 0, -1, 1> const&, bool)")
float stub_dist2(CSpace*, const VectorXf& a, const VectorXf& b, bool plain) { float d = stub_dist(0, a, b, plain); return d * d; }
// Points of the path are numbered by their second value: ways and sampled paths are recorded by these numbers.
struct Sampled : public CSpaceSampled
{
    std::vector<std::pair<int, int> > valid;      // ways found to be valid
    int asked, between;                           // points a sampled path has between its ends
    Sampled(const Chain& c) : CSpaceSampled(c.r, CDManagerPtr(), c.set, 5), asked(0), between(0) {}
    bool isPathValid(const VectorXf& a, const VectorXf& b) override
    {
        asked++;
        if (!vc_case("valid", 0, 1)) return false;
        valid.push_back(std::make_pair(int(a(1)), int(b(1))));
        return true;
    }
    bool ok(int a, int b)
    {
        for (size_t i = 0; i < valid.size(); i++) if (valid[i].first == a && valid[i].second == b) return true;
        return false;
    }
    CSpacePathPtr createPath(const VectorXf& a, const VectorXf& b) override
    {
        CSpacePathPtr p(new CSpacePath(shared_from_this()));
        p->addPoint(a);
        for (int i = 0; i < between; i++)
        {
            VectorXf m(2);
            m(0) = 1000 + i;
            m(1) = 100 + i;
            p->addPoint(m);
        }
        p->addPoint(b);
        return p;
    }
};
struct Short
{
    Chain c;
    boost::shared_ptr<Sampled> s;
    CSpacePathPtr p;
    boost::shared_ptr<ShortcutProcessor> x;
    std::vector<float> v;
    Short() : c("pp", false)
    {
        s.reset(new Sampled(c));
        p.reset(new CSpacePath(s));
    }
    void points(int n)
    {
        for (int i = 0; i < n; i++)
        {
            VectorXf q(2);
            q(0) = vc_nondet_range("x", -1000, 1000);
            q(1) = i;
            v.push_back(q(0));
            p->addPoint(q);
        }
        x.reset(new ShortcutProcessor(p, s));
    }
    // the path given is not changed
    void kept()
    {
        vc_ensure(p->getNrOfPoints() == v.size(), "the path given is not changed");
        for (size_t i = 0; i < v.size() && i < p->getNrOfPoints(); i++) eq(p->getPoint(i)(0), v[i], "the path given is not changed");
    }
};
VC_HARNESS(shortcut)
{
    Short s;
    int n = vc_case("n", 2, 5), a = vc_case("a", 0, 4), b = vc_case("b", 0, 5);
    if (a >= b) return;
    s.points(n);
    s.s->between = vc_case("between", 0, 2);
    int r = s.x->doShortcut(a, b);
    s.kept();
    if (b >= n)
    {
        vc_ensure(r == 0, "nothing to do for points that do not exist");
        return;
    }
    CSpacePathPtr o = s.x->getOptimizedPath();
    std::vector<int> e;
    for (int i = 0; i <= a; i++) e.push_back(i);
    for (int i = 0; i < s.s->between; i++) e.push_back(100 + i);
    for (int i = b; i < n; i++) e.push_back(i);
    vc_ensure(o->getNrOfPoints() == e.size(), "the part between is replaced by the direct way");
    for (size_t i = 0; i < e.size() && i < o->getNrOfPoints(); i++) vc_ensure(o->getPoint(i)(1) == e[i], "the part between is replaced by the direct way");
    vc_ensure(r == n - (int)e.size(), "number of points saved");
}
VC_HARNESS(shortcut_is_valid)
{
    Short s;
    int n = vc_case("n", 3, 4), a = vc_case("a", 0, 1), b = vc_case("b", 2, 3);
    if (b >= n || a + 2 > b) return;
    s.points(n);
    float l = 0;
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) dists[i][k] = vc_nondet_range("d", 0, 100);
    for (int i = a; i < b; i++) l += dists[i][i + 1];
    bool r = s.x->validShortcut(a, b);
    s.kept();
    vc_ensure(s.s->asked <= 1, "one way is checked");
    vc_ensure((s.s->asked == 1) == (dists[a][b] < 0.99f * l), "the direct way is checked if it is shorter");
    vc_ensure(r == s.s->ok(a, b), "a shortcut is valid if the direct way is");
}
VC_HARNESS(pruning)
{
    Short s;
    int n = vc_case("n", 0, 5);
    s.points(n);
    s.x->doPathPruning();
    s.kept();
    CSpacePathPtr o = s.x->getOptimizedPath();
    int m = o->getNrOfPoints(), at = -1;
    vc_ensure(m >= (n < 2 ? n : 2), "the ends are kept");
    if (n == 0) return;
    vc_ensure(o->getPoint(0)(1) == 0, "the ends are kept");
    vc_ensure(o->getPoint(m - 1)(1) == n - 1, "the ends are kept");
    for (int i = 0; i < m; i++)
    {
        int k = int(o->getPoint(i)(1));
        eq(o->getPoint(i)(0), s.v[k], "points of the path given");
        vc_ensure(k > at, "in the same order");
        vc_ensure(i == 0 || k == at + 1 || s.s->ok(at, k), "points are left out if the way without them is valid");
        at = k;
    }
}
VC_HARNESS(pruning_of_a_free_way)
{
    // everything valid: the direct way remains
    int n = vc_case("n", 2, 5);
    struct Free : public Sampled { Free(const Chain& c) : Sampled(c) {} bool isPathValid(const VectorXf&, const VectorXf&) override { return true; } };
    Chain c("pp", false);
    boost::shared_ptr<Free> f(new Free(c));
    CSpacePathPtr p(new CSpacePath(f));
    for (int i = 0; i < n; i++) { VectorXf q(2); q(0) = 0; q(1) = i; p->addPoint(q); }
    ShortcutProcessor x(p, f);
    x.doPathPruning();
    vc_ensure(x.getOptimizedPath()->getNrOfPoints() == 2, "the direct way remains if everything is valid");
}
VC_HARNESS(random_candidates)
{
    Short s;
    int n = vc_case("n", 0, 6), most = vc_case("most", 0, 4), a = -9, b = -9;
    s.points(n);
    bool r = s.x->selectCandidatesRandom(a, b, most);
    vc_ensure(r == (n > 2), "there are candidates if there is a point between");
    if (!r) return;
    vc_ensure(a >= 0, "a point of the path");
    vc_ensure(b < n, "a point of the path");
    vc_ensure(b - a >= 2, "points between");
    vc_ensure(b - a <= (most < 2 ? 2 : most) + 1, "not too far away");
}
VC_HARNESS(random_shortcuts)
{
    Short s;
    int n = vc_case("n", 2, 4), loops = vc_case("loops", 0, 2);
    s.points(n);
    CSpacePathPtr o = s.x->optimize(loops);
    s.kept();
    int m = o->getNrOfPoints(), at = 0;
    vc_ensure(m >= 2, "the ends are kept");
    vc_ensure(o->getPoint(0)(1) == 0, "the ends are kept");
    vc_ensure(o->getPoint(m - 1)(1) == n - 1, "the ends are kept");
    for (int i = 1; i < m; i++)
    {
        int k = int(o->getPoint(i)(1));
        vc_ensure(k == at + 1 || s.s->ok(at, k), "parts are replaced by valid ways only");
        at = k;
    }
}

// Elastic band
static float obst_d = 0, obst_p[6];
VC_MOCK("VirtualRobot::CollisionChecker::calculateDistance(boost::shared_ptr<VirtualRobot::CollisionModel>, boost::shared_ptr<VirtualRobot::SceneObjectSet>, Eigen::Matrix<float, 3, 1, 0, 3, 1>&, Eigen::Matrix<float, 3, 1, 0, 3, 1>&, int*, int*)")
float stub_obst(CollisionChecker*, CollisionModelPtr, SceneObjectSetPtr, Vector3f& a, Vector3f& b, int*, int*)
{
    for (int i = 0; i < 3; i++) { a(i) = obst_p[i]; b(i) = obst_p[3 + i]; }
    return obst_d;
}
struct Band : public Short
{
    boost::shared_ptr<ElasticBandProcessor> e;
    Band(int n)
    {
        points(n);
        SceneObjectSetPtr o(new SceneObjectSet("o"));
        e.reset(new ElasticBandProcessor(p, s, c.set->getNode(0), o));
    }
};
VC_HARNESS(neighbour_force)
{
    Band b(2);
    float k = b.e->factorCSpaceNeighborForce = vc_nondet_range("factor", 0, 10), m = b.e->maxCSpaceNeighborForce = vc_nondet_range("max", 0, 100);
    VectorXf p[3], f;
    float e[2];
    for (int i = 0; i < 3; i++) { p[i].resize(2); for (int j = 0; j < 2; j++) p[i](j) = vc_nondet_range("x", -100, 100); }
    for (int j = 0; j < 2; j++) e[j] = k * ((p[0](j) - p[1](j)) + (p[2](j) - p[1](j))) / 2;
    float l = std::sqrt(e[0] * e[0] + e[1] * e[1]);
    vc_assume(std::fabs(l - m) > 1e-3f);
    vc_ensure(b.e->getNeighborCForce(p[0], p[1], p[2], f), "there is a force");
    vc_ensure(f.size() == 2, "a force for every joint");
    for (int j = 0; j < 2; j++)
        if (l < m) eq(f(j), e[j], "towards the middle of the neighbours");
        else eq(f(j) * l, e[j] * m, "limited force");
}
VC_HARNESS(obstacle_force)
{
    Band b(2);
    obst_d = vc_nondet_range("d", 0, 1000);
    for (int i = 0; i < 6; i++) obst_p[i] = vc_nondet_range("p", -100, 100);
    float m = b.e->minObstacleDistance = vc_nondet_range("mind", 0, 500), l = 0;
    for (int i = 0; i < 3; i++) l += (obst_p[i] - obst_p[3 + i]) * (obst_p[i] - obst_p[3 + i]);
    l = std::sqrt(l);
    vc_assume(l > 0.01f && std::fabs(obst_d - m) > 1e-3f);
    bool none = vc_case("none", 0, 1);
    if (none) b.e->obstacles.reset();
    Vector3f f;
    bool r = b.e->getObstacleForce(f);
    vc_ensure(r == (none || obst_d > m || obst_d != 0), "no force in collision");
    if (!r) return;
    for (int i = 0; i < 3; i++)
        if (none || obst_d > m) eq(f(i), 0, "no force far away from obstacles");
        else eq(f(i) * obst_d * l, obst_p[i] - obst_p[3 + i], "away from the obstacle, the stronger the nearer it is");
}
VC_HARNESS(band_removes_points)
{
    int n = vc_case("n", 2, 5);
    Band b(n);
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) dists[i][k] = vc_nondet_range("d", 0, 100);
    b.e->optimizedPath = b.p->clone();
    vc_ensure(b.e->checkRemoveNodes(), "points can be removed");
    b.kept();
    CSpacePathPtr o = b.e->optimizedPath;
    int m = o->getNrOfPoints(), at = 0;
    vc_ensure(m >= (n < 3 ? n : 2), "the ends are kept");
    vc_ensure(o->getPoint(0)(1) == 0, "the ends are kept");
    vc_ensure(o->getPoint(m - 1)(1) == n - 1, "the ends are kept");
    for (int i = 1; i < m; i++)
    {
        int k = int(o->getPoint(i)(1));
        vc_ensure(k > at, "in the same order");
        eq(o->getPoint(i)(0), b.v[k], "points of the path given");
        at = k;
    }
}
