// VC-PROPERTY: C23
// VC-TU: %robot VirtualRobot/Trajectory.cpp MotionPlanning/CSpace/CSpace.cpp MotionPlanning/CSpace/CSpaceNode.cpp MotionPlanning/CSpace/CSpacePath.cpp MotionPlanning/CSpace/CSpaceTree.cpp MotionPlanning/CSpace/CSpaceSampled.cpp MotionPlanning/CSpace/Sampler.cpp MotionPlanning/CSpace/ConfigurationConstraint.cpp VirtualRobot/CollisionDetection/CDManager.cpp
// VC-FLAGS: -fno-access-control
// VC-OPT: loop_bound=1100 merge=0
// Sampled paths: validity of the way between two configurations, sampled paths, copies of spaces
#include "cspace.h"

// a sampled space with arbitrary validity of configurations; remembers what has been asked
struct Sampled : public CSpaceSampled
{
    std::vector<VectorXf> asked;
    std::vector<bool> answer;
    std::vector<VectorXf> from, to;      // validity of a way: contract of the recursive calls
    std::vector<bool> way;
    bool recursive;
    Sampled(const Chain& c) : CSpaceSampled(c.r, CDManagerPtr(), c.set, 5), recursive(false) {}
    bool isConfigValid(const VectorXf& q, bool, bool, bool) override
    {
        asked.push_back(q);
        bool r = vc_case("valid", 0, 1);
        answer.push_back(r);
        return r;
    }
    bool isPathValid(const VectorXf& a, const VectorXf& b) override
    {
        if (!recursive) return CSpaceSampled::isPathValid(a, b);
        from.push_back(a);
        to.push_back(b);
        bool r = vc_case("way", 0, 1);
        way.push_back(r);
        return r;
    }
};
static float dist(const VectorXf& a, const VectorXf& b)
{
    float d = 0;
    for (int i = 0; i < a.rows(); i++) d += (a(i) - b(i)) * (a(i) - b(i));
    return vc_sqrt(d);
}
// A way is split into halves until its length is within the sampling size. The recursive calls are
// replaced by this contract, so the decision holds for any length.
static void way(const char* kind)
{
    Chain c(kind, false);
    Sampled s(c);
    int dim = c.n.size();
    float size = vc_nondet_range("size", 0.01f, 10);
    s.setSamplingSizeDCD(size);
    eq(s.getSamplingSizeDCD(), size, "sampling size");
    VectorXf a = vec(dim), b = vec(dim);
    float d = dist(a, b);
    vc_assume(vc_or(d <= size, d >= size * 1.01f));       // leave the tolerance of the comparison open
    s.recursive = true;
    bool r = s.CSpaceSampled::isPathValid(a, b);
    if (d <= size)
    {
        vc_ensure(s.from.empty(), "short ways are not split");
        vc_ensure(s.asked.size() == 1, "the end of a short way is checked");
        if (s.asked.size() == 1)
        {
            for (int i = 0; i < dim; i++) eq(s.asked[0](i), b(i), "the end of a short way is checked");
            vc_ensure(r == s.answer[0], "a short way is valid if its end is");
        }
        return;
    }
    vc_ensure(s.asked.empty(), "long ways are split");
    vc_ensure(s.from.size() >= 1 && s.from.size() <= 2, "two halves");
    bool ok = true;
    for (size_t k = 0; k < s.from.size(); k++)
    {
        ok = ok && s.way[k];
        for (int i = 0; i < dim; i++)
        {
            eq(s.from[k](i), k == 0 ? a(i) : (a(i) + b(i)) / 2, "a half starts at the start or in the middle");
            eq(s.to[k](i), k == 1 ? b(i) : (a(i) + b(i)) / 2, "a half ends in the middle or at the end");
        }
    }
    vc_ensure(r == (ok && s.from.size() == 2), "valid if both halves are");
    vc_ensure(s.recursiveTmpValuesIndex == 0, "temporaries are given back");
}
VC_HARNESS(way_one) { way("p"); }
VC_HARNESS(way_two) { way("pr"); }
VC_HARNESS(way_stopped)
{
    Chain c("p", false);
    Sampled s(c);
    s.stopPathCheck = true;
    vc_ensure(!s.CSpaceSampled::isPathValid(vec(1), vec(1)), "not valid when stopped");
    vc_ensure(s.asked.empty(), "nothing is checked when stopped");
}
// three levels of the recursion itself, one joint
VC_HARNESS(way_unrolled)
{
    Chain c("p", false);
    Sampled s(c);
    float size = vc_nondet_range("size", 0.01f, 10);
    s.setSamplingSizeDCD(size);
    VectorXf a = vec(1), b = vec(1);
    float d = dist(a, b);
    vc_assume(d <= 4 * size);
    bool r = s.isPathValid(a, b), all = true;
    float at = a(0);
    for (size_t i = 0; i < s.asked.size(); i++)
    {
        all = all && s.answer[i];
        float x = s.asked[i](0) - at;
        vc_ensure_le(vc_sqrt(x * x), size * 1.001f, "configurations checked are not further apart than the sampling size");
        at = s.asked[i](0);
    }
    vc_ensure(r == all, "valid if all samples are");
    if (r) eq(at, b(0), "the end is checked");
}
// sampled way without checks
VC_HARNESS(sampled_path)
{
    Chain c("p", false);
    boost::shared_ptr<Sampled> s(new Sampled(c));
    float size = vc_nondet_range("size", 0.01f, 10);
    s->setSamplingSize(size);
    VectorXf a = vec(1), b = vec(1);
    float d = dist(a, b);
    vc_assume(d <= 3 * size);
    vc_assume(vc_or(d == 0, d >= 0.0001f));
    CSpacePathPtr p = s->createPath(a, b);
    int n = p->getNrOfPoints();
    vc_ensure(p->getCSpace() == s, "path in this space");
    vc_ensure(n >= (d == 0 ? 1 : 2), "start and end");
    eq(p->getPoint(0)(0), a(0), "from the start");
    float rest = p->getPoint(n - 1)(0) - b(0);
    vc_ensure_le(vc_sqrt(rest * rest), 0.000001f, "to the end");
    float l = 0;
    for (int i = 0; i + 1 < n; i++)
    {
        float x = dist(p->getPoint(i), p->getPoint(i + 1));
        vc_ensure_le(x, size * 1.05f, "not further apart than the sampling size");
        l += x;
    }
    vc_ensure_le(l, d, "straight");
    vc_ensure(s->asked.empty(), "nothing is checked");
}
VC_HARNESS(sampled_path_step)
{
    // the first step of a long way goes straight towards its end
    Chain c("pr", false);
    boost::shared_ptr<Sampled> s(new Sampled(c));
    float size = vc_nondet_range("size", 0.01f, 10);
    s->setSamplingSize(size);
    VectorXf a = vec(2), b = vec(2);
    float d = dist(a, b);
    vc_assume(vc_and(d >= 0.0001f, d <= 2 * size));
    vc_assume(vc_or(d < size, d > size + 0.00001f));
    if (d >= size)
    {
        VectorXf m(2);
        for (int i = 0; i < 2; i++) m(i) = a(i) + (b(i) - a(i)) * (size / d);
        float d2 = 0;
        for (int i = 0; i < 2; i++) d2 += (m(i) - b(i)) * (m(i) - b(i));
        vc_assert_lemma(d2 == (d - size) * (d - size), "rest of the way, squared");
        vc_assert_lemma(dist(m, b) == d - size, "rest of the way");
    }
    CSpacePathPtr p = s->createPath(a, b);
    int n = p->getNrOfPoints();
    if (d < size) { vc_ensure(n == 2, "short ways are not split"); return; }
    vc_ensure(n == 3, "steps of the sampling size");
    for (int i = 0; i < 2; i++)
    {
        eq(p->getPoint(1)(i), a(i) + (b(i) - a(i)) * size / d, "a step of the sampling size on the straight way");
        eq(p->getPoint(n - 1)(i), b(i), "to the end");
    }
}
// sampled way until a configuration is invalid
static void checked(boost::shared_ptr<Sampled> s, const CSpacePathPtr& p, const VectorXf& a, const VectorXf& b, float size, float stored, int n)
{
    int k = s->asked.size();
    eq(p->getPoint(0)(0), a(0), "from the start");
    float at = a(0);
    bool all = true;
    for (int i = 0; i < k; i++)
    {
        float x = s->asked[i](0) - at;
        vc_ensure_le(vc_sqrt(x * x), size, "configurations checked are not further apart than the sampling size");
        at = s->asked[i](0);
        vc_ensure(all, "nothing is checked behind an invalid configuration");
        all = all && s->answer[i];
    }
    for (int i = 1; i < n; i++)
    {
        float x = p->getPoint(i)(0);
        bool found = false;
        for (int j = 0; j < k; j++) found = found | vc_and(s->answer[j], s->asked[j](0) == x);
        vc_ensure(found, "points of the path have been checked");
    }
    bool complete = p->getPoint(n - 1)(0) == b(0);
    vc_ensure(vc_implies(all, complete), "complete if all samples are valid");
    vc_ensure(vc_implies(all, stored == 1), "whole length if all samples are valid");
    vc_ensure(vc_implies(!all, stored < 1), "not the whole length if a sample is invalid");
    vc_ensure(stored >= 0, "part of the length");
}
VC_HARNESS(path_until_invalid)
{
    Chain c("p", false);
    boost::shared_ptr<Sampled> s(new Sampled(c));
    float size = vc_nondet_range("size", 0.01f, 10), path = vc_nondet_range("path", 0.01f, 20);
    s->setSamplingSizeDCD(size);
    s->setSamplingSize(path);
    eq(s->getSamplingSize(), path, "sampling size of paths");
    VectorXf a = vec(1), b = vec(1);
    float d = dist(a, b), stored = -1;
    vc_assume(d <= 3 * size);
    CSpacePathPtr p = s->createPathUntilInvalid(a, b, stored);
    int n = p->getNrOfPoints();
    vc_ensure(vc_and(n >= 1, n <= 4), "at least the start");
    if (n == 1) checked(s, p, a, b, size, stored, 1);
    else if (n == 2) checked(s, p, a, b, size, stored, 2);
    else if (n == 3) checked(s, p, a, b, size, stored, 3);
    else if (n == 4) checked(s, p, a, b, size, stored, 4);
}
VC_HARNESS(copy_of_a_space)
{
    Chain c("pr");
    boost::shared_ptr<Sampled> s(new Sampled(c));
    float size = vc_nondet_range("size", 0.01f, 10), path = vc_nondet_range("path", 0.01f, 20);
    s->setSamplingSizeDCD(size);
    s->setSamplingSize(path);
    VectorXf lo = vec(2, -100, 0), hi = vec(2, 0, 100), w = vec(2);
    s->setBoundaries(lo, hi);
    bool weighted = vc_case("weighted", 0, 1);
    if (weighted) s->setMetricWeights(w);
    Chain other("pr");
    other.r->registerRobotNodeSet(other.set);
    CDManagerPtr cdm(new CDManager(other.r->getCollisionChecker()));
    CSpacePtr k = s->CSpaceSampled::clone(other.r->getRootNode()->getCollisionChecker(), other.r, cdm, 0);
    vc_ensure(bool(k), "copied");
    CSpaceSampledPtr t = boost::dynamic_pointer_cast<CSpaceSampled>(k);
    vc_ensure(bool(t), "a sampled space");
    eq(t->getSamplingSizeDCD(), size, "same sampling size");
    eq(t->getSamplingSize(), path, "same sampling size of paths");
    vc_ensure(t->getRobot() == other.r, "for the robot given");
    vc_ensure(t->getRobotNodeSet() == other.set, "for the joints of the robot given");
    vc_ensure(t->maxNodes == s->maxNodes, "as many nodes");
    for (int i = 0; i < 2; i++)
    {
        eq(t->getBoundaryMin(i), lo(i), "same boundaries");
        eq(t->getBoundaryMax(i), hi(i), "same boundaries");
        eq(t->getMetricWeights()(i), weighted ? w(i) : 1, "same weights");
    }
    VectorXf x = vec(2), y = vec(2);
    float d = 0;
    for (int i = 0; i < 2; i++) d += (weighted ? w(i) * w(i) : 1) * (x(i) - y(i)) * (x(i) - y(i));
    eq(t->calcDist2(x, y), d, "same metric");
}
