// VC-PROPERTY: C11
// VC-OPT: merge=0
// VC-TU: %robot VirtualRobot/Trajectory.cpp MotionPlanning/CSpace/CSpace.cpp MotionPlanning/CSpace/CSpaceNode.cpp MotionPlanning/CSpace/CSpacePath.cpp MotionPlanning/CSpace/CSpaceTree.cpp MotionPlanning/CSpace/CSpaceSampled.cpp MotionPlanning/CSpace/Sampler.cpp MotionPlanning/CSpace/ConfigurationConstraint.cpp
// VC-FLAGS: -fno-access-control
// Paths in configuration space: length, position for a time, time of a point, copies
#include "cspace.h"

// The distance of two configurations is any non-negative number (its own contract: configuration space checks).
// The second value of every configuration of a path is its position in the path.
struct Dists
{
    float d[4];        // weighted length of the segments
    float u[4];        // plain length
    bool good;
};
static Dists* dists;
VC_MOCK("Saba::CSpace::calcDist(Eigen::Matrix<float, -1, 1, 0, -1, 1> const&, Eigen::Matrix<float, -1, 1, 0, -1, 1> const&, bool)")
float stub_dist(CSpace*, const VectorXf& a, const VectorXf& b, bool plain)
{
    int i = int(a(1));
    dists->good = dists->good && int(b(1)) == i + 1;
    return plain ? dists->u[i] : dists->d[i];
}
struct Way
{
    Chain c;
    boost::shared_ptr<Space> s;
    CSpacePathPtr p;
    std::vector<float> x;
    Dists d;
    int n;
    Way(const char* kind, int n, bool positive = false) : c(kind, false), n(n)
    {
        s.reset(new Space(c));
        p.reset(new CSpacePath(s, "path"));
        dists = &d;
        d.good = true;
        for (int i = 0; i < n; i++)
        {
            VectorXf q(2);
            q(0) = vc_nondet_range("x", c.lo[0], c.hi[0]);
            q(1) = i;
            x.push_back(q(0));
            p->addPoint(q);
            d.d[i] = vc_nondet_range("d", positive ? 0.01f : 0, 100);
            d.u[i] = vc_nondet_range("u", positive ? 0.01f : 0, 100);
        }
    }
    float before(int k) { float l = 0; for (int i = 0; i < k; i++) l += d.d[i]; return l; }
};
VC_HARNESS(path_length)
{
    int n = vc_case("n", 1, 4);
    Way w("pp", n);
    float l = 0, u = 0;
    for (int i = 0; i + 1 < n; i++) { l += w.d.d[i]; u += w.d.u[i]; }
    eq(w.p->getLength(), l, "length with the weights of the space");
    eq(w.p->getLength(true), l, "length with the weights of the space");
    eq(w.p->getLength(false), u, "length without weights");
    int a = vc_case("a", 0, 3), b = vc_case("b", 0, 4);
    bool valid = a <= b && b < n;
    float pl = 0, pu = 0;
    for (int i = a; i < b && valid; i++) { pl += w.d.d[i]; pu += w.d.u[i]; }
    eq(w.p->getLength(a, b), pl, "length of a part");
    eq(w.p->getLength(a, b, false), pu, "length of a part without weights");
    const Trajectory& t = *w.p;
    eq(t.getLength(), l, "the same length as a trajectory");
    vc_ensure(w.d.good, "consecutive points");
}
VC_HARNESS(length_of_no_points)
{
    Way w("pp", 0);
    eq(w.p->getLength(), 0, "no points, no length");
}
VC_HARNESS(time_of_points)
{
    int n = vc_case("n", 2, 4), k = vc_case("k", 0, 4);
    Way w("pp", n, true);
    eq(w.p->getTime(k) * w.before(n - 1), w.before(k < n ? k : n - 1), "part of the length up to the point");
    vc_ensure(w.d.good, "consecutive points");
}
// position after a part t of the length, measured with the metric of the space
static void position(int n, const char* kind, bool positive)
{
    Way w(kind, n, positive);
    float t = vc_nondet_range("t", 0, 1);
    VectorXf q;
    int seg = -7;
    w.p->interpolate(t, q, &seg);
    vc_ensure(q.rows() == 2, "dimension");
    vc_ensure(vc_and(seg >= 0, seg < n), "index of a point");
    float l = w.before(n - 1), done = t * l;
    if (t == 1)
    {
        vc_ensure(seg == n - 1, "the last point at the end");
        eq(q(0), w.x[n - 1], "the last point at the end");
        eq(q(1), n - 1, "the last point at the end");
        return;
    }
    if (t == 0)
    {
        vc_ensure(seg == 0, "the first point at the start");
        eq(q(0), w.x[0], "the first point at the start");
        eq(q(1), 0, "the first point at the start");
        return;
    }
    if (n == 1) { eq(q(0), w.x[0], "the only point"); eq(q(1), 0, "the only point"); return; }
    vc_ensure_le(w.before(seg), done, "the segment starts before the position");
    vc_ensure_le(done, w.before(seg + 1), "the segment ends behind the position");
    float f = q(1) - seg;
    vc_ensure(vc_and(f >= 0, f <= 1), "position on the segment");
    eq(f * w.d.d[seg], done - w.before(seg), "position on the segment");
    float dx = w.x[seg + 1] - w.x[seg];
    if (!vc_symbolic() && std::fabs(std::fabs(dx) - vc_pi()) < 0.001) return;      // rounding decides natively
    if (kind[0] == 'l') dx = dx > vc_pi() ? dx - 2 * vc_pi() : dx < -vc_pi() ? dx + 2 * vc_pi() : dx;
    eq(q(0), w.x[seg] + f * dx, "straight from point to point");
    vc_ensure(w.d.good, "consecutive points");
    VectorXf q2;
    w.p->interpolate(t, q2);
    for (int i = 0; i < 2; i++) eq(q2(i), q(i), "the index is optional");
}
VC_HARNESS(position_one) { position(1, "pp", true); }
VC_HARNESS(position_two) { position(2, "pp", false); }
VC_HARNESS(position_three) { position(3, "pp", false); }
VC_HARNESS(position_four) { position(4, "pp", true); }
VC_HARNESS(position_around) { position(3, "lp", true); }
VC_HARNESS(position_outside)
{
    int n = vc_case("n", 1, 3);
    Way w("pp", n, true);
    float t = vc_nondet_range("t", -10, 10);
    vc_assume(vc_or(t < 0, t > 1));
    VectorXf q;
    int seg = -7, e = t < 0 ? 0 : n - 1;
    w.p->interpolate(t, q, &seg);
    eq(q(0), w.x[e], "the nearer end for times outside of [0,1]");
    vc_ensure(seg == e, "the nearer end for times outside of [0,1]");
}
VC_HARNESS(copy_of_a_path)
{
    int n = vc_case("n", 0, 3);
    Way w("pp", n);
    CSpacePathPtr c = w.p->clone();
    vc_ensure(c->getNrOfPoints() == unsigned(n), "same number of points");
    if (n) w.p->getPointRef(0)(0) = 77;
    for (int i = 0; i < n; i++)
    {
        eq(c->getPoint(i)(0), w.x[i], "same points, independent of the original");
        eq(c->getPoint(i)(1), i, "same points");
    }
    vc_ensure(c->getName() == "path", "same name");
    vc_ensure(c->getCSpace() == w.s, "same space");
    vc_ensure(c->getRobotNodeSet() == w.c.set, "same joints");
    vc_ensure(c->getDimension() == 2, "same dimension");
}
VC_HARNESS(workspace_path)
{
    int n = vc_case("n", 1, 2);
    bool own = vc_case("node", 0, 1), excl = vc_case("exclusive", 0, 1);
    Way w("pp", n);
    w.s->exclusiveRobotAccess(excl);
    std::vector<Matrix4f> m = own ? w.p->createWorkspacePath(w.c.n[0]) : w.p->createWorkspacePath();
    vc_ensure(m.size() == unsigned(n), "one pose for each point");
    for (int i = 0; i < n && i < (int)m.size(); i++)
    {
        eq(m[i](0, 3), w.x[i], "pose of the node at the point");
        eq(m[i](1, 3), own ? 0 : i, "pose of the node at the point");
    }
    vc_ensure(w.p->getNrOfPoints() == unsigned(n), "the path is kept");
}
