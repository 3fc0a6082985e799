// VC-PROPERTY: C11
// VC-TU: %robot VirtualRobot/Trajectory.cpp
// Trajectories: list edits, length, interpolation, workspace poses
#include "arm.h"

static RobotNodeSetPtr joints(int n)
{
    RobotPtr r = robot();
    std::vector<RobotNodePtr> ns;
    const char* names[] = {"a", "b", "c"};
    for (int i = 0; i < n; i++)
    {
        ns.push_back(pris(r, names[i], I4(), Vector3f(i == 0, i == 1, i == 2), -1000, 1000));
        if (i) ns[i - 1]->attachChild(ns[i]);
    }
    r->setRootNode(ns[0]);
    static RobotPtr keep;
    keep = r;
    return RobotNodeSet::createRobotNodeSet(r, "set", ns, ns[0], ns[n - 1]);
}
typedef std::vector<VectorXf> Points;
static VectorXf point(int dim)
{
    VectorXf v(dim);
    for (int i = 0; i < dim; i++) v(i) = vc_nondet_range("x", -1000, 1000);
    return v;
}
static Points points(int n, int dim)
{
    Points p;
    for (int i = 0; i < n; i++) p.push_back(point(dim));
    return p;
}
static TrajectoryPtr build(RobotNodeSetPtr s, const Points& p, const char* name = "t")
{
    TrajectoryPtr t(new Trajectory(s, name));
    for (size_t i = 0; i < p.size(); i++) t->addPoint(p[i]);
    return t;
}
// the trajectory consists of exactly these points
static void is(const TrajectoryPtr& t, const Points& p, const char* l)
{
    vc_ensure(t->getNrOfPoints() == p.size(), l);
    vc_ensure(t->getPoints().size() == p.size(), l);
    if (t->getNrOfPoints() != p.size() || t->getPoints().size() != p.size()) return;
    for (size_t i = 0; i < p.size(); i++)
    {
        VectorXf x = t->getPoint(i);
        vc_ensure(x.rows() == p[i].rows(), l);
        for (int k = 0; k < p[i].rows(); k++)
        {
            vc_ensure_eq(x(k), p[i](k), l);
            vc_ensure_eq(t->getData()[i](k), p[i](k), l);
        }
    }
}
VC_HARNESS(points_are_kept)
{
    int n = vc_case("n", 0, 3);
    RobotNodeSetPtr s = joints(2);
    Points p = points(n, 2);
    TrajectoryPtr t = build(s, p);
    vc_ensure(t->getDimension() == 2, "one dimension per joint");
    is(t, p, "the points added are kept in order");
    for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) vc_ensure_eq(t->getPointRef(i)(k), p[i](k), "access by reference");
    // a point past the end
    VectorXf x = t->getPoint(n + vc_case("past", 0, 1));
    for (int k = 0; k < 2; k++) vc_ensure_eq(x(k), n ? p[n - 1](k) : 0.f, "the last point stands for an index past the end");
    t->reset();
    is(t, Points(), "no points after reset");
}
VC_HARNESS(insertion)
{
    int n = vc_case("n", 0, 3), pos = vc_case("pos", 0, 4);
    RobotNodeSetPtr s = joints(2);
    Points p = points(n, 2);
    VectorXf x = point(2);
    TrajectoryPtr t = build(s, p);
    t->insertPosition(pos, x);
    Points m;
    for (int i = 0; i < pos && i < n; i++) m.push_back(p[i]);
    if (pos <= n) m.push_back(x);
    for (int i = pos; i < n; i++) m.push_back(p[i]);
    is(t, m, "insertion before the position given, nothing for a position past the end");
}
VC_HARNESS(insertion_of_several)
{
    int n = vc_case("n", 0, 2), pos = vc_case("pos", 0, 2), k = vc_case("k", 0, 3);
    bool traj = vc_case("trajectory", 0, 1);
    if (pos > n) return;
    RobotNodeSetPtr s = joints(1);
    Points p = points(n, 1), q = points(k, 1);
    TrajectoryPtr t = build(s, p), u = build(s, q);
    Points q2 = q;
    if (traj) t->insertTrajectory(pos, u);
    else t->insertPosition(pos, q2);
    Points m;
    for (int i = 0; i < pos; i++) m.push_back(p[i]);
    for (int i = 0; i < k; i++) m.push_back(q[i]);
    for (int i = pos; i < n; i++) m.push_back(p[i]);
    is(t, m, "the points inserted keep their order");
    is(u, q, "the trajectory inserted is unchanged");
}
VC_HARNESS(removal)
{
    int n = vc_case("n", 0, 3), from = vc_case("from", 0, 3), to = vc_case("to", 0, 3);
    RobotNodeSetPtr s = joints(1);
    Points p = points(n, 1);
    TrajectoryPtr t = build(s, p);
    unsigned c = t->removePositions(from, to);
    bool valid = from < n && to < n && from <= to;
    Points m;
    for (int i = 0; i < n; i++) if (!valid || i < from || i > to) m.push_back(p[i]);
    is(t, m, "exactly the points of the range are removed");
    vc_ensure(c == (valid ? unsigned(to - from + 1) : 0u), "number of points removed");
    TrajectoryPtr u = build(s, p);
    u->erasePosition(from);
    Points m2;
    for (int i = 0; i < n; i++) if (i != from) m2.push_back(p[i]);
    is(u, m2, "exactly the point is erased");
}
VC_HARNESS(copies)
{
    int n = vc_case("n", 0, 3);
    RobotNodeSetPtr s = joints(2);
    Points p = points(n, 2);
    TrajectoryPtr t = build(s, p, "name");
    TrajectoryPtr c = t->clone();
    is(c, p, "the clone has the same points");
    vc_ensure(c->getName() == "name", "and the same name");
    vc_ensure(c->getRobotNodeSet() == s, "and the same joints");
    vc_ensure(c->getDimension() == 2, "and the same dimension");
    t->addPoint(point(2));
    if (n) t->getPointRef(0) = point(2);
    is(c, p, "changes of the original do not reach the clone");
    c->reverse();
    Points q(p.rbegin(), p.rend());
    is(c, q, "reverse");
    c->reverse();
    is(c, p, "reversed twice");
}
VC_HARNESS(parts)
{
    int n = vc_case("n", 0, 3), from = vc_case("from", 0, 3), to = vc_case("to", 0, 3);
    RobotNodeSetPtr s = joints(1);
    Points p = points(n, 1);
    TrajectoryPtr t = build(s, p);
    TrajectoryPtr u = t->createSubPath(from, to);
    Points part, out;
    for (int i = from; i <= to && i < n; i++) part.push_back(p[i]);
    vc_ensure(bool(u) == (from < n && to < n), "a part exists when its ends exist");
    if (u) is(u, part, "the part has the points from start to end");
    out.push_back(point(1));
    VectorXf first = out[0];
    bool ok = t->getPoints(from, to, out);
    vc_ensure(ok == (from <= to && to < n), "points are returned for a valid range");
    if (ok)
    {
        vc_ensure(out.size() == part.size() + 1, "the points of the range are appended");
        if (out.size() == part.size() + 1) for (size_t i = 0; i < part.size(); i++) vc_ensure_eq(out[i + 1](0), part[i](0), "the points of the range are appended");
    }
    else vc_ensure(out.size() == 1, "nothing is appended for an invalid range");
    vc_ensure_eq(out[0](0), first(0), "points already in the list stay");
    is(t, p, "the trajectory is unchanged");
}
static float distance(const VectorXf& a, const VectorXf& b)
{
    float s = 0;
    for (int k = 0; k < a.rows(); k++) s += (a(k) - b(k)) * (a(k) - b(k));
    return vc_sqrt(s);
}
static void length(int n, int dim)
{
    Points p = points(n, dim);
    TrajectoryPtr t = build(joints(dim), p);
    float l = 0;
    for (int i = 0; i + 1 < n; i++) l += distance(p[i], p[i + 1]);
    eq(t->getLength(), l, "the length is the sum of the distances of the points");
}
VC_HARNESS(length_1d) { length(vc_case("n", 0, 4), 1); }
VC_HARNESS(length_3d) { length(vc_case("n", 0, 3), 3); }

// the point that divides the length of the path in the ratio t
static void interpolation(int n, int dim)
{
    Points p = points(n, dim);
    TrajectoryPtr tr = build(joints(dim), p);
    float t = vc_nondet_range("t", 0, 1);
    float d[4], L = 0;
    for (int i = 0; i + 1 < n; i++)
    {
        d[i] = distance(p[i], p[i + 1]);
        vc_assume(d[i] > 0);
        L += d[i];
    }
    int index = -7;
    VectorXf x;
    tr->interpolate(t, x, &index);
    vc_ensure(x.rows() == dim, "dimension of the point");
    if (x.rows() != dim) return;
    int seg = 0;
    float rest = t * L;
    while (seg + 2 < n && rest > d[seg])
    {
        rest -= d[seg];
        seg++;
    }
    for (int k = 0; k < dim; k++) eq(x(k), p[seg](k) + (p[seg + 1](k) - p[seg](k)) * (rest / d[seg]), "the point divides the length of the path in the ratio t");
    vc_ensure(index == (t == 1.f ? n - 1 : seg), "index of the segment");
    is(tr, p, "the trajectory is unchanged");
}
VC_HARNESS(interpolation_two_points) { interpolation(2, 3); }
VC_HARNESS(interpolation_three_points) { interpolation(3, 2); }
VC_HARNESS(interpolation_four_points) { interpolation(4, 2); }

VC_HARNESS(interpolation_ends)
{
    int n = vc_case("n", 1, 3);
    Points p = points(n, 2);
    TrajectoryPtr tr = build(joints(2), p);
    float t = vc_nondet_float("t");
    vc_assume(vc_or(t <= 0, t >= 1));
    int index = -7;
    VectorXf x;
    tr->interpolate(t, x, &index);
    
    for (int k = 0; k < 2; k++) eq(x(k), t <= 0 ? p[0](k) : p[n - 1](k), "the ends stand for every t outside [0,1]");
    vc_ensure(index == (t <= 0 ? 0 : n - 1), "index of the end");
}
// coinciding points
VC_HARNESS(interpolation_without_length)
{
    int n = vc_case("n", 1, 3);
    VectorXf a = point(2);
    Points p(n, a);
    TrajectoryPtr tr = build(joints(2), p);
    float t = vc_nondet_range("t", 0, 1);
    int index = -7;
    VectorXf x;
    tr->interpolate(t, x, &index);
    for (int k = 0; k < 2; k++) eq(x(k), a(k), "a path without length has one point");
    vc_ensure(vc_and(index >= 0, index < n), "the index is one of the path");
}
VC_HARNESS(robot_follows)
{
    Points p = points(2, 2);
    RobotNodeSetPtr s = joints(2);
    TrajectoryPtr tr = build(s, p);
    float t = vc_nondet_range("t", 0, 1);
    vc_assume(distance(p[0], p[1]) > 0);
    s->getRobot()->setJointValues(tr, t);
    for (int k = 0; k < 2; k++) eq(s->getNode(k)->getJointValue(), p[0](k) + (p[1](k) - p[0](k)) * t, "joint values at t");
}
// the poses of the tool along the trajectory; the robot stays as it was
static void workspace(bool given)
{
    Arm m(false);
    float qb = vc_nondet_range("qb", -3, 3), qc = vc_nondet_range("qc", -1000, 1000), qd = vc_nondet_range("qd", -3, 3);
    VectorXf x(3);
    x(0) = qb; x(1) = qc; x(2) = qd;
    Points p(1, x);
    p.push_back(Vector3f(0, 0, 0));
    TrajectoryPtr tr = build(m.set, p);
    std::vector<Matrix4f> w = given ? tr->createWorkspaceTrajectory(m.d) : tr->createWorkspaceTrajectory();
    vc_ensure(w.size() == 2, "one pose for each point");
    if (w.size() != 2) return;
    eq(m.b->getJointValue(), m.qb, "joint values are restored");
    eq(m.c->getJointValue(), m.qc, "joint values are restored");
    eq(m.d->getJointValue(), m.qd, "joint values are restored");
    eq(m.t->getGlobalPose(), m.pt(), "the robot is at its pose");
    m.qb = qb; m.qc = qc; m.qd = qd;
    eq(w[0], given ? m.pd() : m.pt(), "pose for the joint values of the point");
    m.qb = m.qc = m.qd = 0;
    eq(w[1], given ? m.pd() : m.pt(), "pose for the joint values of the point");
}
VC_HARNESS(workspace_of_the_tool) { workspace(false); }
VC_HARNESS(workspace_of_a_node) { workspace(true); }
