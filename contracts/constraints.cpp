// VC-PROPERTY: C22
// VC-TU: %robot VirtualRobot/IK/DifferentialIK.cpp VirtualRobot/IK/CoMIK.cpp VirtualRobot/IK/JacobiProvider.cpp VirtualRobot/IK/IKSolver.cpp VirtualRobot/IK/Constraint.cpp VirtualRobot/IK/SupportPolygon.cpp
// VC-TU: VirtualRobot/IK/constraints/PositionConstraint.cpp VirtualRobot/IK/constraints/PoseConstraint.cpp VirtualRobot/IK/constraints/OrientationConstraint.cpp VirtualRobot/IK/constraints/TSRConstraint.cpp VirtualRobot/IK/constraints/CoMConstraint.cpp VirtualRobot/IK/constraints/ReferenceConfigurationConstraint.cpp VirtualRobot/IK/constraints/JointLimitAvoidanceConstraint.cpp VirtualRobot/IK/constraints/BalanceConstraint.cpp
// VC-FLAGS: -fno-access-control
// IK constraints: the objective measures the distance to the goal, the gradient is its derivative, tolerances agree
#include "arm.h"
#include <VirtualRobot/IK/constraints/PositionConstraint.h>
#include <VirtualRobot/IK/constraints/PoseConstraint.h>
#include <VirtualRobot/IK/constraints/OrientationConstraint.h>
#include <VirtualRobot/IK/constraints/TSRConstraint.h>
#include <VirtualRobot/IK/constraints/CoMConstraint.h>
#include <VirtualRobot/IK/constraints/ReferenceConfigurationConstraint.h>
#include <VirtualRobot/IK/constraints/JointLimitAvoidanceConstraint.h>
#include <VirtualRobot/IK/constraints/BalanceConstraint.h>

// the squared distance of the selected directions and its derivative for a motion of the tool
static Vector3f masked(const Vector3f& d, IKSolver::CartesianSelection s)
{
    return Vector3f(s & IKSolver::X ? d(0) : 0, s & IKSolver::Y ? d(1) : 0, s & IKSolver::Z ? d(2) : 0);
}
static const IKSolver::CartesianSelection SEL[6] = {IKSolver::X, IKSolver::Y, IKSolver::Z, IKSolver::Position, IKSolver::Orientation, IKSolver::All};
VC_HARNESS(position)
{
    Arm m(false);
    Vector3f g = vc::vec3("g"), p = pos(m.pt()), d = sub(p, g);
    float f = vc_nondet_float("factor");
    for (int k = 0; k < 6; k++)
    {
        PositionConstraint c(m.r, m.set, m.t, g, SEL[k]);
        c.setOptimizationFunctionFactor(f);
        Vector3f e = masked(d, SEL[k]);
        eq(c.optimizationFunction(0), f * vc::dot(e, e), "the objective is the squared distance to the target");
        VectorXf J = c.optimizationGradient(0);
        vc_ensure(J.rows() == 3, "size of the gradient");
        eq(J(0), 2 * f * vc::dot(e, m.vb(p)), "gradient for the first revolute joint");
        eq(J(1), 2 * f * vc::dot(e, m.vC()), "gradient for the prismatic joint");
        eq(J(2), 2 * f * vc::dot(e, m.vd(p)), "gradient for the second revolute joint");
    }
}
VC_HARNESS(position_tolerance)
{
    Slide m;
    Vector3f g = vc::vec3("g"), d = sub(m.p, g);
    float tol = vc_nondet_range("tol", 0.01f, 1000);
    for (int k = 0; k < 6; k++)
    {
        PositionConstraint c(m.r, m.set, m.t, g, SEL[k], tol);
        Vector3f e = masked(d, SEL[k]);
        bool ok = c.checkTolerances();
        vc_ensure(vc_implies(ok, vc_le(vc::dot(e, e), tol * tol)), "an accepted position is within the tolerance");
        vc_ensure(vc_implies(vc::dot(e, e) < tol * tol, ok), "a position within the tolerance is accepted");
        eq(c.getTarget(), g, "target kept");
    }
}
static void poseGradient(PoseConstraint& c, Arm& m, const Vector3f& g, IKSolver::CartesianSelection sel)
{
    Vector3f p = pos(m.pt()), e = masked(sub(p, g), sel);
    float s = c.posRotTradeoff;
    eq(c.optimizationFunction(0), s * s * vc::dot(e, e), "position objective");
    VectorXf J = c.optimizationGradient(0);
    vc_ensure(J.rows() == 3, "size of the position gradient");
    eq(J(0), 2 * s * s * vc::dot(e, m.vb(p)), "position gradient for the first revolute joint");
    eq(J(1), 2 * s * s * vc::dot(e, m.vC()), "position gradient for the prismatic joint");
    eq(J(2), 2 * s * s * vc::dot(e, m.vd(p)), "position gradient for the second revolute joint");
}
VC_HARNESS(pose_position)
{
    Arm m(false);
    Matrix4f P = vc::pose("P");
    for (int k = 0; k < 6; k++)
    {
        PoseConstraint c(m.r, m.set, m.t, P, SEL[k]);
        poseGradient(c, m, pos(P), SEL[k]);
        if (k < 4)
        {
            eq(c.optimizationFunction(1), 0, "no orientation objective for a position");
            VectorXf J = c.optimizationGradient(1);
            vc_ensure(J.rows() == 3, "size of the orientation gradient");
            for (int i = 0; i < 3; i++) eq(J(i), 0, "no orientation gradient for a position");
        }
    }
}
VC_HARNESS(pose_factor)
{
    Slide m;
    Vector3f g = vc::vec3("g"), e = sub(m.p, g);
    float f = vc_nondet_float("factor");
    PoseConstraint c(m.r, m.set, m.t, tr(g));
    c.setOptimizationFunctionFactor(f);
    float s = c.posRotTradeoff;
    eq(c.optimizationFunction(0), f * s * s * vc::dot(e, e), "weighted position objective");
    eq(c.optimizationGradient(0)(0), f * s * s * 2 * e(0), "weighted position gradient");
    Vector3f h = vc::vec3("h");
    c.updateTarget(tr(h));
    e = sub(m.p, h);
    eq(c.optimizationFunction(0), f * s * s * vc::dot(e, e), "position objective of the new target");
    VectorXf err = c.getError(1);
    for (int i = 0; i < 3; i++) eq(err(i), -e(i), "error vector of the new target");
    eq(c.getTarget(), tr(h), "target kept");
}
// one revolute joint about z; the tool turns with it. The target is turned by any angle about the axis.
struct Turn
{
    RobotPtr r;
    RobotNodePtr a, t;
    Matrix4f P;
    float w, z;
    RobotNodeSetPtr set;
    Turn()
    {
        r = robot();
        a = rev(r, "a", tr(vc::vec3("A")), Vector3f(0, 0, 1)); t = fixed(r, "t", I4());
        a->attachChild(t);
        r->setRootNode(a);
        std::vector<RobotNodePtr> n;
        n.push_back(a);
        set = RobotNodeSet::createRobotNodeSet(r, "set", n, a, t);
        float h = vc_nondet_range("half", -1.57f, 1.57f);
        w = vc_cos(h); z = vc_sin(h);
        vc_assume(z * z > 1e-6f);
        P = I4();
        P(0,0) = 1 - 2*z*z; P(1,1) = 1 - 2*z*z; P(0,1) = -2*w*z; P(1,0) = 2*w*z;
    }
};
template <class C> static void turnObjective(C& c, const Turn& m, int id)
{
    double v = c.optimizationFunction(id);
    float g = c.optimizationGradient(id)(0);
    vc_ensure_le(0, v, "the objective is not negative");
    eq(vc_cos(std::sqrt(v)), m.P(0,0), "the objective is the squared angle");
    eq(g * g, 4 * v, "the gradient is twice the angle");
    vc_ensure_le(g * m.P(1,0), 0, "the gradient points away from the target");
}
VC_HARNESS(pose_orientation) { Turn m; PoseConstraint c(m.r, m.set, m.t, m.P); turnObjective(c, m, 1); }
VC_HARNESS(orientation) { Turn m; OrientationConstraint c(m.r, m.set, m.t, Matrix3f(m.P.block<3, 3>(0, 0))); turnObjective(c, m, 0); }
VC_HARNESS(com)
{
    Arm m(false);
    std::vector<RobotNodePtr> n;
    n.push_back(m.b); n.push_back(m.d);
    RobotNodeSetPtr bodies = RobotNodeSet::createRobotNodeSet(m.r, "bodies", n, m.a, m.t);
    Vector3f g = vc::vec3("g"), p = app(m.pb(), m.cb), q = app(m.pd(), m.cd);
    float f = vc_nondet_float("factor"), M = m.mb + m.md;
    Vector3f vb = m.vb(p), vq = m.vb(q), vC = m.vC(), vd = m.vd(q);
    for (int dim = 2; dim <= 3; dim++)
    {
        CoMConstraintPtr c;
        if (dim == 3) c.reset(new CoMConstraint(m.r, m.set, bodies, g, 1.f)); else c.reset(new CoMConstraint(m.r, m.set, bodies, Vector2f(g(0), g(1)), 1.f));
        c->setOptimizationFunctionFactor(f);
        float v = 0, g0 = 0, g1 = 0, g2 = 0;
        for (int i = 0; i < dim; i++)
        {
            float d = m.mb * p(i) + m.md * q(i) - M * g(i);
            v += d * d; g0 += d * (m.mb * vb(i) + m.md * vq(i)); g1 += d * m.md * vC(i); g2 += d * m.md * vd(i);
        }
        eq(c->optimizationFunction(0) * M * M, f * v, "the objective is the squared distance of the centre of mass");
        VectorXf J = c->optimizationGradient(0);
        vc_ensure(J.rows() == 3, "size of the gradient");
        eq(J(0) * M * M, 2 * f * g0, "gradient for the first revolute joint");
        eq(J(1) * M * M, 2 * f * g1, "gradient for the prismatic joint");
        eq(J(2) * M * M, 2 * f * g2, "gradient for the second revolute joint");
    }
}
VC_HARNESS(com_target)
{
    Slide m;
    m.a->setMass(1);
    std::vector<RobotNodePtr> n(1, m.a);
    RobotNodeSetPtr bodies = RobotNodeSet::createRobotNodeSet(m.r, "bodies", n, m.a, m.t);
    Vector3f g = vc::vec3("g"), h = vc::vec3("h");
    float tol = vc_nondet_range("tol", 0.01f, 1000);
    for (int dim = 2; dim <= 3; dim++)
    {
        CoMConstraintPtr c;
        if (dim == 3) c.reset(new CoMConstraint(m.r, m.set, bodies, g, tol)); else c.reset(new CoMConstraint(m.r, m.set, bodies, Vector2f(g(0), g(1)), tol));
        if (dim == 3) c->updateTarget(h); else c->updateTarget(Vector2f(h(0), h(1)));
        float d = h(0)*h(0) + h(1)*h(1) + (dim == 3 ? h(2)*h(2) : 0);
        eq(c->optimizationFunction(0), d, "objective of the new target");
        eq(c->optimizationGradient(0)(0), -2 * h(0), "gradient of the new target");
        bool ok = c->checkTolerances();
        vc_ensure(vc_implies(ok, vc_le(d, tol * tol)), "an accepted centre of mass is within the tolerance of the new target");
        vc_ensure(vc_implies(d < tol * tol, ok), "a centre of mass within the tolerance of the new target is accepted");
    }
}
VC_HARNESS(reference)
{
    Arm m(false);
    VectorXf ref(3), now(3);
    float v = 0, f = vc_nondet_float("factor");
    now << m.qb, m.qc, m.qd;
    for (int i = 0; i < 3; i++) { ref(i) = vc_nondet_float("ref"); v += (now(i) - ref(i)) * (now(i) - ref(i)); }
    ReferenceConfigurationConstraint c(m.r, m.set, ref), z(m.r, m.set);
    c.setOptimizationFunctionFactor(f);
    eq(c.optimizationFunction(0), f * v, "the objective is the squared distance to the reference");
    VectorXf J = c.optimizationGradient(0);
    vc_ensure(J.rows() == 3, "size of the gradient");
    for (int i = 0; i < 3; i++) eq(J(i), 2 * f * (now(i) - ref(i)), "the gradient points away from the reference");
    eq(z.optimizationFunction(0), m.qb*m.qb + m.qc*m.qc + m.qd*m.qd, "zero is the default reference");
    z.setReferenceConfiguration(ref);
    eq(z.optimizationFunction(0), v, "objective of the new reference");
    for (int i = 0; i < 3; i++) eq(z.getReferenceConfiguration()(i), ref(i), "reference kept");
}
VC_HARNESS(joint_limits)
{
    RobotPtr r = robot();
    float lo = vc_nondet_range("lo", -3, -0.1f), hi = vc_nondet_range("hi", 0.1f, 3), f = vc_nondet_float("factor");
    RobotNodePtr a = rev(r, "a", I4(), Vector3f(0, 0, 1), lo, hi), b = rev(r, "b", I4(), Vector3f(0, 0, 1), -3, 3), c = pris(r, "c", I4(), Vector3f(0, 0, 1), -100, 300);
    a->attachChild(b); b->attachChild(c);
    b->setLimitless(true);
    r->setRootNode(a);
    float q = vc_nondet_float("q"), p = vc_nondet_range("p", -1, 1), s = vc_nondet_range("s", -100, 300);
    vc_assume(lo <= q); vc_assume(q <= hi);
    a->setJointValue(q); b->setJointValue(p); c->setJointValue(s);
    std::vector<RobotNodePtr> n;
    n.push_back(a); n.push_back(b); n.push_back(c);
    JointLimitAvoidanceConstraint k(r, RobotNodeSet::createRobotNodeSet(r, "set", n, a, c));
    k.setOptimizationFunctionFactor(f);
    float d = q - (lo + hi) / 2, e = s - 100;
    eq(k.optimizationFunction(0), f * (d*d + e*e), "the objective is the squared distance to the centres of the limits");
    VectorXf J = k.optimizationGradient(0);
    eq(J(0), 2 * f * d, "the gradient points away from the centre of the limits");
    eq(J(1), 0, "a limitless joint is not pulled");
    eq(J(2), 2 * f * e, "the gradient points away from the centre of the prismatic joint's limits");
}
static float clampTo(float v, float lo, float hi) { return v <= lo ? lo : (v >= hi ? hi : v); }
static void tsr(const Matrix4f& F, const Matrix4f& E)
{
    Arm m(false);
    Matrix<float, 6, 2> b;
    Matrix4f P = mul(m.pt(), E);
    Vector3f p = pos(P), l = app(rinv(F), p), e;
    for (int i = 3; i < 6; i++) { b(i, 0) = -1000; b(i, 1) = 1000; }
    // above the bounds of x, within those of y, below those of z
    float dx = vc_nondet_range("dx", 0.1f, 100), dz = vc_nondet_range("dz", 0.1f, 100);
    b(0, 1) = l(0) - dx; b(0, 0) = b(0, 1) - 10;
    b(1, 1) = l(1) + 10; b(1, 0) = l(1) - 10;
    b(2, 0) = l(2) + dz; b(2, 1) = b(2, 0) + 10;
    TSRConstraint c(m.r, m.set, m.t, F, E, b);
    float s = c.posRotTradeoff;
    eq(c.optimizationFunction(0), s * s * (dx*dx + dz*dz), "the objective is the squared distance to the region");
    Vector3f w = vc::app3(Matrix3f(F.block<3, 3>(0, 0)), Vector3f(dx, 0, -dz));
    VectorXf J = c.optimizationGradient(0);
    vc_ensure(J.rows() == 3, "size of the gradient");
    eq(J(0), 2 * s * s * vc::dot(w, m.vb(p)), "gradient for the first revolute joint");
    eq(J(1), 2 * s * s * vc::dot(w, m.vC()), "gradient for the prismatic joint");
    eq(J(2), 2 * s * s * vc::dot(w, m.vd(p)), "gradient for the second revolute joint");
}
VC_HARNESS(tsr_gradient) { tsr(vc::pose("F"), vc::pose("E")); }
VC_HARNESS(tsr_error)
{
    Slide m;
    Vector3f f = vc::vec3("f"), g;
    Matrix<float, 6, 2> b;
    Vector3f e(0, 0, 0);
    float tp = vc_nondet_range("tp", 0.01f, 100);
    int k = vc_case("k", 0, 2);
    for (int i = 0; i < 6; i++) { b(i, 0) = -1; b(i, 1) = 1; }
    for (int i = 0; i < 3; i++) { b(i, 0) = m.p(i) - f(i) - 1; b(i, 1) = m.p(i) - f(i) + 1; }
    b(k, 0) = vc_nondet_range("lo", -1000, 0); b(k, 1) = vc_nondet_range("hi", 0, 1000);
    TSRConstraint c(m.r, m.set, m.t, tr(f), I4(), b, tp, 0.1f);
    float x = m.p(k) - f(k);
    e(k) = clampTo(x, b(k, 0), b(k, 1)) - x;
    VectorXf d = c.getError(0.5f);
    for (int i = 0; i < 3; i++) { eq(d(i), 0.5f * e(i), "the error leads into the region"); eq(d(3 + i), 0, "no rotation within the region"); }
    bool ok = c.checkTolerances();
    vc_ensure(vc_implies(ok, vc_le(vc::dot(e, e), tp * tp)), "an accepted pose is within the given tolerance of the region");
    vc_ensure(vc_implies(vc::dot(e, e) < tp * tp, ok), "a pose within the given tolerance of the region is accepted");
    eq(c.getTransformation(), tr(f), "region kept");
    eq(c.getBounds()(k, 1), b(k, 1), "bounds kept");
}
// the objective of balance: one minus the product of the sigmoids of the signed distances to the edges
VC_HARNESS(balance)
{
    static char memory[sizeof(SupportPolygon)] __attribute__((aligned(16)));
    SupportPolygonPtr sp((SupportPolygon*) memory, [](SupportPolygon*) {});
    MathTools::ConvexHull2DPtr h(new MathTools::ConvexHull2D);
    // a right triangle with axis parallel legs
    float x = vc_nondet_float("x"), y = vc_nondet_float("y"), w = vc_nondet_range("w", 1, 1000);
    h->vertices.push_back(Vector2f(x, y)); h->vertices.push_back(Vector2f(x + 3 * w, y)); h->vertices.push_back(Vector2f(x, y + 4 * w));
    for (int i = 0; i < 3; i++) { MathTools::Segment2D s; s.id1 = i; s.id2 = (i + 1) % 3; h->segments.push_back(s); }
    sp->suportPolygonFloor = h;
    BalanceConstraintOptimizationFunction f(sp);
    Vector2f c = vc::vec2("com");
    float d[3] = {c(1) - y, (12 * w - 4 * (c(0) - x) - 3 * (c(1) - y)) / 5, c(0) - x};
    float s[3];
    for (int i = 0; i < 3; i++) s[i] = 1 / (1 + std::exp(-0.1f * d[i]));
    eq(f.evaluateOptimizationFunction(c), 1 - s[0] * s[1] * s[2], "the objective falls with the distance to every edge");
    MatrixXf J(2, 2);
    for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) J(i, k) = vc_nondet_float("J");
    VectorXf g = f.evaluateOptimizationGradient(c, J);
    vc_ensure(g.rows() == 2, "size of the gradient");
    for (int k = 0; k < 2; k++)
    {
        float v[3] = {J(1, k), -(4 * J(0, k) + 3 * J(1, k)) / 5, J(0, k)}, r = 0;
        for (int i = 0; i < 3; i++) r += 0.1f * s[i] * (1 - s[i]) * v[i] * s[(i + 1) % 3] * s[(i + 2) % 3];
        eq(g(k), -r, "the gradient is the derivative of the objective");
    }
}
