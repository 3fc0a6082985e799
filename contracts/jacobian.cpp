// VC-PROPERTY: C08
// VC-TU: %robot VirtualRobot/IK/DifferentialIK.cpp VirtualRobot/IK/CoMIK.cpp VirtualRobot/IK/JacobiProvider.cpp VirtualRobot/IK/JointLimitAvoidanceJacobi.cpp VirtualRobot/IK/IKSolver.cpp
// VC-ASSUME: math::Helpers::OrthogonalizeSVD (Eigen::JacobiSVD) returns its argument when that is a rotation; the callers are proved to pass a rotation
// Jacobians against the motion of the real robot
#include "arm.h"
#include <VirtualRobot/IK/DifferentialIK.h>
#include <VirtualRobot/IK/CoMIK.h>
#include <VirtualRobot/IK/JointLimitAvoidanceJacobi.h>
static void column(const MatrixXf& J, int row, int c, const Vector3f& v, const char* l) { for (int i = 0; i < 3; i++) vc_ensure_eq(J(row + i, c), v(i), l); }
VC_HARNESS(full_jacobian)
{
    Arm m;
    DifferentialIK ik(m.set);
    MatrixXf J = ik.getJacobianMatrix(m.t, IKSolver::All);
    vc_ensure(J.rows() == 6 && J.cols() == 4, "size of the Jacobian");
    Vector3f p = pos(m.pt()), z(0, 0, 0);
    column(J, 0, 0, m.vb(p), "tool velocity caused by the first revolute joint");
    column(J, 0, 1, m.vC(), "tool velocity caused by the prismatic joint");
    column(J, 0, 2, m.vd(p), "tool velocity caused by the second revolute joint");
    column(J, 0, 3, z, "a joint that does not carry the tool causes no velocity");
    column(J, 3, 0, col(m.pb(), 2), "angular velocity caused by the first revolute joint");
    column(J, 3, 1, z, "a prismatic joint causes no angular velocity");
    column(J, 3, 2, col(m.pd(), 0), "angular velocity caused by the second revolute joint");
    column(J, 3, 3, z, "a joint that does not carry the tool causes no angular velocity");
    vc_cover("end");
}
// moving a joint by any amount moves the tool along the screw that the column describes
VC_HARNESS(columns_are_motions)
{
    Arm m(false);
    DifferentialIK ik(m.set);
    MatrixXf J = ik.getJacobianMatrix(m.t, IKSolver::All);
    Vector3f wb(J(3,0), J(4,0), J(5,0)), wd(J(3,2), J(4,2), J(5,2)), vC(J(0,1), J(1,1), J(2,1));
    Vector3f p = pos(m.t->getGlobalPose()), ob = pos(m.b->getGlobalPose());
    float db = vc_nondet_float("db"), dc = vc_nondet_float("dc");
    vc_assume(m.qb + db <= 3); vc_assume(m.qb + db >= -3); vc_assume(m.qc + dc <= 1000); vc_assume(m.qc + dc >= -1000);
    m.b->setJointValue(m.qb + db);
    Vector3f e = vc::app3(rodrigues(col(m.pb(), 2), db), sub(p, ob));
    for (int i = 0; i < 3; i++) eq(m.t->getGlobalPose()(i, 3), ob(i) + e(i), "the tool turns about the revolute joint");
    eq(wb, col(m.pb(), 2), "the angular column is the axis it turns about");
    m.b->setJointValue(m.qb);
    m.c->setJointValue(m.qc + dc);
    for (int i = 0; i < 3; i++) eq(m.t->getGlobalPose()(i, 3), p(i) + dc * vC(i), "the tool is shifted along the prismatic joint");
}
VC_HARNESS(selections)
{
    Arm m;
    DifferentialIK ik(m.set);
    MatrixXf A = ik.getJacobianMatrix(m.t, IKSolver::All), P = ik.getJacobianMatrix(m.t, IKSolver::Position), O = ik.getJacobianMatrix(m.t, IKSolver::Orientation);
    MatrixXf X = ik.getJacobianMatrix(m.t, IKSolver::X), Y = ik.getJacobianMatrix(m.t, IKSolver::Y), Z = ik.getJacobianMatrix(m.t, IKSolver::Z);
    MatrixXf D = ik.getJacobianMatrix(m.t), E = ik.getJacobianMatrix(IKSolver::All);
    vc_ensure(P.rows() == 3 && O.rows() == 3 && X.rows() == 1 && Y.rows() == 1 && Z.rows() == 1 && D.rows() == 6, "number of rows");
    for (int c = 0; c < 4; c++)
    {
        for (int i = 0; i < 3; i++)
        {
            eq(P(i, c), A(i, c), "position rows alone");
            eq(O(i, c), A(3 + i, c), "orientation rows alone");
        }
        eq(X(0, c), A(0, c), "x row alone"); eq(Y(0, c), A(1, c), "y row alone"); eq(Z(0, c), A(2, c), "z row alone");
        for (int i = 0; i < 6; i++) { eq(D(i, c), A(i, c), "all rows by default"); eq(E(i, c), A(i, c), "the tool centre point of the node set by default"); }
    }
}
VC_HARNESS(other_frame)
{
    Arm m(false);
    DifferentialIK ik(m.set, m.d);
    MatrixXf J = ik.getJacobianMatrix(m.t, IKSolver::All);
    Matrix4f R = rinv(m.pd());
    Vector3f p = pos(m.pt());
    Matrix3f r = R.block<3, 3>(0, 0);
    column(J, 0, 0, vc::app3(r, m.vb(p)), "tool velocity in the given frame");
    column(J, 0, 1, vc::app3(r, m.vC()), "prismatic tool velocity in the given frame");
    column(J, 0, 2, vc::app3(r, m.vd(p)), "second tool velocity in the given frame");
    column(J, 3, 0, vc::app3(r, col(m.pb(), 2)), "angular velocity in the given frame");
    column(J, 3, 2, vc::app3(r, col(m.pd(), 0)), "second angular velocity in the given frame");
}
VC_HARNESS(metres)
{
    Arm m(false);
    DifferentialIK ik(m.set);
    MatrixXf A = ik.getJacobianMatrix(m.t, IKSolver::All);
    ik.convertModelScalingtoM(true);
    MatrixXf B = ik.getJacobianMatrix(m.t, IKSolver::All);
    for (int i = 0; i < 3; i++)
    {
        eq(B(i, 0) * 1000, A(i, 0), "revolute column in metres");
        eq(B(i, 1), A(i, 1), "a prismatic column does not depend on the unit");
        eq(B(3 + i, 0), A(3 + i, 0), "the angular part does not depend on the unit");
    }
}
// the tool may be a joint of the set, an object attached to a node, or a node before some of the joints
VC_HARNESS(other_tools)
{
    Arm m;
    DifferentialIK ik(m.set);
    MatrixXf J = ik.getJacobianMatrix(m.c, IKSolver::All);
    Vector3f p = pos(m.pc()), z(0, 0, 0);
    column(J, 0, 0, m.vb(p), "velocity of a node in the middle of the chain");
    column(J, 0, 1, m.vC(), "velocity of the joint itself");
    column(J, 0, 2, z, "joints behind the tool do not move it");
    column(J, 3, 2, z, "joints behind the tool do not turn it");
    MatrixXf S = ik.getJacobianMatrix(m.s, IKSolver::All);
    column(S, 0, 0, z, "the chain does not move the other branch");
    column(S, 3, 3, col(m.G, 0), "the other branch turns about its own joint");
    SceneObjectPtr o(new SceneObject("o"));
    m.t->attachChild(o);
    MatrixXf K = ik.getJacobianMatrix(o, IKSolver::All), L = ik.getJacobianMatrix(m.t, IKSolver::All);
    m.r->applyJointValues();
    K = ik.getJacobianMatrix(o, IKSolver::All);
    for (int c = 0; c < 4; c++) for (int i = 0; i < 6; i++) eq(K(i, c), L(i, c), "an object attached to the tool moves like the tool");
}
// several goals at once: the parts are stacked in the order in which they were given
VC_HARNESS(stacked_goals)
{
    Arm m(false);
    DifferentialIK ik(m.set);
    Vector3f g1 = vc::vec3("g1"), g2 = vc::vec3("g2");
    float s = vc_nondet_range("step", 0.01f, 1);
    ik.setGoal(g1, m.t, IKSolver::Position);
    ik.setGoal(g2, m.c, IKSolver::Y);
    MatrixXf J = ik.getJacobianMatrix(), T = ik.getJacobianMatrix(m.t, IKSolver::Position), C = ik.getJacobianMatrix(m.c, IKSolver::Y);
    vc_ensure(J.rows() == 4 && J.cols() == 3, "size of the stacked Jacobian");
    VectorXf e = ik.getError(s);
    Vector3f pt = pos(m.pt()), pc = pos(m.pc());
    for (int c = 0; c < 3; c++)
    {
        for (int i = 0; i < 3; i++) eq(J(i, c), T(i, c), "rows of the first goal");
        eq(J(3, c), C(0, c), "row of the second goal");
    }
    for (int i = 0; i < 3; i++) eq(e(i), (g1(i) - pt(i)) * s, "error of the first goal");
    eq(e(3), (g2(1) - pc(1)) * s, "error of the second goal");
    eq(ik.getErrorPosition(m.t) * ik.getErrorPosition(m.t), vc::dot(sub(g1, pt), sub(g1, pt)), "position error is the distance to the goal");
    eq(ik.getErrorPosition(m.c) * ik.getErrorPosition(m.c), (g2(1) - pc(1)) * (g2(1) - pc(1)), "position error counts the selected directions");
    // a new goal replaces the old one
    Vector3f g3 = vc::vec3("g3");
    ik.setGoal(g3, m.t, IKSolver::Position);
    e = ik.getError(s);
    vc_ensure(e.rows() == 4, "size of the error after changing a goal");
    for (int i = 0; i < 3; i++) eq(e(i), (g3(i) - pt(i)) * s, "error of the changed goal");
}
VC_HARNESS(limited_step)
{
    Slide m;
    DifferentialIK ik(m.set);
    Vector3f g = vc::vec3("g");
    float s = vc_nondet_range("step", 0.01f, 1), mx = vc_nondet_range("mx", 0.1f, 1000);
    ik.setGoal(g, m.t, IKSolver::Position);
    ik.setMaxPositionStep(mx);
    VectorXf e = ik.getError(s);
    Vector3f v = sub(g, m.p), ev(e(0), e(1), e(2));
    vc_ensure_le(vc::dot(ev, ev), mx * mx, "the step is not longer than the maximum");
    eq(vc::cross(ev, v), Vector3f(0, 0, 0), "the step points to the goal");
    vc_ensure_le(0, vc::dot(ev, v), "the step does not point away from the goal");
    vc_ensure(vc_implies(s*s*vc::dot(v, v) < mx*mx, vc_and(vc_eq(ev(0), s*v(0)), vc_and(vc_eq(ev(1), s*v(1)), vc_eq(ev(2), s*v(2))))), "a short step is not changed");
}
VC_HARNESS(tolerances)
{
    Slide m;
    DifferentialIK ik(m.set);
    Vector3f g = vc::vec3("g");
    float tol = vc_nondet_range("tol", 0.01f, 1000);
    ik.setGoal(g, m.t, IKSolver::Position, tol, 0.1f);
    Vector3f v = sub(g, m.p);
    bool ok = ik.checkTolerances();
    vc_ensure(vc_implies(ok, vc_le(vc::dot(v, v), tol * tol)), "a reached goal is within the tolerance");
    vc_ensure(vc_implies(vc::dot(v, v) < tol * tol, ok), "a goal within the tolerance is reached");
}
static void comJacobian(Arm& m, RobotNodeSetPtr bodies, bool first, bool last, RobotNodePtr frame, int dim)
{
    CoMIK ik(m.set, bodies, frame);
    if (dim == 2) ik.setGoal(VectorXf::Zero(2)); else ik.setGoal(VectorXf::Zero(3));
    MatrixXf J = ik.getJacobianMatrix();
    vc_ensure(J.rows() == dim && J.cols() == 3, "size of the centre of mass Jacobian");
    float mb = first ? m.mb : 0, md = last ? m.md : 0, ms = mb + md;
    Vector3f p = app(m.pb(), m.cb), q = app(m.pd(), m.cd), x1 = m.vb(p), y1 = m.vb(q), z1 = m.vC(), w1 = m.vd(q);
    Matrix3f r = Matrix3f::Identity();
    if (frame) { Matrix4f f = rinv(m.pd()); r = f.block<3, 3>(0, 0); }
    Vector3f x = vc::app3(r, x1), y = vc::app3(r, y1), z = vc::app3(r, z1), w = vc::app3(r, w1);
    for (int i = 0; i < dim; i++)
    {
        eq(J(i, 0) * ms, mb * x(i) + md * y(i), "centre of mass velocity caused by the first joint");
        eq(J(i, 1) * ms, md * z(i), "centre of mass velocity caused by the prismatic joint");
        eq(J(i, 2) * ms, md * w(i), "centre of mass velocity caused by the last joint");
    }
}
static RobotNodeSetPtr bodies(Arm& m, bool first, bool last)
{
    std::vector<RobotNodePtr> n;
    if (first) n.push_back(m.b);
    if (last) n.push_back(m.d);
    return RobotNodeSet::createRobotNodeSet(m.r, "bodies", n, m.a, m.t);
}
VC_HARNESS(com_jacobian) { Arm m(false); comJacobian(m, bodies(m, true, true), true, true, RobotNodePtr(), 3); }
VC_HARNESS(com_jacobian_planar) { Arm m(false); comJacobian(m, bodies(m, true, true), true, true, RobotNodePtr(), 2); }
VC_HARNESS(com_jacobian_one_body) { Arm m(false); comJacobian(m, bodies(m, false, true), false, true, RobotNodePtr(), 3); }
VC_HARNESS(com_jacobian_frame) { Arm m(false); comJacobian(m, bodies(m, true, true), true, true, m.d, 3); }
VC_HARNESS(com_error)
{
    Arm m(false);
    RobotNodeSetPtr bs = bodies(m, true, true);
    CoMIK ik(m.set, bs);
    Vector3f g = vc::vec3("g");
    float tol = vc_nondet_range("tol", 0.01f, 100);
    VectorXf gv(3);
    for (int i = 0; i < 3; i++) gv(i) = g(i);
    ik.setGoal(gv, tol);
    VectorXf e = ik.getError(1);
    Vector3f p = app(m.pb(), m.cb), q = app(m.pd(), m.cd), ev(e(0), e(1), e(2));
    for (int i = 0; i < 3; i++) eq((g(i) - e(i)) * (m.mb + m.md), m.mb * p(i) + m.md * q(i), "centre of mass error");
    bool ok = ik.checkTolerances();
    vc_ensure(vc_implies(ok, vc_le(vc::dot(ev, ev), tol * tol)), "a reached centre of mass goal is within the tolerance");
    vc_ensure(vc_implies(vc::dot(ev, ev) < tol * tol, ok), "a centre of mass within the tolerance is reached");
}
VC_HARNESS(joint_limit_avoidance)
{
    RobotPtr r = robot();
    float q1 = vc_nondet_range("q1", -1, 3), q2 = vc_nondet_range("q2", -10, 20), s = vc_nondet_range("s", 0.01f, 1);
    RobotNodePtr a = rev(r, "a", I4(), Vector3f(1, 0, 0), -1, 3), b = pris(r, "b", I4(), Vector3f(1, 0, 0), -10, 20);
    a->attachChild(b);
    r->setRootNode(a);
    a->setJointValue(q1); b->setJointValue(q2);
    std::vector<RobotNodePtr> n;
    n.push_back(a); n.push_back(b);
    JointLimitAvoidanceJacobi j(RobotNodeSet::createRobotNodeSet(r, "s", n));
    VectorXf e = j.getError(s);
    eq(e(0), (1 - q1) * s, "a revolute joint is driven to the middle of its range");
    eq(e(1), 0, "a prismatic joint is left alone");
    MatrixXf J = j.getJacobianMatrix();
    for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) eq(J(i, k), i == k ? 1 : 0, "each joint is controlled directly");
}
// the orientation part of the error is the rotation vector that turns the current orientation into the goal
static void orientationDelta(const Matrix4f& C)
{
    Slide m;
    DifferentialIK ik(m.set);
    for (int k = 0; k < 4; k++)
    {
        // quarter turns about the axes, a third of a turn about the diagonal
        Matrix4f P = Matrix4f::Zero();
        P(3,3) = 1;

        Vector3f u(0, 0, 0);
        if (k < 3) { int i = (k + 1) % 3, j = (k + 2) % 3; P(k,k) = 1; P(i,j) = -1; P(j,i) = 1; u(k) = 1; }
        else { P(1,0) = 1; P(2,1) = 1; P(0,2) = 1; u = Vector3f(1, 1, 1); }
        VectorXf d = ik.getDelta(C, mul(P, C), IKSolver::Orientation);
        Vector3f v(d(3), d(4), d(5));
        for (int i = 0; i < 3; i++) eq(d(i), 0, "no position part");
        eq(vc::cross(v, u), Vector3f(0, 0, 0), "rotation vector along the axis");
        if (k < 3) eq(vc_cos(v(k)), 0, "the length of the rotation vector is the angle");
        vc_ensure_le(0, vc::dot(v, u), "rotation vector in the direction of the rotation");
    }
}
VC_HARNESS(orientation_delta)
{
    Matrix4f C = tr(vc::vec3("p"));
    C(0,0) = 0; C(1,1) = 0; C(0,1) = -1; C(1,0) = 1;
    orientationDelta(C);
}
VC_HARNESS(orientation_delta_turned)
{
    Matrix4f C = vc::poseOf(vc::rotOf(0.5f, 0.5f, 0.1f, 0.7f), vc::vec3("p"));
    orientationDelta(C);
}
VC_HARNESS(rotation_error)
{
    Slide m;
    DifferentialIK ik(m.set);
    float q[4];
    vc_unit_quat("P", q);
    vc_assume(q[1]*q[1] + q[2]*q[2] + q[3]*q[3] > 1e-11f);
    Matrix4f P = vc::poseOf(vc::rotOf(q[0], q[1], q[2], q[3]), vc::vec3("t"));
    ik.setGoal(P, m.t, IKSolver::All);
    float e = ik.getErrorRotation(m.t);
    eq(2 * vc_cos(e) + 1, P(0,0) + P(1,1) + P(2,2), "rotation error is the angle between the orientations");
    vc_ensure_le(0, e, "rotation error is not negative");
}
VC_HARNESS(default_tool_errors)
{
    Slide m;
    DifferentialIK ik(m.set);
    Matrix4f P = tr(vc::vec3("t"));
    P(0,0) = -1; P(1,1) = -1;
    ik.setGoal(P, m.t, IKSolver::All);
    eq(ik.getErrorRotation(), vc_pi(), "rotation error of the tool centre point by default");
    eq(ik.getErrorPosition(), ik.getErrorPosition(m.t), "position error of the tool centre point by default");
}
