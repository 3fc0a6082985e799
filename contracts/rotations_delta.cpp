// VC-PROPERTY: C01
// VC-TU: VirtualRobot/MathTools.cpp VirtualRobot/VirtualRobotException.cpp
#include "vc.h"
#include <VirtualRobot/MathTools.h>
using namespace VirtualRobot;
using namespace Eigen;
using vc::eq;

// contract of eigen4f2axisangle, proved in rotations.cpp (matrix_to_axisangle): 2 cos(angle) + 1 is the trace, angle in [0,pi]
VC_STUB("VirtualRobot::MathTools::eigen4f2axisangle(Eigen::Matrix<float, 4, 4, 0, 4, 4> const&, Eigen::Matrix<float, 3, 1, 0, 3, 1>&, float&)")
void stub_axisangle(const Matrix4f& m, Vector3f& axis, float& angle)
{
    for (int i = 0; i < 3; i++) axis(i) = vc_fresh_float("axis");
    angle = vc_acos((m(0,0) + m(1,1) + m(2,2) - 1) / 2);
}
VC_HARNESS(pose_delta)
{
    Matrix4f A = vc::pose("A"), B = vc::pose("B");
    float dp, dr, dp2, dr2;
    MathTools::getDelta(A, B, dp, dr);
    MathTools::getPoseDiff(A, B, dp2, dr2);
    Vector3f t(A(0,3) - B(0,3), A(1,3) - B(1,3), A(2,3) - B(2,3));
    vc_ensure_le(0, dp, "position delta is not negative");
    eq(dp * dp, vc::dot(t, t), "position delta is the distance of the positions");
    float tr = 0;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr += A(i,j) * B(i,j);
    eq(2 * vc_cos(dr) + 1, tr, "rotation delta is the angle between the orientations");
    vc_ensure_le(0, dr, "rotation delta is not negative");
    vc_ensure_le(dr, vc_pi(), "rotation delta is at most pi");
    eq(dp2, dp, "getPoseDiff position");
    eq(dr2, dr, "getPoseDiff rotation");
}
VC_HARNESS(cartesian_pose_diff)
{
    Matrix4f A = vc::pose("A"), B = vc::pose("B");
    float k = vc_nondet_float("k"), dp, dr;
    MathTools::getPoseDiff(A, B, dp, dr);
    eq(MathTools::getCartesianPoseDiff(A, B, k), dp + k * dr, "getCartesianPoseDiff is position delta plus weighted rotation delta");
}
