// VC-PROPERTY: C12
// VC-TU: %robot VirtualRobot/Workspace/WorkspaceDataArray.cpp VirtualRobot/Workspace/WorkspaceRepresentation.cpp
// VC-FLAGS: -fno-access-control
// Orientations of poses as three numbers
#include "robot.h"
#include <VirtualRobot/Workspace/WorkspaceRepresentation.h>
#include <VirtualRobot/MathTools.h>
using namespace vcr;
using vc::eq;

static Matrix3f rx(float a) { return rodrigues(Vector3f(1, 0, 0), a); }
static Matrix3f ry(float a) { return rodrigues(Vector3f(0, 1, 0), a); }
static Matrix3f rz(float a) { return rodrigues(Vector3f(0, 0, 1), a); }
static void position(const Matrix4f& m, const float* x)
{
    for (int i = 0; i < 3; i++) eq(m(i, 3), x[i], "position");
    for (int i = 0; i < 4; i++) eq(m(3, i), i == 3, "a rigid pose");
}
static Matrix3f rotation(const float* x, WorkspaceRepresentation::eOrientationType t)
{
    if (t == WorkspaceRepresentation::RPY) return vc::mul3(rz(x[5]), vc::mul3(ry(x[4]), rx(x[3])));
    int a = t == WorkspaceRepresentation::EulerXYZ ? 3 : 5;
    return vc::mul3(rx(x[a]), vc::mul3(ry(x[4]), rz(x[8 - a])));
}
VC_HARNESS(pose_of_vector)
{
    WorkspaceRepresentation w(robot());
    float x[6];
    for (int i = 0; i < 6; i++) x[i] = i < 3 ? vc_nondet_float("x") : vc_nondet_range("angle", -3, 3);
    WorkspaceRepresentation::eOrientationType t = WorkspaceRepresentation::eOrientationType(vc_case("type", 0, 2));
    w.setOrientationType(t);
    Matrix4f m, k;
    w.vector2Matrix(x, m);
    position(m, x);
    eq(Matrix3f(m.block<3, 3>(0, 0)), rotation(x, t), "rotation of the three angles");
    w.vector2Matrix(Vector3f(x[0], x[1], x[2]), Vector3f(x[3], x[4], x[5]), k);
    eq(k, m, "position and angles in vectors");
}
VC_HARNESS(vector_of_pose)
{
    WorkspaceRepresentation w(robot());
    Matrix4f m = vc::pose("m");
    float x[6];
    WorkspaceRepresentation::eOrientationType t = WorkspaceRepresentation::eOrientationType(vc_case("type", 1, 2));
    w.setOrientationType(t);
    w.matrix2Vector(m, x);
    position(m, x);
    eq(rotation(x, t), Matrix3f(m.block<3, 3>(0, 0)), "the angles give the rotation back");
}
// the conversions of roll, pitch, yaw and of Hopf coordinates are the subject of property C01
VC_HARNESS(encodings_of_the_library)
{
    WorkspaceRepresentation w(robot());
    Matrix4f m = vc::pose("m");
    float x[6], y[6];
    bool hopf = vc_case("hopf", 0, 1);
    w.setOrientationType(hopf ? WorkspaceRepresentation::Hopf : WorkspaceRepresentation::RPY);
    w.matrix2Vector(m, x);
    if (hopf)
    {
        Vector3f h = MathTools::quat2hopf(MathTools::eigen4f2quat(m));
        for (int i = 0; i < 3; i++) y[3 + i] = h(i);
    }
    else MathTools::eigen4f2rpy(m, y);
    for (int i = 0; i < 3; i++) { eq(x[i], m(i, 3), "position"); eq(x[3 + i], y[3 + i], "orientation"); }
    float z[6];
    for (int i = 0; i < 6; i++) z[i] = vc_nondet_range("z", -3, 3);
    Matrix4f k;
    w.vector2Matrix(z, k);
    position(k, z);
    if (hopf)
    {
        Matrix4f q = MathTools::quat2eigen4f(MathTools::hopf2quat(Vector3f(z[3], z[4], z[5])));
        eq(Matrix3f(k.block<3, 3>(0, 0)), Matrix3f(q.block<3, 3>(0, 0)), "rotation of the Hopf coordinates");
    }
}
