// VC-PROPERTY: C01
// VC-TU: VirtualRobot/MathTools.cpp VirtualRobot/VirtualRobotException.cpp
#include "vc.h"
#include <VirtualRobot/MathTools.h>
using namespace VirtualRobot;
using namespace Eigen;
using vc::eq;
typedef MathTools::Quaternion Q;

static Matrix4f Rx(float a) { Matrix4f m = Matrix4f::Identity(); m(1,1) = vc_cos(a); m(1,2) = -vc_sin(a); m(2,1) = vc_sin(a); m(2,2) = vc_cos(a); return m; }
static Matrix4f Ry(float a) { Matrix4f m = Matrix4f::Identity(); m(0,0) = vc_cos(a); m(0,2) = vc_sin(a); m(2,0) = -vc_sin(a); m(2,2) = vc_cos(a); return m; }
static Matrix4f Rz(float a) { Matrix4f m = Matrix4f::Identity(); m(0,0) = vc_cos(a); m(0,1) = -vc_sin(a); m(1,0) = vc_sin(a); m(1,1) = vc_cos(a); return m; }
static Matrix4f rpySpec(float r, float p, float y) { return vc::mul(Rz(y), vc::mul(Ry(p), Rx(r))); }
static Q unitq(const char* n) { float w[4]; vc_unit_quat(n, w); Q q; q.w = w[0]; q.x = w[1]; q.y = w[2]; q.z = w[3]; return q; }
static Matrix3f rotQ(const Q& q) { return vc::rotOf(q.w, q.x, q.y, q.z); }
static float norm2(const Q& q) { return q.w*q.w + q.x*q.x + q.y*q.y + q.z*q.z; }
static Matrix3f blk(const Matrix4f& m) { Matrix3f r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(i,j) = m(i,j); return r; }

VC_HARNESS(rpy_to_matrix)
{
    Vector3f a = vc::vec3("rpy"), t = vc::vec3("pos");
    Matrix4f spec = rpySpec(a(0), a(1), a(2));
    Matrix4f m;
    MathTools::rpy2eigen4f(a(0), a(1), a(2), m);
    eq(m, spec, "rpy2eigen4f is Rz(yaw)*Ry(pitch)*Rx(roll) with zero translation");
    eq(MathTools::rpy2eigen4f(a(0), a(1), a(2)), spec, "rpy2eigen4f (returning)");
    eq(MathTools::rpy2eigen3f(a(0), a(1), a(2)), blk(spec), "rpy2eigen3f");
    for (int i = 0; i < 3; i++) spec(i,3) = t(i);
    float x[6] = {t(0), t(1), t(2), a(0), a(1), a(2)};
    Matrix4f m2;
    MathTools::posrpy2eigen4f(x, m2);
    eq(m2, spec, "posrpy2eigen4f(array)");
    MathTools::posrpy2eigen4f(t, a, m2);
    eq(m2, spec, "posrpy2eigen4f(pos, rpy, m)");
    eq(MathTools::posrpy2eigen4f(t, a), spec, "posrpy2eigen4f(pos, rpy)");
    eq(MathTools::posrpy2eigen4f(t(0), t(1), t(2), a(0), a(1), a(2)), spec, "posrpy2eigen4f(6 scalars)");
    MathTools::posrpy2eigen4f(t(0), t(1), t(2), a(0), a(1), a(2), m2);
    eq(m2, spec, "posrpy2eigen4f(6 scalars, m)");
}
VC_HARNESS(matrix_to_pitch)
{
    Matrix4f M = vc::pose("M");
    float x[6];
    MathTools::eigen4f2rpy(M, x);
    eq(vc_sin(x[4]), -M(2,0), "pitch of the matrix");
    vc_ensure_le(-vc_pi() / 2, x[4], "pitch at least -pi/2");
    vc_ensure_le(x[4], vc_pi() / 2, "pitch at most pi/2");
}
// away from gimbal lock (pitch +-90 degrees, see matrix_to_pitch) the extraction inverts the composition
VC_HARNESS(matrix_to_rpy)
{
    Matrix4f M = vc::pose("M");
    float x[6];
    MathTools::eigen4f2rpy(M, x);
    vc_assume(vc_cos(x[4]) > 0.0008f);
    eq(rpySpec(x[3], x[4], x[5]).block<3,3>(0,0).eval(), blk(M), "eigen4f2rpy inverts the rpy composition");
    eq(Vector3f(x[0], x[1], x[2]), Vector3f(M(0,3), M(1,3), M(2,3)), "eigen4f2rpy position");
}
VC_HARNESS(matrix_to_rpy_overloads)
{
    Matrix4f M = vc::pose("M");
    float x[6];
    MathTools::eigen4f2rpy(M, x);
    Vector3f v;
    MathTools::eigen4f2rpy(M, v);
    eq(v, Vector3f(x[3], x[4], x[5]), "eigen4f2rpy(vector)");
    eq(MathTools::eigen4f2rpy(M), Vector3f(x[3], x[4], x[5]), "eigen4f2rpy(returning)");
    eq(MathTools::eigen3f2rpy(blk(M)), Vector3f(x[3], x[4], x[5]), "eigen3f2rpy");
    Matrix<float, 6, 1> p = MathTools::eigen4f2posrpy(M);
    for (int i = 0; i < 6; i++) eq(p(i), x[i], "eigen4f2posrpy");
}
VC_HARNESS(matrix_to_rpy_gimbal)
{
    float d = vc_nondet_float("diff"), z = vc_nondet_bool("up") ? 1 : -1;
    // exact gimbal lock: pitch = +-90 degrees
    float s = vc_sin(d), c = vc_cos(d);
    Matrix4f M;
    M << 0, z * s, z * c, 0,
         0, c, -s, 0,
         -z, 0, 0, 0,
         0, 0, 0, 1;
    float x[6];
    MathTools::eigen4f2rpy(M, x);
    eq(blk(rpySpec(x[3], x[4], x[5])), blk(M), "eigen4f2rpy inverts the rpy composition at gimbal lock");
}
VC_HARNESS(quat_to_matrix)
{
    Q q = unitq("q");
    Vector3f t = vc::vec3("t");
    Matrix4f spec = vc::poseOf(rotQ(q), Vector3f(0, 0, 0));
    Matrix4f m, m2;
    eq(MathTools::quat2eigen4f(q), spec, "quat2eigen4f is the rotation of the quaternion");
    eq(MathTools::quat2eigen4f(q.x, q.y, q.z, q.w), spec, "quat2eigen4f(4 scalars)");
    MathTools::quat2eigen4f(q, m);
    eq(m, spec, "quat2eigen4f(q, m)");
    MathTools::quat2eigen4f(q.x, q.y, q.z, q.w, m2);
    eq(m2, spec, "quat2eigen4f(4 scalars, m)");
    eq(MathTools::quat2eigen3f(q.x, q.y, q.z, q.w), rotQ(q), "quat2eigen3f");
    eq(MathTools::posquat2eigen4f(t(0), t(1), t(2), q.x, q.y, q.z, q.w), vc::poseOf(rotQ(q), t), "posquat2eigen4f");
}
VC_HARNESS(matrix_to_quat)
{
    Matrix4f M = vc::pose("M");
    Q r = MathTools::eigen4f2quat(M);
    eq(norm2(r), 1, "eigen4f2quat yields a unit quaternion");
    eq(rotQ(r), blk(M), "eigen4f2quat represents the rotation of the matrix");
    Q r2;
    MathTools::eigen4f2quat(M, r2);
    eq(r2.w, r.w, "eigen4f2quat(m, q)"); eq(r2.x, r.x, "eigen4f2quat(m, q)"); eq(r2.y, r.y, "eigen4f2quat(m, q)"); eq(r2.z, r.z, "eigen4f2quat(m, q)");
}
static Matrix3f rodrigues(const Vector3f& a, float s, float c)
{
    float t = 1 - c;
    Matrix3f m;
    m << c + a(0)*a(0)*t, a(0)*a(1)*t - a(2)*s, a(0)*a(2)*t + a(1)*s,
         a(1)*a(0)*t + a(2)*s, c + a(1)*a(1)*t, a(1)*a(2)*t - a(0)*s,
         a(2)*a(0)*t - a(1)*s, a(2)*a(1)*t + a(0)*s, c + a(2)*a(2)*t;
    return m;
}
static Vector3f unitv(const char* n) { Matrix3f r = vc::rot(n); return Vector3f(r(0,0), r(1,0), r(2,0)); }
VC_HARNESS(axisangle_to_matrix)
{
    Vector3f a = unitv("axis");
    float al = vc_nondet_float("angle");
    Matrix3f spec = rodrigues(a, vc_sin(al), vc_cos(al));
    eq(MathTools::axisangle2eigen3f(a, al), spec, "axisangle2eigen3f is the rotation about the axis by the angle");
    eq(MathTools::axisangle2eigen4f(a, al), vc::poseOf(spec, Vector3f(0, 0, 0)), "axisangle2eigen4f has zero translation");
    Matrix4f m = Matrix4f::Identity();
    MathTools::axisangle2eigen4f(a, al, m);
    eq(m, vc::poseOf(spec, Vector3f(0, 0, 0)), "axisangle2eigen4f(axis, angle, m)");
}
VC_HARNESS(axisangle_to_quat)
{
    Vector3f a = unitv("axis");
    float al = vc_nondet_float("angle");
    Matrix3f spec = rodrigues(a, vc_sin(al), vc_cos(al));
    eq(rotQ(MathTools::axisangle2quat(a, al)), spec, "axisangle2quat is the rotation about the axis by the angle");
}
VC_HARNESS(matrix_to_axisangle)
{
    Q q = unitq("M");
    // rotations of less than 1e-5 rad are cut off by Eigen's own threshold
    vc_assume(q.x*q.x + q.y*q.y + q.z*q.z > 1e-11f);
    Matrix4f M = vc::poseOf(rotQ(q), vc::vec3("t"));
    Vector3f a;
    float al;
    MathTools::eigen4f2axisangle(M, a, al);
    eq(vc::dot(a, a), 1, "eigen4f2axisangle yields a unit axis");
    eq(rodrigues(a, vc_sin(al), vc_cos(al)), blk(M), "eigen4f2axisangle inverts the axis-angle rotation");
    vc_ensure_le(0, al, "angle is not negative");
    vc_ensure_le(al, vc_pi(), "angle is at most pi");
}
VC_HARNESS(quat_multiply)
{
    Q a = unitq("a"), b = unitq("b");
    Q r = MathTools::multiplyQuaternions(a, b);
    eq(norm2(r), 1, "the product of unit quaternions is a unit quaternion");
    eq(rotQ(r), vc::mul3(rotQ(a), rotQ(b)), "quaternion product is composition of rotations");
    eq(MathTools::getDot(a, b), a.w*b.w + a.x*b.x + a.y*b.y + a.z*b.z, "getDot");
}
VC_HARNESS(quat_inverse)
{
    Q q;
    q.w = vc_nondet_float("w"); q.x = vc_nondet_float("x"); q.y = vc_nondet_float("y"); q.z = vc_nondet_float("z");
    vc_assume(norm2(q) > 0.01f);
    Q i = MathTools::getInverse(q);
    Q p = MathTools::multiplyQuaternions(q, i);
    eq(p.w, 1, "q * q^-1 is the identity"); eq(p.x, 0, "q * q^-1 is the identity"); eq(p.y, 0, "q * q^-1 is the identity"); eq(p.z, 0, "q * q^-1 is the identity");
    Q c = MathTools::getConjugated(q);
    eq(c.w, q.w, "conjugate"); eq(c.x, -q.x, "conjugate"); eq(c.y, -q.y, "conjugate"); eq(c.z, -q.z, "conjugate");
}
VC_HARNESS(quat_delta)
{
    Q a = unitq("a"), b = unitq("b");
    Q d = MathTools::getDelta(a, b);
    Q r = MathTools::multiplyQuaternions(d, a);
    eq(r.w, b.w, "delta * q1 is q2"); eq(r.x, b.x, "delta * q1 is q2"); eq(r.y, b.y, "delta * q1 is q2"); eq(r.z, b.z, "delta * q1 is q2");
}
VC_HARNESS(quat_angle)
{
    Q q = unitq("q");
    // rotations of less than 1e-5 rad are cut off by Eigen's own threshold; the identity is covered below
    vc_assume(q.x*q.x + q.y*q.y + q.z*q.z > 1e-11f);
    float a = MathTools::getAngle(q);
    vc_ensure_le(0, a, "rotation angle is not negative");
    vc_ensure_le(a, vc_pi(), "rotation angle is at most pi");
    eq(vc_cos(a), 2 * q.w * q.w - 1, "rotation angle of the quaternion");
}
VC_HARNESS(quat_angle_identity)
{
    Q q;
    q.w = vc_nondet_bool("negative") ? -1 : 1; q.x = 0; q.y = 0; q.z = 0;
    eq(MathTools::getAngle(q), 0, "rotation angle of the identity");
}
VC_HARNESS(slerp_ends)
{
    Q a = unitq("a"), b = unitq("b");
    Q r0 = MathTools::slerp(a, b, 0.0f), r1 = MathTools::slerp(a, b, 1.0f);
    eq(rotQ(r0), rotQ(a), "slerp starts at the first rotation");
    eq(rotQ(r1), rotQ(b), "slerp ends at the second rotation");
}
VC_HARNESS(slerp_unit)
{
    // b = a * (rotation by 2*h about a unit axis), 0 < h < pi/2: generic pair of rotations
    Q a = unitq("a");
    Vector3f n = unitv("n");
    float h = vc_nondet_range("h", 0.05f, 1.5f), al = vc_nondet_range("alpha", 0, 1);
    vc_assume(vc_and(vc_and(vc_cos(h) > 0.01f, vc_cos(h) < 0.999f), vc_sin(h) > 0.01f));
    Q d, e;
    d.w = vc_cos(h); d.x = n(0) * vc_sin(h); d.y = n(1) * vc_sin(h); d.z = n(2) * vc_sin(h);
    e.w = vc_cos(al * h); e.x = n(0) * vc_sin(al * h); e.y = n(1) * vc_sin(al * h); e.z = n(2) * vc_sin(al * h);
    Q b = MathTools::multiplyQuaternions(a, d), spec = MathTools::multiplyQuaternions(a, e);
    Q r = MathTools::slerp(a, b, al);
    eq(r.w, spec.w, "slerp moves along the geodesic with constant speed"); eq(r.x, spec.x, "slerp moves along the geodesic with constant speed");
    eq(r.y, spec.y, "slerp moves along the geodesic with constant speed"); eq(r.z, spec.z, "slerp moves along the geodesic with constant speed");
}
VC_HARNESS(mean_of_one)
{
    Q a = unitq("a");
    std::vector<Q> v;
    v.push_back(a);
    Q m = MathTools::getMean(v);
    eq(rotQ(m), rotQ(a), "mean of a single rotation");
    v.push_back(a);
    v[1].w = -a.w; v[1].x = -a.x; v[1].y = -a.y; v[1].z = -a.z;
    m = MathTools::getMean(v);
    eq(rotQ(m), rotQ(a), "mean of q and -q is the same rotation");
}
VC_HARNESS(mean_unit)
{
    Q a = unitq("a"), b = unitq("b");
    std::vector<Q> v;
    v.push_back(a);
    v.push_back(b);
    Q m = MathTools::getMean(v);
    eq(norm2(m), 1, "mean of rotations is a unit quaternion");
    // equally far from both
    float da = MathTools::getDot(m, a), db = MathTools::getDot(m, b);
    eq(da * da, db * db, "mean of two rotations is equally far from both");
}
VC_HARNESS(rotation_between)
{
    // from and to span a plane at the angle th; arbitrary lengths
    Matrix3f R = vc::rot("R");
    float h = vc_nondet_range("h", 0.01f, 1.55f), l1 = vc_nondet_range("l1", 0.1f, 10), l2 = vc_nondet_range("l2", 0.1f, 10);
    vc_assume(vc_and(vc_sin(h) > 0.005f, vc_cos(h) > 0.005f));
    Vector3f x(R(0,0), R(1,0), R(2,0)), y(R(0,1), R(1,1), R(2,1)), to;
    to = vc_cos(2 * h) * x + vc_sin(2 * h) * y;
    Q q = MathTools::getRotation(l1 * x, l2 * to);
    eq(norm2(q), 1, "getRotation yields a unit quaternion");
    eq(vc::app3(rotQ(q), x), to, "getRotation turns the first direction into the second");
}
VC_HARNESS(rotation_between_parallel)
{
    Matrix3f R = vc::rot("R");
    float l1 = vc_nondet_range("l1", 0.1f, 10), l2 = vc_nondet_range("l2", 0.1f, 10);
    Vector3f x(R(0,0), R(1,0), R(2,0));
    Q q = MathTools::getRotation(l1 * x, l2 * x);
    eq(vc::app3(rotQ(q), x), x, "getRotation of parallel vectors is the identity");
}
VC_HARNESS(rotation_between_opposite)
{
    int ax = vc_case("axis", 0, 3);
    Vector3f x(0, 0, 0);
    if (ax < 3) x(ax) = 1; else { x(1) = 0.6f; x(2) = 0.8f; }
    float l1 = vc_nondet_range("l1", 0.1f, 10);
    Q q = MathTools::getRotation(l1 * x, -l1 * x);
    eq(norm2(q), 1, "getRotation of opposite vectors yields a unit quaternion");
    eq(vc::app3(rotQ(q), x), -x, "getRotation turns a vector into its opposite");
}
VC_HARNESS(hopf)
{
    Q q = unitq("q");
    // the coordinates are singular where x = y = 0 or w = z = 0; the code snaps to the pole within 1e-6
    vc_assume(vc_and(q.x*q.x + q.y*q.y < 0.9999f, q.x*q.x + q.y*q.y > 0.0001f));
    Vector3f h = MathTools::quat2hopf(q);
    Q r = MathTools::hopf2quat(h);
    eq(rotQ(r), rotQ(q), "hopf coordinates represent the same rotation");
}
VC_HARNESS(angle_between_vectors)
{
    Matrix3f R = vc::rot("R");
    float th = vc_nondet_range("th", 0, 3.14f), l1 = vc_nondet_range("l1", 0.1f, 10), l2 = vc_nondet_range("l2", 0.1f, 10);
    Vector3f x(R(0,0), R(1,0), R(2,0)), y(R(0,1), R(1,1), R(2,1)), to;
    to = vc_cos(th) * x + vc_sin(th) * y;
    float a = MathTools::getAngle((l1 * x).eval(), (l2 * to).eval());
    eq(vc_cos(a), vc_cos(th), "getAngle is the angle between the vectors");
    vc_ensure_le(0, a, "angle is not negative");
    vc_ensure_le(a, vc_pi(), "angle is at most pi");
}
