// VC-PROPERTY: C04
// VC-TU: VirtualRobot/MathTools.cpp VirtualRobot/VirtualRobotException.cpp VirtualRobot/math/Helpers.cpp VirtualRobot/math/LinearInterpolatedOrientation.cpp VirtualRobot/math/WeightedAverage.cpp
// VC-OPT: merge=0
#include "vc.h"
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/math/Helpers.h>
#include <VirtualRobot/math/WeightedAverage.h>
using namespace Eigen;
using vc::eq;
using math::Helpers;
using VirtualRobot::MathTools::fmod;
namespace MT = VirtualRobot::MathTools;

static void same_angle(float a, float b, const char* l)
{
    eq(vc_cos(a), vc_cos(b), l);
    eq(vc_sin(a), vc_sin(b), l);
}
VC_HARNESS(angle_ranges)
{
    float x = vc_nondet_range("x", -100, 100), c = vc_nondet_range("center", -10, 10), y = vc_nondet_range("y", -100, 100);
    switch (vc_case("which", 0, 3))
    {
    case 0:
    {
        float r = MT::angleMod2PI(x);
        vc_ensure_le(0, r, "angleMod2PI: not negative");
        vc_ensure_le(r, 2 * vc_pi(), "angleMod2PI: at most 2 pi");
        same_angle(r, x, "angleMod2PI: same angle");
        break;
    }
    case 1:
    {
        float r = MT::angleModPI(x);
        vc_ensure_le(-vc_pi(), r, "angleModPI: at least -pi");
        vc_ensure_le(r, vc_pi(), "angleModPI: at most pi");
        same_angle(r, x, "angleModPI: same angle");
        break;
    }
    case 2:
    {
        float r = MT::angleModX(x, c);
        vc_ensure_le(c - vc_pi(), r, "angleModX: within pi of the center");
        vc_ensure_le(r, c + vc_pi(), "angleModX: within pi of the center");
        same_angle(r, x, "angleModX: same angle");
        break;
    }
    default:
    {
        float d = MT::AngleDelta(x, y);
        vc_ensure_le(-vc_pi(), d, "AngleDelta: the shorter way");
        vc_ensure_le(d, vc_pi(), "AngleDelta: the shorter way");
        same_angle(x + d, y, "AngleDelta leads from the first angle to the second");
    }
    }
}
VC_HARNESS(range_modulo)
{
    float lo = vc_nondet_range("lo", -100, 100), w = vc_nondet_range("width", 0.01, 100), d = vc_nondet_range("d", 0, 100);
    int k = vc_case("k", -2, 2);
    vc_assume(d + 0.001f < w && d > 0.001f);
    eq(fmod(lo + d + k * w, lo, lo + w), lo + d, "the value of the range that differs by whole widths");
}
VC_HARNESS(angle_interpolation)
{
    float a = vc_nondet_range("a", -10, 10), d = vc_nondet_range("d", -3, 3), f = vc_nondet_range("f", 0, 1);
    int k = vc_case("k", -1, 1);
    eq(MT::AngleLerp(a, a + d + k * 2 * vc_pi(), f), a + f * d, "along the shorter way");
}
VC_HARNESS(shift_angle)
{
    // iterations of the loops: bounded by the range
    float x = vc_nondet_range("x", -14, 14);
    if (vc_case("which", 0, 1))
    {
        float r = Helpers::ShiftAngle0_2PI(x);
        vc_ensure_le(0, r, "not negative");
        vc_ensure_le(r, 2 * vc_pi(), "at most 2 pi");
        same_angle(r, x, "same angle");
    }
    else
    {
        float r = Helpers::AngleModPI(x);
        vc_ensure_le(-vc_pi(), r, "at least -pi");
        vc_ensure_le(r, vc_pi(), "at most pi");
        same_angle(r, x, "same angle");
    }
}
VC_HARNESS(linear_interpolation)
{
    float a = vc_nondet_range("a", -1000, 1000), b = vc_nondet_range("b", -1000, 1000), f = vc_nondet_range("f", -2, 2);
    eq(Helpers::Lerp(a, b, f), a + f * (b - a), "Lerp");
    eq(MT::Lerp(a, b, f), a + f * (b - a), "Lerp");
    Vector3f u = vc::vec3("u"), v = vc::vec3("v"), w = Helpers::Lerp(u, v, f);
    for (int i = 0; i < 3; i++) eq(w(i), u(i) + f * (v(i) - u(i)), "Lerp of vectors");
    int lo = vc_nondet_int("lo", -10, 10), hi = vc_nondet_int("hi", -10, 10), k = vc_nondet_int("k", -10, 10);
    float r = Helpers::Lerp(a, b, lo, hi, k);
    if (lo == hi) eq(r, a, "Lerp in an empty range");
    else eq((r - a) * (hi - lo), (b - a) * (k - lo), "Lerp in a range of integers");
    vc_assume(std::fabs(a - b) > 0.01f);
    eq(Helpers::ILerp(a, b, a + f * (b - a)), f, "ILerp inverts Lerp");
    eq(MT::ILerp(a, b, a + f * (b - a)), f, "ILerp inverts Lerp");
}
VC_HARNESS(index_of_a_parameter)
{
    float lo = vc_nondet_range("lo", -100, 100), hi = vc_nondet_range("hi", -100, 100), t = vc_nondet_range("t", -200, 200), f;
    int n = vc_case("n", 2, 5), i;
    vc_assume(hi - lo > 0.1f);
    Helpers::GetIndex(t, lo, hi, n, i, f);
    vc_ensure(vc_and(i >= 0, i <= n - 2), "index of a segment");
    eq((i + f) * (hi - lo), (t - lo) * (n - 1), "the parameter is the index plus the part of the segment");
    if (t >= lo && t <= hi)
    {
        vc_ensure_le(0, f, "part of a segment");
        vc_ensure_le(f, 1, "part of a segment");
    }
    Helpers::GetIndex(t, lo, lo, n, i, f);
    vc_ensure(i == 0, "empty range");
    eq(f, 0, "empty range");
}
VC_HARNESS(clamping)
{
    float lo = vc_nondet_range("lo", -100, 100), hi = vc_nondet_range("hi", -100, 100), x = vc_nondet_range("x", -300, 300);
    vc_assume(lo <= hi);
    float r = Helpers::Clamp(lo, hi, x);
    vc_ensure_le(lo, r, "within the limits");
    vc_ensure_le(r, hi, "within the limits");
    if (x < lo) eq(r, lo, "the nearer limit");
    else if (x > hi) eq(r, hi, "the nearer limit");
    else eq(r, x, "values within the limits are kept");
    vc_ensure(Helpers::Sign(x) == (x > 0) - (x < 0), "sign");
    float a = x, b = lo;
    Helpers::Swap(a, b);
    eq(a, lo, "swapped");
    eq(b, x, "swapped");
}
VC_HARNESS(limited_vector)
{
    int n = vc_case("n", 1, 2), one = vc_case("one", 0, 1);
    VectorXf v(n), m(one ? 1 : n);
    for (int i = 0; i < n; i++) v(i) = vc_nondet_range("v", -100, 100);
    for (int i = 0; i < m.rows(); i++) m(i) = vc_nondet_range("max", -1, 100);
    VectorXf r = Helpers::LimitVectorLength(v, m);
    vc_ensure(r.rows() == n, "same dimension");
    bool over = false, tight = false;
    for (int i = 0; i < n; i++)
    {
        float l = m(one ? 0 : i);
        if (l < 0) continue;
        vc_ensure_le(r(i), l, "within the limit");
        vc_ensure_le(-l, r(i), "within the limit");
        if (v(i) > l || -v(i) > l) over = true;
        if (vc_eq(r(i), l) || vc_eq(r(i), -l)) tight = true;
    }
    for (int i = 0; i < n; i++)
    {
        vc_ensure_le(0, r(i) * v(i), "not reversed");
        for (int k = 0; k < i; k++) eq(r(i) * v(k), r(k) * v(i), "same direction");
        if (!over) eq(r(i), v(i), "vectors within the limits are kept");
    }
    vc_ensure(!over || tight, "not shorter than necessary");
}
VC_HARNESS(limited_vector_wrong_size)
{
    VectorXf v(3), m(2);
    for (int i = 0; i < 3; i++) v(i) = vc_nondet_range("v", -100, 100);
    m(0) = m(1) = 1;
    bool thrown = false;
    try { Helpers::LimitVectorLength(v, m); }
    catch (...) { thrown = true; }
    vc_ensure(thrown, "limits of another dimension are refused");
}
VC_HARNESS(ranges)
{
    int n = vc_case("steps", 1, 3);
    float a = vc_nondet_range("a", -100, 100), b = vc_nondet_range("b", -100, 100);
    std::vector<float> r = Helpers::FloatRange(a, b, n);
    vc_ensure((int)r.size() == n + 1, "steps and an end");
    for (int i = 0; i <= n; i++) eq(r[i] * n, a * n + i * (b - a), "equal steps from start to end");
    std::vector<Vector3f> q = Helpers::VectorRangeSymmetric(a, b, 1);
    vc_ensure(q.size() == 8, "all combinations");
    for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) eq(q[i](k), (i >> (2 - k)) & 1 ? b : a, "all combinations");
    std::vector<float> x(1, a), y(2, b), z(1, 3);
    y[1] = a;
    q = Helpers::VectorRange(x, y, z);
    vc_ensure(q.size() == 2, "all combinations");
    for (int i = 0; i < 2; i++) { eq(q[i](0), a, "first"); eq(q[i](1), i ? a : b, "second"); eq(q[i](2), 3, "third"); }
}
VC_HARNESS(component_wise)
{
    Vector3f a = vc::vec3("a"), b = vc::vec3("b"), lo = Helpers::CwiseMin(a, b), hi = Helpers::CwiseMax(a, b);
    for (int i = 0; i < 3; i++)
    {
        eq(lo(i), a(i) < b(i) ? a(i) : b(i), "smaller one");
        eq(hi(i), a(i) < b(i) ? b(i) : a(i), "larger one");
        vc_assume(std::fabs(b(i)) > 0.01f);
    }
    Vector3f q = Helpers::CwiseDivide(a, b);
    for (int i = 0; i < 3; i++) eq(q(i) * b(i), a(i), "quotient");
    int n = vc_case("n", 0, 3);
    std::vector<Vector3f> v;
    Vector3f s(0, 0, 0);
    for (int i = 0; i < n; i++) { v.push_back(vc::vec3("v")); s = s + v[i]; }
    Vector3f m = Helpers::Average(v);
    for (int i = 0; i < 3; i++) eq(m(i) * n, s(i), "average");
    if (n == 0) for (int i = 0; i < 3; i++) eq(m(i), 0, "average of nothing");
}
VC_HARNESS(weighted_average)
{
    math::WeightedFloatAverage f;
    math::WeightedVec3Average g;
    int n = vc_case("n", 1, 3);
    float s = 0, w = 0;
    Vector3f sv(0, 0, 0);
    for (int i = 0; i < n; i++)
    {
        float x = vc_nondet_range("x", -100, 100), y = vc_nondet_range("w", 0.1, 100);
        Vector3f v = vc::vec3("v");
        f.Add(x, y);
        g.Add(v, y);
        s += x * y; w += y;
        for (int k = 0; k < 3; k++) sv(k) += v(k) * y;
    }
    eq(f.WeightSum(), w, "sum of the weights");
    eq(g.WeightSum(), w, "sum of the weights");
    eq(f.Average() * w, s, "weighted average");
    Vector3f m = g.Average();
    for (int k = 0; k < 3; k++) eq(m(k) * w, sv(k), "weighted average");
}
VC_HARNESS(orthonormal_vectors)
{
    Vector3f v = vc::vec3("v"), a, b;
    vc_assume(v(0) * v(0) + v(1) * v(1) + v(2) * v(2) > 0.01f);
    Vector3f n = Helpers::GetOrthonormalVectors(v, a, b);
    eq(vc::dot(n, n), 1, "unit vector");
    eq(vc::dot(a, a), 1, "unit vector");
    eq(vc::dot(b, b), 1, "unit vector");
    eq(vc::dot(n, a), 0, "orthogonal");
    eq(vc::dot(n, b), 0, "orthogonal");
    eq(vc::dot(a, b), 0, "orthogonal");
    Vector3f c = vc::cross(v, n);
    for (int i = 0; i < 3; i++) eq(c(i), 0, "direction kept");
    vc_ensure_le(0, vc::dot(v, n), "direction kept");
}
VC_HARNESS(angle_between)
{
    Vector3f a = vc::vec3("a"), b = vc::vec3("b");
    vc_assume(vc::dot(a, a) > 0.01f && vc::dot(b, b) > 0.01f);
    float r = Helpers::SmallestAngle(a, b);
    vc_ensure_le(0, r, "not negative");
    vc_ensure_le(r, vc_pi(), "at most pi");
    // l is the product of the lengths (Lagrange's identity)
    Vector3f c = vc::cross(a, b);
    float l = vc_sqrt(vc::dot(c, c) + vc::dot(a, b) * vc::dot(a, b));
    eq(l * l, vc::dot(a, a) * vc::dot(b, b), "product of the lengths");
    eq(vc_cos(r) * l, vc::dot(a, b), "cosine");
}
VC_HARNESS(angle_of_a_direction)
{
    Vector2f d = vc::vec2("d");
    vc_assume(d(0) * d(0) + d(1) * d(1) > 0.01f);
    float x = Helpers::Angle(d), l = vc_sqrt(d(0) * d(0) + d(1) * d(1));
    eq(vc_cos(x) * l, d(0), "angle in the plane");
    eq(vc_sin(x) * l, d(1), "angle in the plane");
}
VC_HARNESS(normalized)
{
    Vector3f v = vc::vec3("v");
    float e = vc_nondet_range("epsilon", 0.01, 0.5), l = vc::dot(v, v);
    vc_assume(std::fabs(l - 1 - e) > 1e-4f && std::fabs(l - 1 + e) > 1e-4f);
    bool thrown = false;
    try { Helpers::AssertNormalized(v, e); }
    catch (...) { thrown = true; }
    vc_ensure(thrown == (l < 1 - e || l > 1 + e), "vectors that are not normalized are refused");
}
VC_HARNESS(coordinates)
{
    float r = vc_nondet_range("r", 0, 100), a = vc_nondet_range("a", -10, 10), h = vc_nondet_range("h", -10, 10);
    Vector3f c = Helpers::CartesianFromCylinder(r, a, h), d = Helpers::CreateVectorFromCylinderCoords(r, a, h), s = Helpers::CartesianFromSphere(r, h, a);
    Vector3f e(r * vc_cos(a), r * vc_sin(a), h), g(r * vc_sin(h) * vc_cos(a), r * vc_sin(h) * vc_sin(a), r * vc_cos(h));
    for (int i = 0; i < 3; i++)
    {
        eq(c(i), e(i), "cylinder coordinates");
        eq(d(i), e(i), "cylinder coordinates");
        eq(s(i), g(i), "sphere coordinates");
    }
}
VC_HARNESS(degrees)
{
    float x = vc_nondet_range("x", -1000, 1000);
    eq(Helpers::deg2rad(x) * 180, x * vc_pi(), "degrees to radian");
    eq(Helpers::rad2deg(x) * vc_pi(), x * 180, "radian to degrees");
    eq(MT::deg2rad(x) * 180, x * vc_pi(), "degrees to radian");
    eq(MT::rad2deg(x) * vc_pi(), x * 180, "radian to degrees");
    Vector3f v = vc::vec3("v"), a = Helpers::deg2rad(v), b = Helpers::rad2deg(v);
    for (int i = 0; i < 3; i++)
    {
        eq(a(i) * 180, v(i) * vc_pi(), "degrees to radian");
        eq(b(i) * vc_pi(), v(i) * 180, "radian to degrees");
    }
}
VC_HARNESS(pose_parts)
{
    Matrix4f p = vc::pose("p");
    Vector3f t = vc::vec3("t");
    float q[4];
    vc_unit_quat("q", q);
    Matrix3f r = vc::rotOf(q[0], q[1], q[2], q[3]);
    Matrix4f a = Helpers::CreatePose(t, r), b = Helpers::CreatePose(t, Quaternionf(q[0], q[1], q[2], q[3])), c = Helpers::TranslatePose(p, t), e = vc::poseOf(r, t);
    vc::eqm(a, e, 4, 4, "pose of position and orientation");
    vc::eqm(b, e, 4, 4, "pose of position and quaternion");
    Vector3f x = Helpers::GetPosition(p);
    Matrix3f o = Helpers::GetOrientation(p);
    for (int i = 0; i < 3; i++)
    {
        eq(x(i), p(i, 3), "position");
        for (int k = 0; k < 3; k++) eq(o(i, k), p(i, k), "orientation");
        for (int k = 0; k < 3; k++) eq(c(i, k), p(i, k), "translated pose");
        eq(c(i, 3), p(i, 3) + t(i), "translated pose");
        eq(c(3, i), 0, "translated pose");
    }
}
VC_HARNESS(rotation_to_a_direction)
{
    Vector3f a = vc::vec3("a"), b = vc::vec3("b");
    float la = vc_sqrt(vc::dot(a, a)), lb = vc_sqrt(vc::dot(b, b));
    vc_assume(la > 0.1f && lb > 0.1f);
    vc_assume(vc::dot(a, b) > -0.9f * la * lb);
    Matrix3f r = Helpers::GetRotationMatrix(a, b);
    Vector3f x = vc::app3(r, a);
    for (int i = 0; i < 3; i++) eq(x(i) * lb, b(i) * la, "the first direction becomes the second");
}
VC_HARNESS(rotation_vectors)
{
    Vector3f v = vc::vec3("v");
    float l = vc_sqrt(vc::dot(v, v));
    bool none = vc_case("none", 0, 1);
    if (none) v = Vector3f(0, 0, 0);
    else vc_assume(l > 0.01f);
    Matrix3f r = Helpers::RotationVectorToOrientation(v);
    Matrix3f e = none ? Matrix3f(Matrix3f::Identity()) : vc::rotOf(vc_cos(l / 2), vc_sin(l / 2) * v(0) / l, vc_sin(l / 2) * v(1) / l, vc_sin(l / 2) * v(2) / l);
    vc::eqm(r, e, 3, 3, "rotation about the vector by its length");
}
VC_HARNESS(integer_power)
{
    int a = vc_nondet_int("a", -20, 20), b = vc_case("b", 0, 4), e = 1;
    for (int i = 0; i < b; i++) e *= a;
    vc_ensure(MT::pow_int(a, b) == e, "integer power");
}
VC_HARNESS(permutations)
{
    VectorXf a(3), b(3);
    for (int i = 0; i < 3; i++) { a(i) = vc_nondet_range("a", -10, 10); b(i) = vc_nondet_range("b", -10, 10); }
    int k = vc_case("k", 0, 7);
    VectorXf r = MT::getPermutation(a, b, k);
    for (int i = 0; i < 3; i++) eq(r(i), (k >> i) & 1 ? a(i) : b(i), "entries of both vectors chosen by the bits of the number");
}
