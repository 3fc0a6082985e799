// VC-PROPERTY: C03
// VC-TU: VirtualRobot/math/Helpers.cpp VirtualRobot/math/Bezier.cpp VirtualRobot/math/LinearContinuedBezier.cpp VirtualRobot/math/Line.cpp VirtualRobot/math/LineR2.cpp VirtualRobot/math/LineStrip.cpp VirtualRobot/math/Plane.cpp VirtualRobot/math/Triangle.cpp VirtualRobot/math/ImplicitPlane.cpp VirtualRobot/math/Contact.cpp VirtualRobot/math/CompositeFunctionR1R6.cpp VirtualRobot/math/LinearInterpolatedOrientation.cpp VirtualRobot/math/TransformedFunctionR1R3.cpp VirtualRobot/math/TransformedFunctionR2R3.cpp VirtualRobot/math/Grid3D.cpp VirtualRobot/math/GridCacheFloat3.cpp VirtualRobot/math/Index3.cpp VirtualRobot/math/Primitive.cpp VirtualRobot/math/AbstractFunctionR1R2.cpp VirtualRobot/math/AbstractFunctionR1R3.cpp VirtualRobot/math/AbstractFunctionR2R3.cpp VirtualRobot/math/Kernels.cpp
// VC-OPT: merge=0
// VC-FLAGS: -fno-access-control
#include "vc.h"
#include <functional>
#include <sstream>
#include <VirtualRobot/math/Helpers.h>
#include <VirtualRobot/math/LinearContinuedBezier.h>
#include <VirtualRobot/math/Bezier.h>
#include <VirtualRobot/math/Line.h>
#include <VirtualRobot/math/LineR2.h>
#include <VirtualRobot/math/LineStrip.h>
#include <VirtualRobot/math/LineStripR1RM.h>
#include <VirtualRobot/math/Plane.h>
#include <VirtualRobot/math/Triangle.h>
#include <VirtualRobot/math/Primitive.h>
#include <VirtualRobot/math/ImplicitPlane.h>
#include <VirtualRobot/math/Contact.h>
#include <VirtualRobot/math/CompositeFunctionR1R6.h>
#include <VirtualRobot/math/LinearInterpolatedOrientation.h>
#include <VirtualRobot/math/TransformedFunctionR1R3.h>
#include <VirtualRobot/math/TransformedFunctionR2R3.h>
#include <VirtualRobot/math/AbstractFunctionR1R2.h>
#include <VirtualRobot/math/Grid3D.h>
#include <VirtualRobot/math/Array3D.h>
#include <VirtualRobot/math/GridCacheFloat3.h>
#include <VirtualRobot/math/Kernels.h>
using namespace math;
using namespace Eigen;
using vc::eq; using vc::dot; using vc::cross;

// The derivative of every polynomial of at most fourth degree is this combination of five of its values:
static Vector3f slope(AbstractFunctionR1R3& c, float t, float h)
{
    Vector3f a = c.Get(t + h), b = c.Get(t - h), d = c.Get(t + 2 * h), e = c.Get(t - 2 * h), r;
    for (int i = 0; i < 3; i++) r(i) = (8 * (a(i) - b(i)) - (d(i) - e(i))) / (12 * h);
    return r;
}
// any cubic polynomial, to test functions of curves with
struct Cubic : public AbstractFunctionR1R3
{
    Vector3f a, b, c, d;
    Cubic() : a(vc::vec3("a")), b(vc::vec3("b")), c(vc::vec3("c")), d(vc::vec3("d")) {}
    Vector3f Get(float t) override { return a + b * t + c * (t * t) + d * (t * t * t); }
    Vector3f GetDerivative(float t) override { return b + c * (2 * t) + d * (3 * t * t); }
};
struct Quadric : public AbstractFunctionR2R3
{
    Vector3f a, b, c, d;
    float lu, lv; // inverse of the parametrisation: of a plane
    Vector3f last;
    Quadric() : a(vc::vec3("a")), b(vc::vec3("b")), c(vc::vec3("c")), d(vc::vec3("d")), last(0, 0, 0) { lu = vc_nondet_range("lu", -2, 2); lv = vc_nondet_range("lv", -2, 2); }
    Vector3f GetPoint(float u, float v) override { return a + b * u + c * v + d * (u * v); }
    Vector3f GetDdu(float u, float v) override { return b + d * v; }
    Vector3f GetDdv(float u, float v) override { return c + d * u; }
    void GetUV(Vector3f pos, float& u, float& v) override { last = pos; u = lu; v = lv; }
};
VC_HARNESS(bezier)
{
    Vector3f p[4];
    for (int i = 0; i < 4; i++) p[i] = vc::vec3("p");
    Bezier b(p[0], p[1], p[2], p[3]);
    eq(b.Get(0), p[0], "starts at the first point");
    eq(b.Get(1), p[3], "ends at the last point");
    float t = vc_nondet_range("t", -2, 2), h = vc_nondet_range("h", 0.1, 1);
    // de Casteljau's construction
    Vector3f q[4];
    for (int i = 0; i < 4; i++) q[i] = p[i];
    for (int k = 3; k > 0; k--) for (int i = 0; i < k; i++) for (int c = 0; c < 3; c++) q[i](c) = q[i](c) * (1 - t) + q[i + 1](c) * t;
    eq(b.Get(t), q[0], "Bezier curve");
    eq(b.GetDerivative(t), slope(b, t, h), "derivative");
    int n = vc_case("steps", 1, 3);
    std::vector<Vector3f> s = Bezier::CubicBezier(p[0], p[1], p[2], p[3], n);
    vc_ensure((int)s.size() == n + 1, "a point per step and the end");
    if ((int)s.size() == n + 1) for (int i = 0; i <= n; i++) eq(s[i], b.Get(float(i) / n), "points of the curve at equal steps");
}
VC_HARNESS(continued_bezier)
{
    Vector3f p[4];
    for (int i = 0; i < 4; i++) p[i] = vc::vec3("p");
    Bezier b(p[0], p[1], p[2], p[3]);
    LinearContinuedBezier c(p[0], p[1], p[2], p[3]);
    float t = vc_nondet_range("t", -5, 5);
    int part = vc_case("part", 0, 2);
    if (part == 0) { vc_assume(t >= 0 && t <= 1); eq(c.Get(t), b.Get(t), "the curve"); eq(c.GetDerivative(t), b.GetDerivative(t), "derivative of the curve"); return; }
    vc_assume(part == 1 ? t < 0 : t > 1);
    int e = part - 1;
    Vector3f d = b.GetDerivative(e), o = b.Get(e), x = c.Get(t);
    for (int i = 0; i < 3; i++) eq(x(i), o(i) + (t - e) * d(i), "continued as tangent");
    eq(c.GetDerivative(t), d, "continued as tangent");
}
VC_HARNESS(line)
{
    Vector3f p = vc::vec3("p"), d = vc::vec3("d"), x = vc::vec3("x"), q = vc::vec3("q");
    vc_assume(dot(d, d) > 0.01f);
    Line l(p, d);
    float t = vc_nondet_range("t", -10, 10);
    Vector3f a = l.Get(t);
    for (int i = 0; i < 3; i++) eq(a(i), p(i) + t * d(i), "point of the line");
    eq(l.GetDerivative(t), d, "derivative");
    eq(l.GetT(a), t, "parameter of a point of the line");
    Vector3f n = l.GetClosestPoint(x);
    eq(dot(n - x, d), 0, "closest point: perpendicular");
    eq(cross(n - p, d), Vector3f(0, 0, 0), "closest point: on the line");
    eq(l.Get(l.GetT(x)), n, "parameter of the closest point");
    eq(l.GetDistanceToPoint(x), x - n, "way from the line to the point");
    Line u = l.Normalized();
    eq(dot(u.Dir(), u.Dir()), 1, "normalized direction");
    eq(cross(u.Dir(), d), Vector3f(0, 0, 0), "same direction");
    vc_ensure_le(0, dot(u.Dir(), d), "same direction");
    eq(u.Pos(), p, "same position");
    Line f = Line::FromPoints(p, q);
    eq(f.Get(0), p, "from the first point");
    eq(f.Get(1), q, "to the second point");
    Matrix4f P = vc::pose("P"), Q = vc::pose("Q");
    Line g = Line::FromPoses(P, Q);
    for (int i = 0; i < 3; i++) { eq(g.Get(0)(i), P(i, 3), "from the first pose"); eq(g.Get(1)(i), Q(i, 3), "to the second pose"); }
    eq(l.Transform(P).Get(t), vc::app(P, a), "transformed line");
}
VC_HARNESS(line_r2)
{
    Vector3f p = vc::vec3("p"), d = vc::vec3("d"), x = vc::vec3("x");
    vc_assume(dot(d, d) > 0.01f);
    LineR2 l(p, d);
    float t = vc_nondet_range("t", -10, 10);
    Vector3f a = l.Get(t), n = l.GetClosestPoint(x);
    for (int i = 0; i < 3; i++) eq(a(i), p(i) + t * d(i), "point of the line");
    eq(l.GetDerivative(t), d, "derivative");
    eq(l.GetT(a), t, "parameter of a point of the line");
    eq(dot(n - x, d), 0, "closest point: perpendicular");
    eq(l.Get(l.GetT(x)), n, "parameter of the closest point");
    LineR2 u = l.Normalized();
    eq(dot(u.Dir(), u.Dir()), 1, "normalized direction");
    eq(cross(u.Dir(), d), Vector3f(0, 0, 0), "same direction");
    vc_ensure_le(0, dot(u.Dir(), d), "same direction");
}
// triangles and lines meet exactly if the line meets the triangle's plane within the triangle
VC_HARNESS(line_triangle)
{
    Vector3f a(0, 0, 0), b(2, 0, 0), c(0, 3, 0), p = vc::vec3("p"), d = vc::vec3("d");
    Matrix4f T = vc::poseOf(Matrix3f::Identity(), vc::vec3("T"));
    float t = 0;
    vc_assume(d(2) > 0.01f || d(2) < -0.01f);
    float s = -p(2) / d(2), x = p(0) + s * d(0), y = p(1) + s * d(1);
    vc_assume(vc_and(vc_and(std::fabs(x) > 1e-3f, std::fabs(y) > 1e-3f), vc_and(std::fabs(s) > 1e-3f, std::fabs(3 * x + 2 * y - 6) > 1e-3f)));
    bool hit = x > 0 && y > 0 && 3 * x + 2 * y < 6 && s > 0;
    Line l(vc::app(T, p), d);
    bool r = l.IntersectsTriangle(Triangle(vc::app(T, a), vc::app(T, b), vc::app(T, c)), t);
    vc_ensure(r == hit, "meets exactly if the point of the plane is in the triangle, ahead");
    if (r && hit) eq(t, s, "parameter of the point");
}
VC_HARNESS(line_triangle_point)
{
    // the point found, for every triangle
    Vector3f a = vc::vec3("a"), b = vc::vec3("b"), c = vc::vec3("c"), p = vc::vec3("p"), d = vc::vec3("d");
    float t = 0;
    vc_assume(std::fabs(dot(cross(b - a, c - a), d)) > 0.01f);
    Line l(p, d);
    if (!l.IntersectsTriangle(Triangle(a, b, c), t)) return;
    Vector3f n = cross(b - a, c - a);
    eq(dot(n, l.Get(t)) + dot(n, n), dot(n, a) + dot(n, n), "in the plane of the triangle");
    vc_ensure_le(0, t, "ahead");
}
VC_HARNESS(line_primitive)
{
    float z[3], dz = vc_nondet_range("dz", 0.1, 1);
    PrimitivePtr p(new Primitive());
    int n = vc_case("n", 0, 3), best = -1;
    Line l(Vector3f(0, 0, 0), Vector3f(0, 0, dz));
    for (int i = 0; i < n; i++)
    {
        z[i] = vc_nondet_range("z", -10, 10);
        vc_assume(std::fabs(z[i]) > 0.01f);
        p->push_back(Triangle(Vector3f(-1, -1, z[i]), Vector3f(2, -1, z[i]), Vector3f(-1, 2, z[i])));
        if (z[i] > 0 && (best < 0 || z[i] < z[best])) best = i;
    }
    float t = 0;
    bool r = l.IntersectsPrimitive(p, t);
    vc_ensure(r == (best >= 0), "meets exactly if one of the triangles is met");
    if (r && best >= 0) eq(t * dz, z[best], "the first triangle met");
}
VC_HARNESS(line_strip)
{
    int n = vc_case("n", 2, 4);
    std::vector<Vector3f> p;
    std::vector<Matrix<float, 2, 1>> q;
    for (int i = 0; i < n; i++) { p.push_back(vc::vec3("p")); q.push_back(vc::vec2("q")); }
    float lo = vc_nondet_range("lo", -10, 10), w = vc_nondet_range("width", 0.1, 10), f = vc_nondet_range("f", 0, 1), o = vc_nondet_range("o", -30, 30);
    LineStrip l(p, lo, lo + w);
    LineStripR1R2 m(q, lo, lo + w);
    int k = vc_case("segment", 0, 2);
    vc_assume(k < n - 1);
    float t = lo + w * (k + f) / (n - 1);
    Vector3f x = l.Get(t);
    Vector2f y = m.Get(t);
    for (int i = 0; i < 3; i++) eq(x(i), p[k](i) + f * (p[k + 1](i) - p[k](i)), "straight between consecutive points");
    for (int i = 0; i < 2; i++) eq(y(i), q[k](i) + f * (q[k + 1](i) - q[k](i)), "straight between consecutive points");
    eq(l.GetDirection(k), p[k + 1] - p[k], "direction of a segment");
    vc_ensure(l.InLimits(o) == (o >= lo && o <= lo + w), "limits");
    vc_ensure(m.InLimits(o) == (o >= lo && o <= lo + w), "limits");
    vc_ensure(m.Count() == n, "number of points");
}
VC_HARNESS(plane)
{
    Vector3f p = vc::vec3("p"), a = vc::vec3("a"), b = vc::vec3("b");
    Plane pl(p, a, b);
    float u = vc_nondet_range("u", -10, 10), v = vc_nondet_range("v", -10, 10);
    Vector3f x = pl.GetPoint(u, v);
    for (int i = 0; i < 3; i++) eq(x(i), p(i) + u * a(i) + v * b(i), "point of the plane");
    eq(pl.GetDdu(u, v), pl.GetPoint(u + 1, v) - x, "derivative");
    eq(pl.GetDdv(u, v), pl.GetPoint(u, v + 1) - x, "derivative");
    eq(pl.GetNormal(), cross(a, b), "normal");
    eq(pl.AbstractFunctionR2R3::GetNormal(u, v), cross(a, b), "normal of the surface");
    eq(pl.SwappedDirections().GetPoint(v, u), x, "swapped directions");
    Matrix4f T = vc::pose("T");
    eq(pl.Transform(T).GetPoint(u, v), vc::app(T, x), "transformed plane");
    ImplicitPlane i = pl.ToImplicit();
    Vector3f n = cross(a, b);
    float m = dot(n, n);
    eq(i.GetSignedDistance(x) + m, m, "points of the plane satisfy its equation");
    vc_assume(m > 0.01f);
    eq(i.Get(x) + m, m, "points of the plane satisfy its equation");
}
VC_HARNESS(plane_parameters)
{
    Matrix3f R = vc::rot("R");
    Vector3f p = vc::vec3("p"), x = vc::vec3("x"), a(R(0, 0), R(1, 0), R(2, 0)), b(R(0, 1), R(1, 1), R(2, 1));
    Plane pl(p, a, b);
    float u, v, w, s, t;
    pl.GetUVW(x, u, v, w);
    pl.GetUV(x, s, t);
    for (int i = 0; i < 3; i++) eq(p(i) + u * R(i, 0) + v * R(i, 1) + w * R(i, 2), x(i), "parameters and height give the point");
    eq(s, u, "parameters");
    eq(t, v, "parameters");
    vc::eqm(pl.GetRotationMatrix(), R, 3, 3, "frame of the plane");
    eq(pl.GetUVFromPos(pl.GetPoint(u, v)), Vector2f(u, v), "parameters of a point of the plane");
    eq(pl.ProjectPointOntoFunction(x), x - w * Vector3f(R(0, 2), R(1, 2), R(2, 2)), "projection");
    float dist = pl.GetDistance(x, AbstractFunctionR2R3::SimpleProjection);
    eq(dist * dist, w * w, "distance");
    vc_ensure_le(0, dist, "distance");
}
VC_HARNESS(plane_from_normal)
{
    Vector3f p = vc::vec3("p"), n = vc::vec3("n");
    vc_assume(dot(n, n) > 0.01f);
    Plane pl = Plane::FromNormal(p, n);
    eq(pl.GetPoint(0, 0), p, "through the point");
    eq(dot(pl.Dir1(), n), 0, "perpendicular to the normal");
    eq(dot(pl.Dir2(), n), 0, "perpendicular to the normal");
    Vector3f a = vc::vec3("a"), b = vc::vec3("b");
    vc_assume(dot(a, a) > 0.01f && dot(b, b) > 0.01f);
    Plane q = Plane(p, a, b).Normalized();
    eq(dot(q.Dir1(), q.Dir1()), 1, "normalized");
    eq(dot(q.Dir2(), q.Dir2()), 1, "normalized");
    eq(cross(q.Dir1(), a), Vector3f(0, 0, 0), "same direction");
    eq(cross(q.Dir2(), b), Vector3f(0, 0, 0), "same direction");
    eq(q.Pos(), p, "same position");
}
VC_HARNESS(implicit_plane)
{
    Vector3f p = vc::vec3("p"), n = vc::vec3("n"), x = vc::vec3("x");
    vc_assume(dot(n, n) > 0.01f);
    ImplicitPlane pl = ImplicitPlane::FromPositionNormal(p, n);
    eq(pl.GetNormal(), n, "normal");
    Vector3f c = pl.GetClosestPoint(x);
    eq(dot(n, c - p), 0, "closest point: in the plane");
    eq(cross(c - x, n), Vector3f(0, 0, 0), "closest point: along the normal");
    float d = pl.GetSignedDistance(x);
    eq(d, dot(n, x - p), "distance scaled by the length of the normal, positive on the normal's side");
    eq(pl.Get(x), d, "distance scaled by the length of the normal, positive on the normal's side");
    ImplicitPlane u = pl.Normalize(), f = pl.Flipped(), k = ImplicitPlane::FromContact(Contact(p, n));
    eq(dot(u.GetNormal(), u.GetNormal()), 1, "normalized");
    eq(u.GetClosestPoint(x), c, "normalized: same plane");
    eq(f.GetNormal(), -n, "flipped");
    eq(f.GetSignedDistance(x), -d, "flipped");
    eq(k.GetSignedDistance(x), d, "plane of a contact");
}
VC_HARNESS(implicit_plane_intersection)
{
    Vector3f p = vc::vec3("p"), n = vc::vec3("n"), o = vc::vec3("o"), a = vc::vec3("a"), b = vc::vec3("b");
    ImplicitPlane i = ImplicitPlane::FromPositionNormal(p, n);
    Plane pl(o, a, b);
    float x = dot(n, a), y = dot(n, b);
    vc_assume(x * x > 0.01f || y * y > 0.01f);
    Line l = i.Intersect(pl);
    float t = vc_nondet_range("t", -5, 5);
    Vector3f q = l.Get(t);
    eq(dot(n, q), dot(n, p), "in the first plane");
    eq(dot(cross(a, b), q), dot(cross(a, b), o), "in the second plane");
}
VC_HARNESS(triangle)
{
    Vector3f a = vc::vec3("a"), b = vc::vec3("b"), c = vc::vec3("c"), o = vc::vec3("o");
    Triangle t(a, b, c);
    Vector3f n = t.Normal(), m = t.Centroid();
    eq(n, cross(b - a, c - a), "normal");
    for (int i = 0; i < 3; i++) eq(m(i) * 3, a(i) + b(i) + c(i), "centroid");
    eq(t.Flipped().Normal(), -n, "flipped");
    eq(t.Flipped().Centroid(), m, "flipped: same corners");
    float l = vc_nondet_range("length", -5, 5);
    Triangle s = t.Transform(o, l);
    for (int i = 0; i < 3; i++) { eq(s.P1()(i), o(i) + l * a(i), "scaled and moved"); eq(s.P2()(i), o(i) + l * b(i), "scaled and moved"); eq(s.P3()(i), o(i) + l * c(i), "scaled and moved"); }
    int depth = vc_case("depth", 0, 2), count = depth == 2 ? 9 : depth == 1 ? 3 : 1;
    std::vector<Triangle> parts = t.Subdivide(depth);
    vc_ensure((int)parts.size() == count, "three parts per level");
    for (size_t i = 0; i < parts.size(); i++)
    {
        Vector3f k = parts[i].Normal();
        for (int j = 0; j < 3; j++) eq(k(j) * count, n(j), "parts of equal area in the same plane and orientation");
        eq(dot(n, parts[i].P1()) + dot(n, n), dot(n, a) + dot(n, n), "in the plane of the triangle");
    }
}
VC_HARNESS(contact)
{
    Vector3f p = vc::vec3("p"), n = vc::vec3("n"), q = vc::vec3("q"), m = vc::vec3("m");
    float f = vc_nondet_range("f", 0, 1);
    Vector3f w;
    for (int i = 0; i < 3; i++) w(i) = n(i) + f * (m(i) - n(i));
    vc_assume(dot(n, n) > 0.01f && dot(w, w) > 0.01f);
    Contact c = Contact(p, n).Normalized(), l = Contact::Lerp(Contact(p, n), Contact(q, m), f), e(p(0), p(1), p(2), n(0), n(1), n(2));
    eq(c.Position(), p, "position");
    eq(dot(c.Normal(), c.Normal()), 1, "normalized");
    eq(cross(c.Normal(), n), Vector3f(0, 0, 0), "same direction");
    vc_ensure_le(0, dot(c.Normal(), n), "same direction");
    for (int i = 0; i < 3; i++) eq(l.Position()(i), p(i) + f * (q(i) - p(i)), "interpolated position");
    eq(dot(l.Normal(), l.Normal()), 1, "interpolated normal: normalized");
    eq(cross(l.Normal(), w), Vector3f(0, 0, 0), "interpolated normal: direction");
    vc_ensure_le(0, dot(l.Normal(), w), "interpolated normal: direction");
    eq(e.Position(), p, "position");
    eq(e.Normal(), n, "normal");
}
// any start, any rotation: the orientation turns about one axis at constant speed from the start to the end
VC_HARNESS(linear_orientation)
{
    float q[4], r[4], e[4];
    vc_unit_quat("start", q);
    vc_unit_quat("turn", r);
    Quaternionf start(q[0], q[1], q[2], q[3]);
    e[0] = r[0]*q[0] - r[1]*q[1] - r[2]*q[2] - r[3]*q[3];
    e[1] = r[0]*q[1] + r[1]*q[0] + r[2]*q[3] - r[3]*q[2];
    e[2] = r[0]*q[2] - r[1]*q[3] + r[2]*q[0] + r[3]*q[1];
    e[3] = r[0]*q[3] + r[1]*q[2] - r[2]*q[1] + r[3]*q[0];
    float t0 = vc_nondet_range("t0", -10, 10), w = vc_nondet_range("duration", 0.1, 1000);
    vc_assume(r[1] * r[1] + r[2] * r[2] + r[3] * r[3] > 0.01f);
    vc_assume(r[0] > 0.001f || r[0] < -0.001f);
    float side = r[0] < 0 ? -1 : 1;
    LinearInterpolatedOrientation l(start, Quaternionf(e[0], e[1], e[2], e[3]), t0, t0 + w, true);
    vc_ensure_le(0, l.angle, "the shorter way");
    vc_ensure_le(l.angle, vc_pi(), "the shorter way");
    eq(vc_cos(l.angle / 2), side * r[0], "angle between start and end");
    for (int i = 0; i < 3; i++) eq(vc_sin(l.angle / 2) * l.axis(i), side * r[1 + i], "axis between start and end");
    Vector3f d = l.GetDerivative(t0 + w / 2);
    vc_assume(l.angle >= 0.01f);
    for (int i = 0; i < 3; i++) eq(d(i) * w, l.angle * l.axis(i), "derivative: angular velocity");
}
VC_HARNESS(linear_orientation_get)
{
    float q[4];
    vc_unit_quat("start", q);
    Quaternionf start(q[0], q[1], q[2], q[3]);
    float t0 = vc_nondet_range("t0", -10, 10), w = vc_nondet_range("duration", 0.1, 1000), f = vc_nondet_range("f", -1, 2);
    bool clamp = vc_case("clamp", 0, 1);
    LinearInterpolatedOrientation l(start, start, t0, t0 + w, clamp);
    // the state after construction with any other end
    float a = vc_nondet_range("angle", 0.01, 3.14);
    Vector3f axis = vc::vec3("axis");
    vc_assume(vc_eq(dot(axis, axis), 1));
    l.angle = a;
    l.axis = axis;
    for (int i = 0; i < 3; i++) l.derivative(i) = a * axis(i) / w;
    vc_assume(std::fabs(f) > 1e-3f && std::fabs(f - 1) > 1e-3f);
    float t = t0 + f * w, g = clamp ? (f < 0 ? 0 : f > 1 ? 1 : f) : f;
    Vector3f d = l.GetDerivative(t);
    bool still = clamp && (f < 0 || f > 1);
    for (int i = 0; i < 3; i++) eq(d(i) * w, still ? 0 : a * axis(i), "derivative: angular velocity");
    Quaternionf x = l.Get(t);
    float h = a * g / 2, ch = vc_cos(h), sh = vc_sin(h);
    float z[4] = {ch, sh * axis(0), sh * axis(1), sh * axis(2)};
    eq(x.w(), z[0]*q[0] - z[1]*q[1] - z[2]*q[2] - z[3]*q[3], "turned about the axis");
    eq(x.x(), z[0]*q[1] + z[1]*q[0] + z[2]*q[3] - z[3]*q[2], "turned about the axis");
    eq(x.y(), z[0]*q[2] - z[1]*q[3] + z[2]*q[0] + z[3]*q[1], "turned about the axis");
    eq(x.z(), z[0]*q[3] + z[1]*q[2] - z[2]*q[1] + z[3]*q[0], "turned about the axis");
}
VC_HARNESS(linear_orientation_still)
{
    float q[4];
    vc_unit_quat("start", q);
    Quaternionf start(q[0], q[1], q[2], q[3]);
    LinearInterpolatedOrientation l(start, start, 0, 2, vc_case("clamp", 0, 1));
    float t = vc_nondet_range("t", -2, 4);
    Quaternionf x = l.Get(t);
    eq(x.w(), q[0], "stays"); eq(x.x(), q[1], "stays"); eq(x.y(), q[2], "stays"); eq(x.z(), q[3], "stays");
    eq(l.GetDerivative(t), Vector3f(0, 0, 0), "stays");
}
struct Spin : public AbstractFunctionR1Ori
{
    float at = -77;
    Vector3f d;
    Quaternionf q;
    Spin() : d(vc::vec3("spin")) { float x[4]; vc_unit_quat("spin", x); q = Quaternionf(x[0], x[1], x[2], x[3]); }
    Quaternionf Get(float t) override { at = t; return q; }
    Vector3f GetDerivative(float t) override { at = t; return d; }
};
VC_HARNESS(composite)
{
    boost::shared_ptr<Cubic> c(new Cubic());
    boost::shared_ptr<Spin> s(new Spin());
    float t0 = vc_nondet_range("t0", -10, 10), w = vc_nondet_range("duration", 0.1, 10), f = vc_nondet_range("f", -1, 2);
    CompositeFunctionR1R6 m(c, s, t0, t0 + w);
    float t = t0 + f * w;
    eq(m.GetPosition(t), c->Get(f), "position at the part of the time");
    Vector3f d = m.GetPositionDerivative(t), e = c->GetDerivative(f);
    for (int i = 0; i < 3; i++) eq(d(i) * w, e(i), "derivative by time");
    Quaternionf q = m.GetOrientation(t);
    eq(s->at, f, "orientation at the part of the time");
    eq(q.w(), s->q.w(), "orientation"); eq(q.x(), s->q.x(), "orientation"); eq(q.y(), s->q.y(), "orientation"); eq(q.z(), s->q.z(), "orientation");
    s->at = -77;
    d = m.GetOrientationDerivative(t);
    eq(s->at, f, "orientation at the part of the time");
    for (int i = 0; i < 3; i++) eq(d(i) * w, s->d(i), "derivative by time");
}
VC_HARNESS(composite_line)
{
    Vector3f p = vc::vec3("p"), r = vc::vec3("r");
    float q[4];
    vc_unit_quat("ori", q);
    Quaternionf o(q[0], q[1], q[2], q[3]);
    float t0 = vc_nondet_range("t0", -10, 10), w = vc_nondet_range("duration", 0.1, 10), f = vc_nondet_range("f", -1, 2);
    CompositeFunctionR1R6Ptr m = vc_case("constant", 0, 1) ? CompositeFunctionR1R6::CreateLine(p, r, o, t0, t0 + w) : CompositeFunctionR1R6::CreateLine(p, r, o, o, t0, t0 + w);
    float t = t0 + f * w;
    Vector3f x = m->GetPosition(t), d = m->GetPositionDerivative(t);
    for (int i = 0; i < 3; i++) { eq(x(i), p(i) + f * (r(i) - p(i)), "straight from start to end"); eq(d(i) * w, r(i) - p(i), "constant velocity"); }
    Quaternionf y = m->GetOrientation(t);
    eq(y.w(), q[0], "orientation"); eq(y.x(), q[1], "orientation"); eq(y.y(), q[2], "orientation"); eq(y.z(), q[3], "orientation");
    eq(m->GetOrientationDerivative(t), Vector3f(0, 0, 0), "orientation does not change");
}
VC_HARNESS(composite_line_turn)
{
    Vector3f p = vc::vec3("p"), r = vc::vec3("r");
    float q[4];
    vc_unit_quat("ori", q);
    Quaternionf o(q[0], q[1], q[2], q[3]);
    float t0 = vc_nondet_range("t0", -10, 10), w = vc_nondet_range("duration", 0.1, 10), f = vc_nondet_range("f", 0.01, 0.99);
    CompositeFunctionR1R6Ptr m = CompositeFunctionR1R6::CreateLine(p, r, o, o, t0, t0 + w);
    // the state after construction with any other end
    LinearInterpolatedOrientation* l = dynamic_cast<LinearInterpolatedOrientation*>(m->orientation.get());
    float a = vc_nondet_range("angle", 0.01, 3.14);
    Vector3f axis = vc::vec3("axis");
    vc_assume(vc_eq(dot(axis, axis), 1));
    vc_ensure(l != 0, "interpolated orientation");
    if (!l) return;
    l->angle = a;
    l->axis = axis;
    for (int i = 0; i < 3; i++) l->derivative(i) = a * axis(i) / (l->endT - l->startT);
    Quaternionf x = m->GetOrientation(t0 + f * w);
    float h = a * f / 2, ch = vc_cos(h), sh = vc_sin(h);
    float z[4] = {ch, sh * axis(0), sh * axis(1), sh * axis(2)};
    eq(x.w(), z[0]*q[0] - z[1]*q[1] - z[2]*q[2] - z[3]*q[3], "turned in proportion to the time");
    eq(x.x(), z[0]*q[1] + z[1]*q[0] + z[2]*q[3] - z[3]*q[2], "turned in proportion to the time");
    eq(x.y(), z[0]*q[2] - z[1]*q[3] + z[2]*q[0] + z[3]*q[1], "turned in proportion to the time");
    eq(x.z(), z[0]*q[3] + z[1]*q[2] - z[2]*q[1] + z[3]*q[0], "turned in proportion to the time");
    Vector3f d = m->GetOrientationDerivative(t0 + f * w);
    for (int i = 0; i < 3; i++) eq(d(i) * w, a * axis(i), "angular velocity");
}
VC_HARNESS(transformed_curve)
{
    boost::shared_ptr<Cubic> c(new Cubic());
    Matrix4f T = vc::pose("T");
    TransformedFunctionR1R3 f(T, c);
    float t = vc_nondet_range("t", -3, 3);
    eq(f.Get(t), vc::app(T, c->Get(t)), "transformed point");
    eq(f.GetDerivative(t), slope(f, t, 1), "derivative");
}
VC_HARNESS(transformed_surface)
{
    boost::shared_ptr<Quadric> c(new Quadric());
    Matrix4f T = vc::pose("T");
    TransformedFunctionR2R3 f(T, c);
    float u = vc_nondet_range("u", -3, 3), v = vc_nondet_range("v", -3, 3), a, b;
    Vector3f x = f.GetPoint(u, v), p = vc::vec3("p"), du = f.GetDdu(u, v), dv = f.GetDdv(u, v);
    eq(x, vc::app(T, c->GetPoint(u, v)), "transformed point");
    // affine in each parameter
    eq(du, f.GetPoint(u + 1, v) - x, "derivative");
    eq(dv, f.GetPoint(u, v + 1) - x, "derivative");
    f.GetUV(p, a, b);
    eq(vc::app(T, c->last), p, "parameters: of the point in the frame of the surface");
    eq(a, c->lu, "parameters");
    eq(b, c->lv, "parameters");
}
VC_HARNESS(surface)
{
    Quadric s;
    float u = vc_nondet_range("u", -3, 3), v = vc_nondet_range("v", -3, 3), x = vc_nondet_range("x", -3, 3), y = vc_nondet_range("y", -3, 3);
    Vector3f n = cross(s.GetDdu(u, v), s.GetDdv(u, v)), p = vc::vec3("p");
    eq(s.AbstractFunctionR2R3::GetNormal(u, v), n, "normal");
    eq(s.AbstractFunctionR2R3::GetNormal(Vector2f(u, v)), n, "normal");
    eq(s.AbstractFunctionR2R3::GetDdu(Vector2f(u, v)), s.GetDdu(u, v), "derivative");
    eq(s.AbstractFunctionR2R3::GetDdv(Vector2f(u, v)), s.GetDdv(u, v), "derivative");
    Plane pl = s.GetContactPlane(u, v);
    Vector3f e = pl.GetPoint(x, y), g = s.GetVector(Vector2f(u, v), Vector2f(x, y));
    for (int i = 0; i < 3; i++)
    {
        eq(e(i), s.GetPoint(u, v)(i) + x * s.GetDdu(u, v)(i) + y * s.GetDdv(u, v)(i), "tangent plane");
        eq(g(i), x * s.GetDdu(u, v)(i) + y * s.GetDdv(u, v)(i), "derivative in a direction");
    }
    Contact c = s.GetContact(u, v);
    eq(c.Position(), s.GetPoint(u, v), "contact");
    eq(c.Normal(), n, "contact");
    eq(s.GetPointOnFunction(p, AbstractFunctionR2R3::SimpleProjection), s.GetPoint(s.lu, s.lv), "projected point");
    float d = s.GetDistance(p, AbstractFunctionR2R3::SimpleProjection);
    Vector3f o = s.GetPoint(s.lu, s.lv) - p;
    eq(d * d, dot(o, o), "distance to the projected point");
    eq(s.last, p, "projection of the point given");
}
VC_HARNESS(curve_samples)
{
    Cubic c;
    float a = vc_nondet_range("t1", -3, 3), b = vc_nondet_range("t2", -3, 3);
    int n = vc_case("segments", 1, 3);
    std::vector<float> s = c.Segments(a, b, n);
    std::vector<Vector3f> p = c.Sample(a, b, n);
    vc_ensure(vc_and((int)s.size() == n + 1, (int)p.size() == n + 1), "segments and an end");
    if (s.size() != p.size() || (int)s.size() != n + 1) return;
    for (int i = 0; i <= n; i++)
    {
        eq(s[i] * n, a * n + (b - a) * i, "equal segments from start to end");
        eq(p[i], c.Get(s[i]), "points of the curve");
    }
}
struct Table : public AbstractFunctionR1R3
{
    Vector3f p[4];
    Vector3f Get(float t) override { int i = (int)std::lround((t + 1) / 2); vc_ensure(i >= 0 && i < 4 && t == 2 * i - 1, "a sample of the range"); return p[i]; }
    Vector3f GetDerivative(float) override { return Vector3f(0, 0, 0); }
};
VC_HARNESS(curve_closest_point)
{
    Table c;
    Vector3f x = vc::vec3("x");
    int n = vc_case("segments", 1, 3);
    float d[4];
    for (int i = 0; i <= n; i++) { c.p[i] = vc::vec3("p"); d[i] = dot(c.p[i] - x, c.p[i] - x); }
    float r = c.FindClosestPoint(x, -1, 2 * n - 1, n);
    int k = (int)std::lround((r + 1) / 2);
    vc_ensure(k >= 0 && k <= n && r == 2 * k - 1, "parameter of a sample");
    for (int i = 0; i <= n; i++) vc_ensure_le(d[k], d[i], "no sample is closer");
}
VC_HARNESS(curve_length)
{
    Cubic c;
    float a = vc_nondet_range("t1", -3, 3), w = vc_nondet_range("w", 0.1, 3), e = 0;
    int n = vc_case("steps", 1, 3);
    float l = c.GetLength(a, a + w, n);
    for (int i = 0; i < n; i++)
    {
        Vector3f p = c.Get(a + w / n * i), q = c.Get(a + w / n * (i + 1));
        e += vc_sqrt(dot(q - p, q - p));
    }
    eq(l, e, "length of the sampled curve");
    // on a line the length moved is exact
    Vector3f d = vc::vec3("d");
    Line k(vc::vec3("p"), d);
    float m = vc_nondet_range("l", -3, 3), x = k.MoveLengthOnCurve(a, m, n);
    eq((x - a) * (x - a) * (1 + dot(d, d)), m * m, "moved by the length on the graph");
    vc_ensure_le(0, (x - a) * m, "moved in the direction given");
}
struct Parabola : public AbstractFunctionR1R2
{
    Vector2f d;
    Parabola() : d(vc::vec2("d")) {}
    Vector2f Get(float t) override { return d * t; }
    Vector2f GetDerivative(float) override { return d; }
};
VC_HARNESS(plane_curve_normal)
{
    Parabola p;
    vc_assume(p.d(0) * p.d(0) + p.d(1) * p.d(1) > 0.01f);
    Vector2f n = p.GetNormalizedNormal(vc_nondet_range("t", -3, 3));
    eq(n(0) * n(0) + n(1) * n(1), 1, "normalized");
    // the sine and cosine of the right angle are rounded
    float l = vc_sqrt(p.d(0) * p.d(0) + p.d(1) * p.d(1)), e = n(0) * p.d(0) + n(1) * p.d(1);
    vc_ensure_le(e, 1e-6 * l, "perpendicular");
    vc_ensure_le(-1e-6 * l, e, "perpendicular");
    vc_ensure_le(0, p.d(0) * n(1) - p.d(1) * n(0), "on the left");
}
VC_HARNESS(grid)
{
    Vector3f a = vc::vec3("a"), b = vc::vec3("b");
    Grid3D g(a, b, 1, 2, 1);
    std::vector<Vector3f> all = g.AllGridPoints();
    vc_ensure(all.size() == 12, "all points of the grid");
    size_t k = 0;
    for (int x = 0; x <= 1; x++) for (int y = 0; y <= 2; y++) for (int z = 0; z <= 1; z++)
    {
        Vector3f p = g.Get(x, y, z);
        eq(p(0), x ? b(0) : a(0), "point of the grid");
        eq(p(1) * 2, a(1) * (2 - y) + b(1) * y, "point of the grid");
        eq(p(2), z ? b(2) : a(2), "point of the grid");
        if (k < all.size()) eq(all[k++], p, "all points of the grid");
    }
}
VC_HARNESS(grid_from_box)
{
    float w = vc_nondet_range("step", 0.1, 1);
    Vector3f a = vc::vec3("a"), b(a(0) + w, a(1) + 2 * w, a(2) + 3 * w);
    Grid3DPtr g = Grid3D::CreateFromBox(a, b, w);
    vc_ensure(vc_and(g->StepsX() == 1, vc_and(g->StepsY() == 2, g->StepsZ() == 3)), "steps of the length given");
    eq(g->P1(), a, "corner");
    eq(g->P2(), b, "corner");
}
VC_HARNESS(array_3d)
{
    // an element keeps its value until it is set itself
    Array3D<float> a(2);
    int x = vc_case("x", 0, 1), y = vc_case("y", 0, 1), z = vc_case("z", 0, 1);
    float v[8];
    for (int i = 0; i < 8; i++) { v[i] = vc_nondet_float("v"); a.Set(i >> 2, (i >> 1) & 1, i & 1, v[i]); }
    float w = vc_nondet_float("w");
    if (vc_case("index", 0, 1)) a.Set(Index3(x, y, z), w);
    else a.Set(x, y, z, w);
    for (int i = 0; i < 8; i++)
    {
        float e = i == x * 4 + y * 2 + z ? w : v[i];
        eq(a.Get(i >> 2, (i >> 1) & 1, i & 1), e, "elements are independent");
        eq(a.Get(Index3(i >> 2, (i >> 1) & 1, i & 1)), e, "elements are independent");
    }
}
static int fieldCalls;
static float fieldV[8];
static float fieldFn(Index3 i) { fieldCalls++; return fieldV[i.X() * 4 + i.Y() * 2 + i.Z()]; }
VC_HARNESS(grid_cache)
{
    for (int i = 0; i < 8; i++) fieldV[i] = vc_nondet_float("v");
    fieldCalls = 0;
    std::function<float(Index3)> f = fieldFn;
    GridCacheFloat3 c(2, f);
    vc_ensure(fieldCalls == 0, "nothing computed in advance");
    int a = vc_case("first", 0, 7), b = vc_case("second", 0, 7);
    eq(c.Get(a >> 2, (a >> 1) & 1, a & 1), fieldV[a], "value of the function");
    eq(c.Get(b >> 2, (b >> 1) & 1, b & 1), fieldV[b], "value of the function");
    eq(c.Get(a >> 2, (a >> 1) & 1, a & 1), fieldV[a], "value of the function");
    vc_ensure(fieldCalls == (a == b ? 1 : 2), "every value is computed once");
}
// kernels k(p, q): entry (i, j) differentiates by coordinate i of p and coordinate j of q (0: not at all)
static void kernel(const KernelWithDerivatives& k, float s)
{
    // k = 2 r^3 + 3 s R r^2 + R^3 with r = |p - q|
    Vector3f p = vc::vec3("p"), q = vc::vec3("q"), d = p - q;
    float R = vc_nondet_range("R", 0.1, 10), r2 = dot(d, d);
    vc_assume(r2 > 0.01f);
    float r = vc_sqrt(r2);
    int i = vc_case("i", 0, 3), j = vc_case("j", 0, 3);
    float v = k.Kernel(p, q, R, i, j);
    // d r / d p_a = d_a / r
    if (i == 0 && j == 0) eq(v, 2 * r * r2 + 3 * s * R * r2 + R * R * R, "kernel");
    else if (j == 0) eq(v, (6 * r + 6 * s * R) * d(i - 1), "derivative by the first point");
    else if (i == 0) eq(v, -(6 * r + 6 * s * R) * d(j - 1), "derivative by the second point");
    else eq(v * r, -(6 * d(i - 1) * d(j - 1) + (i == j ? 6 * r2 + 6 * s * R * r : 0)), "derivative by both points");
}
VC_HARNESS(kernel_plus) { kernel(WilliamsPlusKernel(), 1); }
VC_HARNESS(kernel_minus) { kernel(WilliamsMinusKernel(), -1); }
VC_HARNESS(kernel_same_point)
{
    Vector3f p = vc::vec3("p");
    float R = vc_nondet_range("R", 0.1, 10);
    int i = vc_case("i", 0, 3), j = vc_case("j", 0, 3);
    for (int s = -1; s <= 1; s += 2)
    {
        WilliamsPlusKernel plus;
        WilliamsMinusKernel minus;
        const KernelWithDerivatives& k = s > 0 ? (const KernelWithDerivatives&)plus : minus;
        float v = k.Kernel(p, p, R, i, j);
        eq(v, i == 0 && j == 0 ? R * R * R : i == j ? -6 * s * R : 0, "kernel of a point with itself");
    }
}
VC_HARNESS(kernel_gauss)
{
    Vector3f p = vc::vec3("p"), q = vc::vec3("q");
    GaussianKernel g(vc_nondet_range("scale", 0.1, 10));
    const KernelWithDerivatives& k = g;
    float R = vc_nondet_range("R", 0.1, 10);
    eq(k.Kernel(p, p, R, 0, 0), 1, "one at the point itself");
    eq(k.Kernel(p, q, R, 0, 0), k.Kernel(q, p, R, 0, 0), "symmetric");
    bool thrown = false;
    try { k.Kernel(p, q, R, 1, 0); }
    catch (...) { thrown = true; }
    vc_ensure(thrown, "derivatives are refused");
}
