// VC-PROPERTY: C02
// VC-TU: VirtualRobot/MathTools.cpp VirtualRobot/VirtualRobotException.cpp
// VC-BOUNDED: box_plane: one concrete box, every horizontal plane through it
// VC-BOUNDED: box_change_frame_1: one concrete rational rotation of the new frame, every box and every origin
// VC-BOUNDED: box_change_frame_2: one concrete rational rotation of the new frame, every box and every origin
// VC-BOUNDED: box_change_frame_3: one concrete rational rotation of the new frame, every box and every origin
#include "vc.h"
#include <VirtualRobot/MathTools.h>
using namespace VirtualRobot;
using namespace Eigen;
using vc::eq;
using vc::dot;
using vc::cross;
typedef MathTools::Plane Plane;

// a plane with a unit normal (third column of an arbitrary rotation) through an arbitrary point
static Plane plane(const char* n)
{
    Matrix3f r = vc::rot(n);
    Plane p;
    p.p = vc::vec3(n);
    for (int i = 0; i < 3; i++) p.n(i) = r(i, 2);
    return p;
}
static Vector3f unit(const char* n)
{
    Matrix3f r = vc::rot(n);
    return Vector3f(r(0,2), r(1,2), r(2,2));
}
static Vector3f lin(const Vector3f& a, float s, const Vector3f& b) { return Vector3f(a(0) + s*b(0), a(1) + s*b(1), a(2) + s*b(2)); }

VC_HARNESS(plane_ctor)
{
    Vector3f x = vc::vec3("x"), n = vc::vec3("n");
    vc_assume(dot(n, n) > 1e-6f);
    Plane p(x, n);
    eq(dot(p.n, p.n), 1, "plane normal has unit length");
    eq(cross(p.n, n), Vector3f(0,0,0), "plane normal is parallel to the given one");
    vc_ensure(dot(p.n, n) > 0, "plane normal has the given orientation");
    eq(p.p, x, "plane point");
    Plane f = MathTools::getFloorPlane();
    eq(f.n, Vector3f(0,0,1), "floor normal");
    eq(f.p, Vector3f(0,0,0), "floor point");
}
VC_HARNESS(plane_project)
{
    Plane p = plane("p");
    Vector3f x = vc::vec3("x");
    float d = MathTools::getDistancePointPlane(x, p);
    Vector3f y = MathTools::projectPointToPlane(x, p);
    eq(dot(p.n, Vector3f(y - p.p)), 0, "projection lies in the plane");
    eq(Vector3f(x - y), lin(Vector3f(0,0,0), d, p.n), "point minus projection is the signed distance along the normal");
    bool s = MathTools::onNormalPointingSide(x, p);
    vc_ensure(s == (d >= 0), "onNormalPointingSide is the sign of the distance");
}

// every unit normal except (0,0,-1) is (2sc cos f, 2sc sin f, c^2-s^2) with s = sin t >= 0, c = cos t > 0
static Plane planeHalf(float& s, float& c)
{
    float t = vc_nondet_range("t", -4, 4), f = vc_nondet_float("f");
    s = vc_sin(t); c = vc_cos(t);
    vc_assume(s >= 0.001f);
    vc_assume(c >= 0.001f);
    Plane p;
    p.p = vc::vec3("p");
    p.n = Vector3f(2*s*c*vc_cos(f), 2*s*c*vc_sin(f), c*c - s*s);
    return p;
}
VC_HARNESS(plane_coordinates)
{
    float s, c;
    Plane p = planeHalf(s, c);
    Vector2f u = vc::vec2("u");
    Vector3f x = MathTools::planePoint3D(u, p);
    eq(dot(p.n, Vector3f(x - p.p)), 0, "planePoint3D yields a point of the plane");
    Vector3f d = x - p.p;
    eq(dot(d, d), u(0)*u(0) + u(1)*u(1), "planePoint3D preserves the distance to the plane's origin");
}
VC_HARNESS(plane_coordinates_roundtrip)
{
    float s, c;
    Plane p = planeHalf(s, c);
    Vector2f u = vc::vec2("u");
    eq(MathTools::projectPointToPlane2D(MathTools::planePoint3D(u, p), p), u, "projectPointToPlane2D inverts planePoint3D");
}
VC_HARNESS(plane_coordinates_axis)
{
    Plane p;
    p.p = vc::vec3("p");
    p.n = Vector3f(0, 0, vc_case("up", 0, 1) ? 1 : -1);
    Vector2f u = vc::vec2("u");
    Vector3f x = MathTools::planePoint3D(u, p);
    eq(x(2), p.p(2), "point lies in the horizontal plane");
    eq(MathTools::projectPointToPlane2D(x, p), u, "projectPointToPlane2D inverts planePoint3D for horizontal planes");
}
VC_HARNESS(floor_coordinates)
{
    Vector3f x = vc::vec3("x");
    Plane p(vc::vec3("o"), Vector3f(0,0,1));
    Vector2f u = MathTools::projectPointToPlane2D(x, p);
    eq(u, Vector2f(x(0) - p.p(0), x(1) - p.p(1)), "coordinates in a horizontal plane");
    eq(MathTools::planePoint3D(u, p), Vector3f(x(0), x(1), p.p(2)), "planePoint3D inverts projectPointToPlane2D for a horizontal plane");
}
VC_HARNESS(line_nearest)
{
    MathTools::Line l;
    l.p = vc::vec3("lp");
    l.d = unit("ld");
    Vector3f x = vc::vec3("x");
    float s = vc_nondet_float("s");
    Vector3f y = MathTools::nearestPointOnLine<Vector3f>(l, x);
    eq(cross(Vector3f(y - l.p), l.d), Vector3f(0,0,0), "nearest point lies on the line");
    eq(dot(Vector3f(x - y), l.d), 0, "nearest point is the foot of the perpendicular");
    float d = MathTools::distPointLine<Vector3f>(l, x);
    vc_ensure_le(0, d, "distance to a line is not negative");
    // any other point of the line: Pythagoras
    Vector3f q = lin(l.p, s, l.d);
    float r = s - dot(Vector3f(x - l.p), l.d);
    eq(dot(Vector3f(x - q), Vector3f(x - q)), d*d + r*r, "no point of the line is nearer");
}
VC_HARNESS(line_ctor)
{
    Vector3f p = vc::vec3("p"), d = vc::vec3("d");
    vc_assume(dot(d, d) > 1e-6f);
    MathTools::Line l(p, d);
    eq(l.p, p, "line point");
    eq(dot(l.d, l.d), 1, "line direction is normalised");
    eq(cross(l.d, d), Vector3f(0,0,0), "line direction is parallel to the given one");
    vc_ensure(l.isValid(), "line with a direction is valid");
    MathTools::Line z(p, Vector3f(0,0,0));
    vc_ensure(!z.isValid(), "line without a direction is not valid");
    eq(MathTools::distPointLine<Vector3f>(z, p), -1, "distance to an invalid line");
}
VC_HARNESS(segment_nearest)
{
    // segment from a in direction of a unit vector with length L
    Vector3f a = vc::vec3("a"), d = unit("d"), x = vc::vec3("x");
    float L = vc_nondet_range("L", 0.01f, 1000);
    Vector3f b = lin(a, L, d);
    Vector3f y = MathTools::nearestPointOnSegment<Vector3f>(a, b, x);
    float t = dot(Vector3f(y - a), d);
    eq(y, lin(a, t, d), "nearest point lies on the segment's line");
    vc_ensure_le(0, t, "nearest point is not before the first end point");
    vc_ensure_le(t, L, "nearest point is not behind the second end point");
    float s = dot(Vector3f(x - a), d);
    eq(t, s < 0 ? 0 : s > L ? L : s, "nearest point is the clamped foot of the perpendicular");
}
VC_HARNESS(segment_distance)
{
    Vector3f a = vc::vec3("a"), d = unit("d"), x = vc::vec3("x");
    float L = vc_nondet_range("L", 0.01f, 1000);
    Vector3f b = lin(a, L, d);
    float dist = MathTools::distPointSegment<Vector3f>(a, b, x);
    vc_ensure_le(0, dist, "distance to a segment is not negative");
    float s = dot(Vector3f(x - a), d);
    float t = s < 0 ? 0 : s > L ? L : s;
    Vector3f r = x - lin(a, t, d);
    eq(dist * dist, dot(r, r), "distance to the segment is the distance to the clamped foot of the perpendicular");
}
VC_HARNESS(segment_plane)
{
    Plane p = plane("p");
    MathTools::Segment s(vc::vec3("a"), vc::vec3("b"));
    Vector3f y(0, 0, 0);
    float da = dot(p.n, Vector3f(s.p0 - p.p)), db = dot(p.n, Vector3f(s.p1 - p.p));
    bool hit = MathTools::intersectSegmentPlane(s, p, y) == MathTools::eIntersection;
    if (hit)
    {
        eq(dot(p.n, Vector3f(y - p.p)), 0, "intersection point lies in the plane");
        eq(cross(Vector3f(y - s.p0), Vector3f(s.p1 - s.p0)), Vector3f(0,0,0), "intersection point lies on the segment's line");
        vc_ensure(vc_or(vc_and(da >= 0, db <= 0), vc_and(da <= 0, db >= 0)), "end points on different sides");
        float u = dot(Vector3f(y - s.p0), Vector3f(s.p1 - s.p0)), uu = dot(Vector3f(s.p1 - s.p0), Vector3f(s.p1 - s.p0));
        vc_ensure_le(0, u, "intersection point is not before the segment");
        vc_ensure_le(u, uu, "intersection point is not behind the segment");
    }
    else vc_ensure(!vc_or(vc_and(da > 0.001f, db < -0.001f), vc_and(da < -0.001f, db > 0.001f)), "a segment crossing the plane is reported");
}
VC_HARNESS(planes_intersect)
{
    // every pair of planes at an angle t: normals z and cos(t) z + sin(t) x of an arbitrary frame
    Matrix3f r = vc::rot("r");
    float t = vc_nondet_float("t"), ct = vc_cos(t), st = vc_sin(t), s = vc_nondet_float("s");
    vc_assume(vc_or(st > 0.02f, st < -0.02f));
    Plane a, b;
    a.p = vc::vec3("a"); b.p = vc::vec3("b");
    for (int i = 0; i < 3; i++) { a.n(i) = r(i,2); b.n(i) = ct * r(i,2) + st * r(i,0); }
    MathTools::Line l = MathTools::intersectPlanes(a, b);
    eq(dot(l.d, l.d), 1, "intersection line has a unit direction");
    Vector3f y = lin(l.p, s, l.d);
    eq(dot(a.n, Vector3f(y - a.p)), 0, "every point of the intersection line lies in the first plane");
    eq(dot(b.n, Vector3f(y - b.p)), 0, "every point of the intersection line lies in the second plane");
}
VC_HARNESS(planes_parallel)
{
    Plane a = plane("a"), b(a);
    b.p = vc::vec3("q");
    vc_ensure(!MathTools::intersectPlanes(a, b).isValid(), "parallel planes do not intersect");
    for (int i = 0; i < 3; i++) b.n(i) = -a.n(i);
    vc_ensure(!MathTools::intersectPlanes(a, b).isValid(), "antiparallel planes do not intersect");
}
VC_HARNESS(box_points)
{
    Vector3f lo = vc::vec3("lo"), hi = vc::vec3("hi");
    MathTools::OOBB b(lo, hi, vc::pose("P"));
    std::vector<Vector3f> v = b.getOOBBPoints();
    vc_ensure(v.size() == 8, "a box has 8 corners");
    for (int k = 0; k < 8; k++)
        eq(v[k], vc::app(b.pose, Vector3f(k & 1 ? hi(0) : lo(0), k & 2 ? hi(1) : lo(1), k & 4 ? hi(2) : lo(2))), "corner of the box in the global frame");
}
VC_HARNESS(box_segments)
{
    Vector3f lo = vc::vec3("lo"), hi = vc::vec3("hi");
    MathTools::OOBB b(lo, hi, Matrix4f::Identity());
    std::vector<MathTools::Segment> s = b.getSegments();
    vc_ensure(s.size() == 12, "a box has 12 edges");
    int n[3] = {0, 0, 0};
    Vector3f e(hi(0) - lo(0), hi(1) - lo(1), hi(2) - lo(2));
    vc_assume(e(0) > 0.5f); vc_assume(e(1) > 0.5f); vc_assume(e(2) > 0.5f);
    for (int k = 0; k < 12; k++)
    {
        Vector3f d = s[k].p1 - s[k].p0;
        for (int i = 0; i < 3; i++) if (d(i) != 0)
        {
            n[i]++;
            vc_ensure(vc_or(d(i) == e(i), d(i) == -e(i)), "edge length");
            vc_ensure(vc_and(d((i+1)%3) == 0, d((i+2)%3) == 0), "edge is parallel to an axis");
        }
        for (int j = 0; j < k; j++)
        {
            Vector3f m = (s[k].p0 + s[k].p1) - (s[j].p0 + s[j].p1);
            vc_ensure(vc_or(m(0) != 0, vc_or(m(1) != 0, m(2) != 0)), "edges are distinct");
        }
    }
    for (int i = 0; i < 3; i++) vc_ensure(n[i] == 4, "four edges per direction");
}
VC_HARNESS(box_plane)
{
    Vector3f lo(-1, -2, -3), hi(1, 2, 3);
    float z = vc_nondet_range("z", -2.9f, 2.9f);
    MathTools::OOBB b(lo, hi, Matrix4f::Identity());
    Plane p(Vector3f(0, 0, z), Vector3f(0, 0, 1));
    std::vector<Vector3f> r;
    vc_ensure(MathTools::intersectOOBBPlane(b, p, r) == MathTools::eIntersection, "a plane through the box intersects it");
    vc_ensure(r.size() == 4, "horizontal section of a box has 4 corners");
    for (size_t i = 0; i < r.size(); i++)
    {
        eq(r[i](2), z, "section lies in the plane");
        vc_ensure(vc_and(vc_or(r[i](0) == 1, r[i](0) == -1), vc_or(r[i](1) == 2, r[i](1) == -2)), "section corner lies on a box edge");
    }
}
static Matrix3f someRotation(int k)
{
    Matrix3f m;
    if (k == 0) m << 2, -1, 2, 2, 2, -1, -1, 2, 2;
    else if (k == 1) m << 2, 1, 2, -2, 2, 1, -1, -2, 2;
    else m << 0, -3, 0, 0, 0, 3, -3, 0, 0;
    return m / 3.0f;
}
// rotations: concrete ones on each side; translations and extents arbitrary (up to 1e5)
static void changeFrame(const Matrix3f& RP, const Matrix3f& RN)
{
    Vector3f lo, hi;
    Matrix4f P = vc::poseOf(RP, Vector3f(vc_nondet_range("px", -1e5f, 1e5f), vc_nondet_range("py", -1e5f, 1e5f), vc_nondet_range("pz", -1e5f, 1e5f)));
    Matrix4f N = vc::poseOf(RN, Vector3f(vc_nondet_range("nx", -1e5f, 1e5f), vc_nondet_range("ny", -1e5f, 1e5f), vc_nondet_range("nz", -1e5f, 1e5f)));
    for (int i = 0; i < 3; i++)
    {
        lo(i) = vc_nondet_range("lo", -1e5f, 1e5f);
        hi(i) = vc_nondet_range("hi", -1e5f, 1e5f);
        vc_assume(lo(i) <= hi(i));
    }
    MathTools::OOBB b(lo, hi, P);
    b.changeCoordSystem(N);
    Matrix4f T = vc::mul(vc::rinv(N), P);
    eq(b.pose, N, "frame of the box is the requested one");
    for (int i = 0; i < 3; i++)
    {
        // exact extent of the old box along the i-th axis of the new frame
        float mn = T(i,3), mx = T(i,3);
        for (int j = 0; j < 3; j++) { mn += T(i,j) * (T(i,j) > 0 ? lo(j) : hi(j)); mx += T(i,j) * (T(i,j) > 0 ? hi(j) : lo(j)); }
        eq(b.minBB(i), mn, "lower bound of the re-framed box");
        eq(b.maxBB(i), mx, "upper bound of the re-framed box");
    }
}
VC_HARNESS(box_change_frame_1) { changeFrame(someRotation(0), someRotation(1)); }
VC_HARNESS(box_change_frame_2) { changeFrame(someRotation(1), someRotation(2)); }
VC_HARNESS(box_change_frame_3) { changeFrame(someRotation(2), someRotation(2)); }
VC_HARNESS(triangle_area)
{
    Vector3f a = vc::vec3("a"), b = vc::vec3("b"), c = vc::vec3("c");
    float A = MathTools::getTriangleArea(a, b, c);
    Vector3f n = cross(Vector3f(b - a), Vector3f(c - a));
    eq(4 * A * A, dot(n, n), "area of a triangle is half the length of the cross product of its edges");
    vc_ensure_le(0, A, "area is not negative");
}
VC_HARNESS(collinear_normal)
{
    Vector3f a = vc::vec3("a"), b = vc::vec3("b"), c = vc::vec3("c");
    Vector3f n = cross(Vector3f(b - a), Vector3f(b - c));
    bool col = MathTools::collinear(a, b, c);
    vc_ensure(vc_implies(dot(n, n) == 0, col), "collinear points are recognised");
    vc_ensure(vc_implies(dot(n, n) > 2e-12f, !col), "points spanning a triangle are not collinear");
    std::vector<Vector3f> v;
    v.push_back(a); v.push_back(b); v.push_back(c);
    Vector3f r = MathTools::findNormal(v);
    if (!col)
    {
        eq(dot(r, r), 1, "normal has unit length");
        eq(dot(r, Vector3f(b - a)), 0, "normal is perpendicular to the first edge");
        eq(dot(r, Vector3f(c - a)), 0, "normal is perpendicular to the second edge");
    }
    else eq(r, Vector3f(0,0,1), "normal of collinear points is the z axis");
}
VC_HARNESS(is_left)
{
    Vector2f a = vc::vec2("a"), b = vc::vec2("b"), c = vc::vec2("c");
    eq(MathTools::isLeft(a, b, c), (b(0) - a(0)) * (c(1) - a(1)) - (c(0) - a(0)) * (b(1) - a(1)), "isLeft is the signed parallelogram area");
}
VC_HARNESS(spherical)
{
    Vector3f x = vc::vec3("x");
    vc_assume(x(0)*x(0) + x(1)*x(1) > 0.0001f);
    MathTools::SphericalCoord s = MathTools::toSphericalCoords(x);
    vc_ensure(s.r > 0, "radius is positive");
    eq(s.r * s.r, dot(x, x), "radius is the distance to the origin");
    vc_ensure_le(0, s.theta, "polar angle is not negative");
    vc_ensure_le(s.theta, vc_pi(), "polar angle is at most pi");
    eq(MathTools::toPosition(s), x, "toPosition inverts toSphericalCoords");
}
VC_HARNESS(spherical_pole)
{
    float z = vc_nondet_float("z");
    Vector3f x(0, 0, z);
    vc_assume(vc_or(z > 0.01f, z < -0.01f));
    MathTools::SphericalCoord s = MathTools::toSphericalCoords(x);
    eq(MathTools::toPosition(s), x, "toPosition inverts toSphericalCoords on the polar axis");
    MathTools::SphericalCoord o = MathTools::toSphericalCoords(Vector3f(0, 0, 0));
    eq(MathTools::toPosition(o), Vector3f(0, 0, 0), "the origin");
}
VC_HARNESS(transform_position)
{
    Matrix4f P = vc::pose("P");
    Vector3f x = vc::vec3("x");
    Vector2f u = vc::vec2("u");
    eq(MathTools::transformPosition(x, P), vc::app(P, x), "transformPosition applies the pose");
    Vector3f y = vc::app(P, Vector3f(u(0), u(1), 0));
    eq(MathTools::transformPosition(u, P), Vector2f(y(0), y(1)), "transformPosition applies the pose to a 2D point");
    eq(MathTools::getTranslation(P), Vector3f(P(0,3), P(1,3), P(2,3)), "getTranslation");
}
