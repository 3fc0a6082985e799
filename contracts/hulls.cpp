// VC-PROPERTY: C10
// VC-TU: %robot VirtualRobot/BoundingBox.cpp
// VC-BOUNDED: sort_points_3: three points
// VC-BOUNDED: sort_double: two different points, one of them twice
// VC-BOUNDED: hull_3: three points
// VC-BOUNDED: hull_4_a: four points
// VC-BOUNDED: hull_4_b: four points
// VC-BOUNDED: hull_4_c: four points
// VC-BOUNDED: hull_4_d: four points
// VC-BOUNDED: hull_5: five points given in order of their coordinates
// VC-BOUNDED: hull_inside: triangles
// VC-BOUNDED: hull_center: up to four vertices
// VC-HOPT: sort_double: merge=0
// VC-HOPT: hull_3: merge=0
// VC-HOPT: hull_4_a: merge=0
// VC-HOPT: hull_4_b: merge=0
// VC-HOPT: hull_4_c: merge=0
// VC-HOPT: hull_4_d: merge=0
// VC-HOPT: hull_5: merge=0
// VC-HOPT: hull_inside: merge=0
// VC-FLAGS: -fno-access-control
#include "robot.h"
#include <VirtualRobot/BoundingBox.h>
using namespace vcr;
using vc::eq;
using vc::app;

static float lo(float a, float b) { return a < b ? a : b; }
static float hi(float a, float b) { return a < b ? b : a; }
static bool in(float x, float a, float b) { return vc_and(a <= x, x <= b); }
static bool within(const Vector3f& p, const Vector3f& a, const Vector3f& b) { return vc_and(in(p(0), a(0), b(0)), vc_and(in(p(1), a(1), b(1)), in(p(2), a(2), b(2)))); }
static Vector3f corner(const Vector3f& a, const Vector3f& b, int i) { return Vector3f(i & 1 ? b(0) : a(0), i & 2 ? b(1) : a(1), i & 4 ? b(2) : a(2)); }
static BoundingBox box(Vector3f& a, Vector3f& b)
{
    a = vc::vec3("min");
    for (int i = 0; i < 3; i++) b(i) = a(i) + vc_nondet_range("size", 0, 1000);
    BoundingBox x;
    x.addPoint(a); x.addPoint(b);
    return x;
}
VC_HARNESS(box_empty)
{
    BoundingBox b;
    vc_ensure(b.getPoints().empty(), "an empty box has no corners");
    vc_ensure(!b.isInside(vc::vec3("p")), "nothing is inside an empty box");
    MathTools::Plane p;
    p.n = vcr::unit("n"); p.p = vc::vec3("p");
    vc_ensure(!b.planeGoesThrough(p), "no plane cuts an empty box");
    Matrix4f m = vc::pose("m");
    b.transform(m);
    b.scale(vc::vec3("s"));
    BoundingBox c;
    c.addPoints(b);
    vc_ensure(c.getPoints().empty(), "an empty box stays empty");
    Vector3f x = vc::vec3("x");
    c.addPoint(x);
    eq(c.getMin(), x, "a box around one point");
    eq(c.getMax(), x, "a box around one point");
    c.clear();
    vc_ensure(c.getPoints().empty(), "cleared");
}
VC_HARNESS(box_points)
{
    int n = vc_case("points", 1, 4), how = vc_case("how", 0, 1);
    std::vector<Vector3f> p;
    for (int i = 0; i < n; i++) p.push_back(vc::vec3("p"));
    BoundingBox b;
    if (how) b = BoundingBox(p); else b.addPoints(p);
    for (int j = 0; j < 3; j++)
    {
        float l = p[0](j), h = p[0](j);
        for (int i = 1; i < n; i++) { l = lo(l, p[i](j)); h = hi(h, p[i](j)); }
        eq(b.getMin()(j), l, "the least coordinate");
        eq(b.getMax()(j), h, "the greatest coordinate");
    }
}
// by induction over the points: one more point extends the box by exactly that point
VC_HARNESS(box_add)
{
    Vector3f a, b, p = vc::vec3("p");
    BoundingBox x = box(a, b);
    x.addPoint(p);
    for (int j = 0; j < 3; j++)
    {
        eq(x.getMin()(j), lo(a(j), p(j)), "extended to the point");
        eq(x.getMax()(j), hi(b(j), p(j)), "extended to the point");
    }
}
VC_HARNESS(box_merge)
{
    Vector3f a, b, c, d;
    BoundingBox x = box(a, b), y = box(c, d);
    x.addPoints(y);
    for (int j = 0; j < 3; j++)
    {
        eq(x.getMin()(j), lo(a(j), c(j)), "contains both boxes");
        eq(x.getMax()(j), hi(b(j), d(j)), "contains both boxes");
    }
}
VC_HARNESS(box_corners)
{
    Vector3f a, b;
    BoundingBox x = box(a, b);
    std::vector<Vector3f> c = x.getPoints();
    vc_ensure(c.size() == 8, "eight corners");
    for (int k = 0; k < 8; k++)
    {
        Vector3f e = corner(a, b, k);
        bool found = false;
        for (int i = 0; i < 8; i++) found = vc_or(found, vc_and(c[i](0) == e(0), vc_and(c[i](1) == e(1), c[i](2) == e(2))));
        vc_ensure(found, "every corner is listed");
        vc_ensure(x.isInside(c[k]), "corners are inside");
    }
}
VC_HARNESS(box_inside)
{
    Vector3f a, b, p = vc::vec3("p");
    BoundingBox x = box(a, b);
    int skip = vc_case("ignored dimensions", 0, 7);
    bool e = true;
    for (int i = 0; i < 3; i++) if (skip >> i & 1) p(i) = NAN; else e = vc_and(e, in(p(i), a(i), b(i)));
    vc_ensure(x.isInside(p) == e, "inside exactly if no coordinate is outside, coordinates that are NaN are ignored");
}
VC_HARNESS(box_scale)
{
    Vector3f a, b, s, p = vc::vec3("p");
    BoundingBox x = box(a, b);
    for (int i = 0; i < 3; i++) s(i) = vc_nondet_range("s", 0.01f, 100);
    bool w = x.isInside(p);
    x.scale(s);
    for (int i = 0; i < 3; i++) { eq(x.getMin()(i), a(i) * s(i), "scaled"); eq(x.getMax()(i), b(i) * s(i), "scaled"); p(i) *= s(i); }
    if (vc_symbolic()) vc_ensure(x.isInside(p) == w, "scaled points are inside the scaled box");
}
static void moved(const Matrix4f& m, int j)
{
    Vector3f a, b;
    BoundingBox x;
    for (int i = 0; i < 3; i++) { a(i) = vc_nondet_range("min", -1e6f, 1e6f); b(i) = a(i) + vc_nondet_range("size", 0, 1000); }
    x.addPoint(a); x.addPoint(b);
    for (int i = 0; i < 3; i++) vc_assert_lemma(vc_or(vc_and(m(j,i) >= 0, m(j,i) * (b(i) - a(i)) >= 0), vc_and(m(j,i) <= 0, m(j,i) * (b(i) - a(i)) <= 0)), "an edge points up or down");
    Matrix4f t = m;
    x.transform(t);
    Vector3f l = x.getMin(), h = x.getMax();
    double el = m(j,3), eh = m(j,3);
    for (int i = 0; i < 3; i++) { el += lo(m(j,i) * a(i), m(j,i) * b(i)); eh += hi(m(j,i) * a(i), m(j,i) * b(i)); }
    for (int k = 0; k < 8; k++)
    {
        float c = app(m, corner(a, b, k))(j);
        vc_ensure_le(l(j), c, "moved corners are inside");
        vc_ensure_le(c, h(j), "moved corners are inside");
    }
    eq(l(j), el, "the box is tight");
    eq(h(j), eh, "the box is tight");
}
static Matrix4f affine()
{
    Matrix4f m = I4();
    for (int i = 0; i < 3; i++) { m(i, 3) = vc_nondet_range("t", -1e6f, 1e6f); for (int j = 0; j < 3; j++) m(i, j) = vc_nondet_range("m", -1, 1); }
    return m;
}
VC_HARNESS(box_turn_x) { moved(affine(), 0); }
VC_HARNESS(box_turn_y) { moved(affine(), 1); }
VC_HARNESS(box_turn_z) { moved(affine(), 2); }
VC_HARNESS(box_plane)
{
    Vector3f a, b;
    BoundingBox x = box(a, b);
    MathTools::Plane p;
    p.n = vc::vec3("n"); p.p = vc::vec3("p");
    bool l = false, r = false;
    for (int k = 0; k < 8; k++)
    {
        float d = vc::dot(p.n, Vector3f(corner(a, b, k) - p.p));
        l = vc_or(l, d >= 0); r = vc_or(r, d < 0);
    }
    bool g = x.planeGoesThrough(p);
    if (vc_symbolic()) vc_ensure(g == vc_and(l, r), "cut exactly if corners lie on both sides");
}

typedef MathTools::ConvexHull2DPtr Hull;
static float left(const Vector2f& a, const Vector2f& b, const Vector2f& p) { return (b(0) - a(0)) * (p(1) - a(1)) - (p(0) - a(0)) * (b(1) - a(1)); }
static bool same(const Vector2f& a, const Vector2f& b) { return vc_and(a(0) == b(0), a(1) == b(1)); }
static std::vector<Vector2f> points(int n)
{
    std::vector<Vector2f> p;
    for (int i = 0; i < n; i++)
    {
        p.push_back(Vector2f(vc_nondet_range("x", -1e4f, 1e4f), vc_nondet_range("y", -1e4f, 1e4f)));
        // no double points
        for (int k = 0; k < i; k++) { Vector2f d = p[i] - p[k]; vc_assume(d(0)*d(0) + d(1)*d(1) >= 1e-3f); }
    }
    return p;
}
VC_HARNESS(sort_points_3)
{
    std::vector<Vector2f> p = points(3), s = MathTools::sortPoints(p);
    vc_ensure(s.size() == 3, "no point is lost");
    for (int i = 0; i < 3; i++)
    {
        bool found = false;
        for (int k = 0; k < 3; k++) found = vc_or(found, same(s[k], p[i]));
        vc_ensure(found, "no point is lost");
        if (i) vc_ensure(vc_or(s[i-1](0) < s[i](0), vc_and(s[i-1](0) == s[i](0), s[i-1](1) < s[i](1))), "in order of the coordinates");
    }
}
VC_HARNESS(sort_double)
{
    std::vector<Vector2f> p = points(2);
    int k = vc_case("doubled", 0, 1), at = vc_case("position", 0, 2);
    p.insert(p.begin() + at, Vector2f(p[k]));
    std::vector<Vector2f> s = MathTools::sortPoints(p);
    vc_ensure(s.size() == 2, "double points are removed");
    bool thrown = false;
    try { MathTools::createConvexHull2D(p); } catch (...) { thrown = true; }
    vc_ensure(thrown, "no hull of less than three points");
}
static bool sorted = false;
// first: the point with the smallest coordinates
static void hull(int n, int first = -1)
{
    std::vector<Vector2f> p = points(n);
    if (sorted) for (int i = 1; i < n; i++) vc_assume(vc_or(p[i-1](0) < p[i](0), vc_and(p[i-1](0) == p[i](0), p[i-1](1) < p[i](1))));
    if (first >= 0) for (int i = 0; i < n; i++) if (i != first) vc_assume(vc_or(p[first](0) < p[i](0), vc_and(p[first](0) == p[i](0), p[first](1) < p[i](1))));
    Hull h = MathTools::createConvexHull2D(p);
    int m = h->vertices.size();
    vc_ensure(m <= n, "at most as many vertices as points");
    vc_ensure((int) h->segments.size() == m, "a closed polygon");
    for (int i = 0; i < m; i++)
    {
        vc_ensure(vc_and(h->segments[i].id1 == i, h->segments[i].id2 == (i + 1) % m), "a closed polygon");
        bool found = false;
        for (int k = 0; k < n; k++) found = vc_or(found, same(h->vertices[i], p[k]));
        vc_ensure(found, "vertices are given points");
    }
    // points on a line
    bool flat = true;
    for (int k = 2; k < n; k++) flat = vc_and(flat, left(p[0], p[1], p[k]) == 0);
    if (flat) { vc_ensure(m <= 3, "points on a line span a segment"); return; }
    vc_ensure(m >= 3, "points that are not on a line span a polygon");
    for (int i = 0; i < m; i++)
    {
        Vector2f a = h->vertices[i], b = h->vertices[(i + 1) % m];
        for (int k = 0; k < n; k++) vc_ensure_le(0, left(a, b, p[k]), "every point is left of every edge");
        vc_ensure(left(a, b, h->vertices[(i + 2) % m]) > 0, "strictly convex, counter clockwise");
    }
}
VC_HARNESS(hull_3) { hull(3); }
VC_HARNESS(hull_4_a) { hull(4, 0); }
VC_HARNESS(hull_4_b) { hull(4, 1); }
VC_HARNESS(hull_4_c) { hull(4, 2); }
VC_HARNESS(hull_4_d) { hull(4, 3); }
VC_HARNESS(hull_5)
{
    // in order already
    sorted = true;
    hull(5);
}
VC_HARNESS(hull_inside)
{
    // a triangle, counter clockwise
    Hull h(new MathTools::ConvexHull2D);
    for (int i = 0; i < 3; i++)
    {
        h->vertices.push_back(vc::vec2("v"));
        MathTools::Segment2D s; s.id1 = i; s.id2 = (i + 1) % 3;
        h->segments.push_back(s);
    }
    Vector2f a = h->vertices[0], b = h->vertices[1], c = h->vertices[2], p = vc::vec2("p");
    vc_assume(left(a, b, c) > 0);
    float x = left(a, b, p), y = left(b, c, p), z = left(c, a, p);
    bool r = MathTools::isInside(p, h);
    if (!vc_symbolic()) return;
    vc_ensure(vc_implies(vc_and(x > 0, vc_and(y > 0, z > 0)), r), "points left of all edges are inside");
    vc_ensure(vc_implies(r, vc_and(x >= 0, vc_and(y >= 0, z >= 0))), "points right of an edge are outside");
    vc_ensure(!MathTools::isInside(p, Hull()), "nothing is inside of no hull");
}
VC_HARNESS(hull_center)
{
    Hull h(new MathTools::ConvexHull2D);
    int n = vc_case("vertices", 0, 4);
    Vector2f a(0, 0), b(0, 0);
    for (int i = 0; i < n; i++)
    {
        Vector2f v = vc::vec2("v");
        if (!i) a = b = v;
        for (int k = 0; k < 2; k++) { a(k) = lo(a(k), v(k)); b(k) = hi(b(k), v(k)); }
        h->vertices.push_back(v);
    }
    Vector2f c = MathTools::getConvexHullCenter(h);
    for (int k = 0; k < 2; k++) eq(c(k), (a(k) + b(k)) / 2, "center of the bounding rectangle");
}
