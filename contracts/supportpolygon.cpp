// VC-PROPERTY: C10
// VC-TU: %robot VirtualRobot/IK/SupportPolygon.cpp
// VC-HOPT: support: merge=0
// VC-HOPT: stability_outside: merge=0
// VC-HOPT: stability_inside_square: merge=0
// VC-HOPT: stability_inside_wide: merge=0
// VC-HOPT: stability_inside_deep: merge=0
// VC-BOUNDED: support: up to five contacts
// VC-BOUNDED: stability_outside: rectangles
// VC-BOUNDED: stability_inside_square: one size of rectangles, at any place
// VC-BOUNDED: stability_inside_wide: one size of rectangles, at any place
// VC-BOUNDED: stability_inside_deep: one size of rectangles, at any place
// VC-FLAGS: -fno-access-control
#include "robot.h"
#include <VirtualRobot/IK/SupportPolygon.h>
using namespace vcr;
using vc::eq;
typedef MathTools::ConvexHull2DPtr Hull;
static float lo(float a, float b) { return a < b ? a : b; }
static bool same(const Vector2f& a, const Vector2f& b) { return vc_and(a(0) == b(0), a(1) == b(1)); }

// the order and the hull of points are decided in hulls.cpp; here only of which points
VC_MOCK("VirtualRobot::MathTools::sortPoints(std::vector<Eigen::Matrix<float, 2, 1, 0, 2, 1>, std::allocator<Eigen::Matrix<float, 2, 1, 0, 2, 1> > > const&)")
std::vector<Vector2f> stub_sort(const std::vector<Vector2f>& p) { return p; }
static std::vector<Vector2f> hullOf;
static Hull hull;
VC_MOCK("VirtualRobot::MathTools::createConvexHull2D(std::vector<Eigen::Matrix<float, 2, 1, 0, 2, 1>, std::allocator<Eigen::Matrix<float, 2, 1, 0, 2, 1> > > const&)")
Hull stub_hull(const std::vector<Vector2f>& p)
{
    hullOf = p;
    return hull;
}
// the contacts of a model that is not part of this contract
static std::vector<Vector3f> contacts;
VC_MOCK("VirtualRobot::CollisionChecker::getContacts(VirtualRobot::MathTools::Plane const&, boost::shared_ptr<VirtualRobot::CollisionModel>, std::vector<VirtualRobot::MathTools::ContactPoint, std::allocator<VirtualRobot::MathTools::ContactPoint> >&, float)")
void stub_contacts(CollisionChecker*, const MathTools::Plane& p, CollisionModelPtr, std::vector<MathTools::ContactPoint>& c, float d)
{
    eq(p.n, Vector3f(0, 0, 1), "contacts with the floor");
    eq(p.p, Vector3f(0, 0, 0), "contacts with the floor");
    for (auto& x : contacts) { MathTools::ContactPoint q; q.p = x; q.n = p.n; c.push_back(q); }
}
struct Support
{
    char s[sizeof(SupportPolygon)] __attribute__((aligned(16))), c[sizeof(CollisionModel)] __attribute__((aligned(16)));
    SupportPolygon* p;
    Support()
    {
        for (auto& x : s) x = 0;
        for (auto& x : c) x = 0;
        p = (SupportPolygon*) s;
        p->floor = MathTools::getFloorPlane();
        CollisionModelPtr m((CollisionModel*) c, [](CollisionModel*) {});
        m->colChecker.reset(new CollisionChecker());
        p->colModels.push_back(m);
    }
};
VC_HARNESS(support)
{
    Support s;
    hull.reset(new MathTools::ConvexHull2D);
    int n = vc_case("contacts", 0, 5);
    contacts.clear();
    std::vector<Vector2f> p;
    for (int i = 0; i < n; i++)
    {
        p.push_back(vc::vec2("contact"));
        contacts.push_back(Vector3f(p[i](0), p[i](1), vc_nondet_range("z", -10, 5)));
    }
    Hull h = s.p->updateSupportPolygon();
    vc_ensure(h == s.p->getSupportPolygon2D(), "the polygon found last");
    vc_ensure(h == (n < 3 ? Hull() : hull), "no polygon of less than three contacts, otherwise their hull");
    if (n >= 3)
    {
        vc_ensure((int) hullOf.size() == n, "the hull of the contacts on the floor");
        for (int i = 0; i < n; i++)
        {
            bool found = false;
            for (int k = 0; k < n; k++) found = vc_or(found, same(hullOf[k], p[i]));
            vc_ensure(found, "the hull of the contacts on the floor");
        }
    }
    contacts.clear();
    s.p->updateSupportPolygon();
    vc_ensure(!s.p->getSupportPolygon2D(), "no polygon without contacts");
}
static RobotNodeSetPtr body(RobotPtr& r, const Vector3f& c)
{
    r = robot();
    SceneObject::Physics p;
    p.comLocation = SceneObject::Physics::eCustom;
    p.localCoM = c;
    p.massKg = 1;
    RobotNodePtr n(new RobotNodeFixed(r, "n", I4(), VisualizationNodePtr(), CollisionModelPtr(), p));
    r->registerRobotNode(n);
    r->setRootNode(n);
    n->initialize();
    return RobotNodeSet::createRobotNodeSet(r, "set", std::vector<RobotNodePtr>(1, n), n);
}
// a rectangle with corner (x, y), width w and depth d
static void rectangle(Support& s, float x, float y, float w, float d)
{
    Hull h(new MathTools::ConvexHull2D);
    for (int i = 0; i < 4; i++)
    {
        h->vertices.push_back(Vector2f(x + (i == 1 || i == 2 ? w : 0), y + (i >= 2 ? d : 0)));
        MathTools::Segment2D g; g.id1 = i; g.id2 = (i + 1) % 4; h->segments.push_back(g);
    }
    s.p->suportPolygonFloor = h;
}
VC_HARNESS(stability_outside)
{
    Support s;
    RobotPtr r;
    Vector3f c = vc::vec3("com");
    RobotNodeSetPtr set = body(r, c);
    vc_ensure(s.p->getStabilityIndex(RobotNodeSetPtr(), false) == 0, "not stable without a body");
    vc_ensure(s.p->getStabilityIndex(set, false) == 0, "not stable without a polygon");
    float x = vc_nondet_float("x"), y = vc_nondet_float("y"), w = vc_nondet_range("w", 1, 1000), d = vc_nondet_range("d", 1, 1000);
    rectangle(s, x, y, w, d);
    vc_assume(vc_or(vc_or(c(0) < x, c(0) > x + w), vc_or(c(1) < y, c(1) > y + d)));
    vc_ensure(s.p->getStabilityIndex(set, false) == 0, "not stable outside of the polygon");
}
static void inside(int shape)
{
    Support s;
    RobotPtr r;
    float x = vc_nondet_range("x", -1000, 1000), y = vc_nondet_range("y", -1000, 1000), w = shape == 1 ? 400 : 100, d = shape == 2 ? 300 : 100;
    // the distances to the borders
    float a = vc_nondet_range("left", 0.001f, 399.999f), b = vc_nondet_range("front", 0.001f, 299.999f);
    vc_assume(a < w - 0.001f);
    vc_assume(b < d - 0.001f);
    RobotNodeSetPtr set = body(r, Vector3f(x + a, y + b, vc_nondet_float("z")));
    rectangle(s, x, y, w, d);
    float e[4] = {a, w - a, b, d - b};
    int k = vc_case("nearest border", 0, 3);
    for (int i = 0; i < 4; i++) { vc_assume(e[k] <= e[i]); vc_assert_lemma(e[k] * e[k] <= e[i] * e[i], "order of squares"); }
    eq(s.p->getStabilityIndex(set, false), 2 * e[k] / lo(w, d), "distance to the border relative to that of the center");
}
VC_HARNESS(stability_inside_square) { inside(0); }
VC_HARNESS(stability_inside_wide) { inside(1); }
VC_HARNESS(stability_inside_deep) { inside(2); }
VC_HARNESS(line_distance)
{
    Support s;
    // a point given by its position along and beside the line
    Vector2f a = vc::vec2("a");
    float f = vc_nondet_float("f"), l = vc_nondet_range("l", 0.001f, 1000), t = vc_nondet_float("t"), d = vc_nondet_range("d", -1000, 1000);
    Vector2f u(vc_cos(f), vc_sin(f)), b = a + l * u, p(a(0) + t * u(0) - d * u(1), a(1) + t * u(1) + d * u(0));
    eq(s.p->getSquaredDistLine(p, a, b), d * d, "square of the distance to the line");
}
