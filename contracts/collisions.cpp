// VC-PROPERTY: C14
// VC-TU: %robot VirtualRobot/BoundingBox.cpp VirtualRobot/Visualization/TriMeshModel.cpp VirtualRobot/Visualization/VisualizationNode.cpp VirtualRobot/CollisionDetection/CollisionModel.cpp VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.cpp VirtualRobot/CollisionDetection/CDManager.cpp
// VC-BOUNDED: sets_collide: sets of up to two objects
// VC-BOUNDED: sets_distance: sets of two objects
// VC-BOUNDED: object_set: sets of up to two objects
// VC-BOUNDED: robots: robots of two nodes
// VC-BOUNDED: robot_distance: robots of two nodes
// VC-BOUNDED: manager_all: three sets of one object
// VC-BOUNDED: manager_pairs: four sets of one object
// VC-BOUNDED: manager_one_all: three sets of one object
// VC-BOUNDED: manager_distance: three sets of one object
// VC-BOUNDED: object_list: up to four objects
// VC-OPT: merge=0
// VC-FLAGS: -fno-access-control
#include "robot.h"
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.h>
#include <VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.h>
using namespace vcr;
using vc::eq;

// The test of two models: any answer for every pair of models, the same in both orders.
static const int N = 6;
static const void* models[N];
static bool hit[N][N];
static float dist[N][N];
static int tests, badModels, badPoses;
static Matrix4f* poses[N];
static const void* pointModel;
static float pointTolerance, pointAt[3];
static int indexOf(const void* m)
{
    for (int i = 0; i < N; i++) if (models[i] == m) return i;
    badModels++;
    return 0;
}
static void posed(int i, float R[3][3], float T[3])
{
    if (!poses[i]) return;
    for (int j = 0; j < 3; j++)
    {
        for (int k = 0; k < 3; k++) vc_ensure_eq(R[j][k], (*poses[i])(j, k), "models are tested at their poses");
        vc_ensure_eq(T[j], (*poses[i])(j, 3), "models are tested at their poses");
    }
}
VC_MOCK("PQP::PQP_Model::EndModel")
int stub_end(void*) { return 0; }
VC_MOCK("PQP::PQP_Checker::PQP_Collide(PQP::PQP_CollideResult*, float (*) [3], float*, PQP::PQP_Model*, float (*) [3], float*, PQP::PQP_Model*, int)")
int stub_collide(PQP::PQP_Checker*, PQP::PQP_CollideResult* r, float R1[3][3], float T1[3], PQP::PQP_Model* a, float R2[3][3], float T2[3], PQP::PQP_Model* b, int)
{
    int i = indexOf(a), j = indexOf(b);
    posed(i, R1, T1);
    posed(j, R2, T2);
    tests++;
    r->num_pairs = hit[i][j] ? 1 : 0;
    return 0;
}
VC_MOCK("PQP::PQP_Checker::PQP_Distance(PQP::PQP_DistanceResult*, float (*) [3], float*, PQP::PQP_Model*, float (*) [3], float*, PQP::PQP_Model*, float, float, int)")
int stub_distance(PQP::PQP_Checker*, PQP::PQP_DistanceResult* r, float R1[3][3], float T1[3], PQP::PQP_Model* a, float R2[3][3], float T2[3], PQP::PQP_Model* b, float rel, float abs, int)
{
    int i = indexOf(a), j = indexOf(b);
    posed(i, R1, T1);
    posed(j, R2, T2);
    vc_ensure(rel == 0 && abs == 0, "exact distances");
    tests++;
    r->distance = dist[i][j];
    for (int k = 0; k < 3; k++) { r->p1[k] = 10 * i + j + 100 * k; r->p2[k] = 10 * j + i + 100 * k; }
    r->p1ID = 10 * i + j;
    r->p2ID = 10 * j + i;
    return 0;
}
VC_MOCK("PQP::PQP_Checker::PQP_Tolerance(PQP::PQP_ToleranceResult*, float (*) [3], float*, PQP::PQP_Model*, float (*) [3], float*, PQP::PQP_Model*, float, int)")
int stub_tolerance(PQP::PQP_Checker*, PQP::PQP_ToleranceResult* r, float R1[3][3], float T1[3], PQP::PQP_Model* a, float R2[3][3], float T2[3], PQP::PQP_Model* b, float tolerance, int)
{
    int i = indexOf(a);
    posed(i, R1, T1);
    for (int j = 0; j < 3; j++)
    {
        for (int k = 0; k < 3; k++) vc_ensure_eq(R2[j][k], j == k ? 1 : 0, "the point is tested where it is");
        vc_ensure_eq(T2[j], pointAt[j], "the point is tested where it is");
    }
    pointTolerance = tolerance;
    pointModel = b;
    tests++;
    r->closer_than_tolerance = hit[i][i] ? 1 : 0;
    return 0;
}

struct Mesh : VisualizationNode
{
    TriMeshModelPtr t;
    TriMeshModelPtr getTriMeshModel() override { return t; }
    VisualizationNodePtr clone(bool, float) override
    {
        boost::shared_ptr<Mesh> m(new Mesh());
        m->t = t;
        return m;
    }
};
struct World
{
    CollisionCheckerPtr cc;
    CollisionModelPtr m[N];
    SceneObjectPtr o[N];
    int n;
    World(int n) : n(n)
    {
        cc = CollisionChecker::getGlobalCollisionChecker();
        tests = badModels = badPoses = 0;
        for (int i = 0; i < n; i++)
        {
            boost::shared_ptr<Mesh> v(new Mesh());
            v->t.reset(new TriMeshModel());
            for (int k = 0; k < 3; k++) v->t->addVertex(Vector3f(k == 0, k == 1, i));
            v->t->addFace(0, 1, 2);
            v->t->faces[0].normal = Vector3f(0, 0, 1);
            m[i].reset(new CollisionModel(v, "m", cc, i));
            models[i] = m[i]->getCollisionModelImplementation()->getPQPModel().get();
            o[i].reset(new SceneObject(i == 0 ? "a" : i == 1 ? "b" : i == 2 ? "c" : "d", VisualizationNodePtr(), m[i], SceneObject::Physics(), cc));
            poses[i] = nullptr;
        }
    }
    ~World()
    {
        vc_ensure(badModels == 0, "only the given models are tested");
        for (int i = 0; i < N; i++) models[i] = poses[i] = nullptr;
    }
    void anyHits() { for (int i = 0; i < n; i++) for (int j = i; j < n; j++) hit[i][j] = hit[j][i] = vc_nondet_bool("hit"); }
    void anyDistances() { for (int i = 0; i < n; i++) for (int j = i; j < n; j++) dist[i][j] = dist[j][i] = vc_nondet_range("distance", 0, 1e6f); }
    // the set of the objects from..to-1
    SceneObjectSetPtr set(int from, int to)
    {
        SceneObjectSetPtr s(new SceneObjectSet("s", cc));
        for (int i = from; i < to; i++) vc_ensure(s->addSceneObject(o[i]), "object added");
        return s;
    }
};
static bool any(int a, int b, int c, int d)
{
    bool r = false;
    for (int i = a; i < b; i++) for (int j = c; j < d; j++) r = r | hit[i][j];
    return r;
}
struct Near { Vector3f p, q; int i, j; };
// d is the smallest distance of the pairs, its points and triangles are those of a pair with this distance
static void nearest(float d, const Near& n, const bool pair[N][N], bool ids = true)
{
    bool one = false;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (pair[i][j])
    {
        vc_ensure_le(d, dist[i][j], "no pair is closer");
        bool k = vc_and(vc_eq(d, dist[i][j]), vc_and(n.p(0) == 10 * i + j, n.q(0) == 10 * j + i));
        for (int c = 1; c < 3; c++) k = vc_and(k, vc_and(n.p(c) == n.p(0) + 100 * c, n.q(c) == n.q(0) + 100 * c));
        if (ids) k = vc_and(k, vc_and(n.i == 10 * i + j, n.j == 10 * j + i));
        one = vc_or(one, k);
    }
    vc_ensure(one, "points and triangles of the closest pair, in the order of the arguments");
}
static void smallest(float d, const bool pair[N][N])
{
    bool one = false;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (pair[i][j])
    {
        vc_ensure_le(d, dist[i][j], "no pair is closer");
        one = vc_or(one, vc_eq(d, dist[i][j]));
    }
    vc_ensure(one, "distance of a pair");
}
struct Pairs
{
    bool p[N][N];
    Pairs(int a = 0, int b = 0, int c = 0, int d = 0)
    {
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) p[i][j] = i >= a && i < b && j >= c && j < d;
    }
};

// single models at any pose
VC_HARNESS(two_models)
{
    World w(2);
    w.anyHits();
    w.anyDistances();
    Matrix4f a = vc::pose("a"), b = vc::pose("b");
    w.m[0]->setGlobalPose(a);
    w.m[1]->setGlobalPose(b);
    poses[0] = &a;
    poses[1] = &b;
    vc_ensure(w.cc->checkCollision(w.m[0], w.m[1]) == hit[0][1], "collision of two models");
    vc_ensure(w.cc->checkCollision(w.o[0], w.o[1]) == hit[0][1], "collision of two objects");
    vc_ensure(w.cc->checkCollision(w.o[1], w.o[0]) == hit[0][1], "collision of two objects");
    std::vector<CollisionModelPtr> l;
    vc_ensure(!w.cc->checkCollision(l, w.m[1]), "no models");
    l.push_back(w.m[0]);
    vc_ensure(w.cc->checkCollision(l, w.m[1]) == hit[0][1], "collision with a list");
    l.push_back(w.m[1]);
    vc_ensure(w.cc->checkCollision(l, w.m[1]) == (hit[0][1] | hit[1][1]), "collision with a list");
    eq(w.cc->calculateDistance(w.m[0], w.m[1]), dist[0][1], "distance of two models");
    eq(w.cc->calculateDistance(w.o[1], w.o[0]), dist[0][1], "distance of two objects");
    for (int k = 0; k < 2; k++)
    {
        Near n;
        float d = k ? w.cc->calculateDistance(w.m[1], w.m[0], n.p, n.q, &n.i, &n.j) : w.cc->calculateDistance(w.o[1], w.o[0], n.p, n.q, &n.i, &n.j);
        nearest(d, n, Pairs(1, 2, 0, 1).p);
    }
}
VC_HARNESS(point_and_model)
{
    World w(2);
    w.anyHits();
    Matrix4f a = vc::pose("a");
    w.m[0]->setGlobalPose(a);
    poses[0] = &a;
    Vector3f p = vc::vec3("p");
    for (int i = 0; i < 3; i++) pointAt[i] = p(i);
    float t = vc_nondet_range("tolerance", 0.001f, 1000);
    vc_ensure(w.cc->checkCollision(w.m[0], p, t) == hit[0][0], "sphere and model");
    eq(pointTolerance, t, "radius of the sphere");
    vc_ensure(pointModel != models[0] && pointModel != models[1], "the sphere is tested");
    SceneObjectSetPtr s = w.set(0, 2);
    vc_ensure(w.cc->checkCollision(s, p, t) == (hit[0][0] | hit[1][1]), "sphere and set");
    eq(pointTolerance, t, "radius of the sphere");
    vc_ensure(!w.cc->checkCollision(w.set(0, 0), p, t), "sphere and nothing");
}
// sets and objects: exactly when one of the pairs collides
VC_HARNESS(sets_collide)
{
    int a = vc_case("size", 0, 2), b = vc_case("size", 0, 2);
    World w(4);
    for (int i = 0; i < a; i++) for (int j = 2; j < 2 + b; j++) hit[i][j] = hit[j][i] = vc_nondet_bool("hit");
    SceneObjectSetPtr s = w.set(0, a), t = w.set(2, 2 + b);
    bool e = any(0, a, 2, 2 + b);
    vc_ensure(w.cc->checkCollision(s, t) == e, "sets collide if a pair does");
    vc_ensure(w.cc->checkCollision(t, s) == e, "sets collide if a pair does");
    if (a == 1)
    {
        vc_ensure(w.cc->checkCollision(w.o[0], t) == e, "object and set");
        vc_ensure(w.cc->checkCollision(w.m[0], t) == e, "model and set");
    }
}
VC_HARNESS(sets_distance)
{
    World w(4);
    w.anyDistances();
    SceneObjectSetPtr s = w.set(0, 2), t = w.set(2, 4);
    Near n;
    float d = w.cc->calculateDistance(s, t, n.p, n.q, &n.i, &n.j);
    nearest(d, n, Pairs(0, 2, 2, 4).p);
}
VC_HARNESS(sets_distance_only)
{
    World w(4);
    w.anyDistances();
    SceneObjectSetPtr s = w.set(0, 2), t = w.set(2, 4);
    smallest(w.cc->calculateDistance(t, s), Pairs(0, 2, 2, 4).p);
    Near n;
    float d = w.cc->calculateDistance(s, t, n.p, n.q, nullptr, nullptr);
    nearest(d, n, Pairs(0, 2, 2, 4).p, false);
}
VC_HARNESS(object_set)
{
    World w(3);
    w.anyDistances();
    SceneObjectSetPtr t = w.set(1, 3);
    Pairs x(0, 1, 1, 3);
    Near n;
    float d = w.cc->calculateDistance(w.o[0], t, n.p, n.q, &n.i, &n.j);
    nearest(d, n, x.p);
    smallest(w.cc->calculateDistance(w.o[0], t), x.p);
    d = w.cc->calculateDistance(w.m[0], t, n.p, n.q, &n.i, &n.j);
    nearest(d, n, x.p);
    smallest(w.cc->calculateDistance(w.m[0], t), x.p);
}
// robots stand for all of their nodes that have a model
struct Robots : World
{
    RobotPtr r, q;
    Robots() : World(5)
    {
        r = make(0);
        q = make(2);
    }
    RobotPtr make(int at)
    {
        RobotPtr r = robot();
        RobotNodePtr a = fixed(r, "1", I4()), b = fixed(r, "2", I4()), c = fixed(r, "3", I4());
        a->setCollisionModel(m[at]);
        c->setCollisionModel(m[at + 1]);
        a->initialize(SceneObjectPtr(), std::vector<SceneObjectPtr>());
        b->initialize(a, std::vector<SceneObjectPtr>());
        c->initialize(b, std::vector<SceneObjectPtr>());
        r->setRootNode(a);
        return r;
    }
};
VC_HARNESS(robots)
{
    Robots w;
    for (int i = 0; i < 2; i++) for (int j = 2; j < 5; j++) hit[i][j] = hit[j][i] = vc_nondet_bool("hit");
    vc_ensure(w.cc->checkCollision(w.r, w.q) == any(0, 2, 2, 4), "two robots");
    vc_ensure(w.cc->checkCollision(w.r, w.o[4]) == any(0, 2, 4, 5), "robot and object");
    vc_ensure(w.cc->checkCollision(w.o[4], w.r) == any(0, 2, 4, 5), "object and robot");
    vc_ensure(w.cc->checkCollision(w.r, w.set(3, 5)) == any(0, 2, 3, 5), "robot and set");
    SceneObjectSetPtr s = w.cc->getRobotModels(w.r);
    vc_ensure(s->getSize() == 2, "nodes with a model");
    vc_ensure(s->hasSceneObject(w.r->getRobotNode("1")) && s->hasSceneObject(w.r->getRobotNode("3")), "nodes with a model");
}
VC_HARNESS(robot_distance)
{
    Robots w;
    w.anyDistances();
    Near n;
    Pairs ro(0, 2, 4, 5), o(4, 5, 0, 2);
    float d = w.cc->calculateDistance(w.r, w.o[4], n.p, n.q, &n.i, &n.j);
    nearest(d, n, ro.p);
    d = w.cc->calculateDistance(w.o[4], w.r, n.p, n.q, &n.i, &n.j);
    nearest(d, n, o.p);
    smallest(w.cc->calculateDistance(w.r, w.o[4]), ro.p);
    smallest(w.cc->calculateDistance(w.o[4], w.r), ro.p);
}
VC_HARNESS(robots_distance)
{
    Robots w;
    w.anyDistances();
    Near n;
    Pairs rr(0, 2, 2, 4);
    float d = w.cc->calculateDistance(w.r, w.q, n.p, n.q, &n.i, &n.j);
    nearest(d, n, rr.p);
    smallest(w.cc->calculateDistance(w.r, w.q), rr.p);
}
VC_HARNESS(robot_set_distance)
{
    Robots w;
    w.anyDistances();
    Near n;
    Pairs rs(0, 2, 3, 5);
    SceneObjectSetPtr s = w.set(3, 5);
    float d = w.cc->calculateDistance(w.r, s, n.p, n.q, &n.i, &n.j);
    nearest(d, n, rs.p);
    smallest(w.cc->calculateDistance(w.r, s), rs.p);
}

// managers
static bool allPairs(int n)
{
    bool r = false;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) r = r | hit[i][j];
    return r;
}
VC_HARNESS(manager_all)
{
    // every set against every other one, also when sets were given as pairs before
    World w(4);
    for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) hit[i][j] = hit[j][i] = vc_nondet_bool("hit");
    bool self = vc_nondet_bool("touching itself");
    for (int i = 0; i < 4; i++) hit[i][i] = self;
    int before = vc_case("pair before", 0, 1), objects = vc_case("objects", 0, 1);
    CDManagerPtr c(new CDManager(w.cc));
    SceneObjectSetPtr s[4];
    for (int i = 0; i < 4; i++) s[i] = w.set(i, i + 1);
    if (before) { if (objects) c->addCollisionModelPair(w.o[0], w.o[1]); else c->addCollisionModelPair(s[0], s[1]); }
    for (int i = 0; i < 4; i++) if (objects) c->addCollisionModel(w.o[i]); else c->addCollisionModel(s[i]);
    vc_ensure(c->getSceneObjectSets().size() == 4, "every set once");
    vc_ensure(c->isInCollision() == allPairs(4), "all sets are checked against each other");
    for (int i = 0; i < 4; i++)
    {
        vc_ensure(c->hasSceneObject(w.o[i]), "objects are known");
        vc_ensure(c->hasSceneObjectSet(s[i]) == !objects, "sets are known");
    }
}
VC_HARNESS(manager_pairs)
{
    World w(4);
    for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) hit[i][j] = hit[j][i] = vc_nondet_bool("hit");
    SceneObjectSetPtr s[4];
    for (int i = 0; i < 4; i++) s[i] = w.set(i, i + 1);
    CDManagerPtr c(new CDManager(w.cc));
    vc_ensure(!c->isInCollision(), "no pairs");
    int k = vc_case("kind", 0, 2);
    if (k == 0) { c->addCollisionModelPair(s[0], s[1]); c->addCollisionModelPair(s[2], s[3]); c->addCollisionModelPair(s[0], s[3]); }
    if (k == 1) { c->addCollisionModelPair(w.o[0], s[1]); c->addCollisionModelPair(w.o[2], s[3]); c->addCollisionModelPair(w.o[0], s[3]); }
    if (k == 2) { c->addCollisionModelPair(w.o[0], w.o[1]); c->addCollisionModelPair(w.o[2], w.o[3]); c->addCollisionModelPair(w.o[0], w.o[3]); }
    vc_ensure(c->isInCollision() == (hit[0][1] | hit[2][3] | hit[0][3]), "exactly the pairs are checked");
    vc_ensure(c->getSceneObjectSets().size() == 4, "every object once");
}
VC_HARNESS(manager_one_all)
{
    // a set against all, which may be one of them or a new one
    World w(4);
    for (int i = 0; i < 4; i++) for (int j = 0; j <= i; j++) hit[i][j] = hit[j][i] = vc_nondet_bool("hit");
    SceneObjectSetPtr s[4];
    for (int i = 0; i < 4; i++) s[i] = w.set(i, i + 1);
    CDManagerPtr c(new CDManager(w.cc));
    int pairs = vc_case("pairs", 0, 1);
    if (pairs) { c->addCollisionModelPair(s[0], s[1]); c->addCollisionModelPair(s[0], s[2]); }
    else for (int i = 0; i < 3; i++) c->addCollisionModel(s[i]);
    vc_ensure(c->isInCollision(s[3]) == any(3, 4, 0, 3), "a new set");
    vc_ensure(c->isInCollision(s[1]) == (hit[1][0] | hit[1][2]), "one of the sets");
}
static Pairs triangle(bool upper, bool lower)
{
    Pairs p;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) p.p[i][j] = (upper && i < j) || (lower && j < i);
    return p;
}
VC_HARNESS(manager_distance)
{
    World w(3);
    w.anyDistances();
    SceneObjectSetPtr s[3];
    CDManagerPtr c(new CDManager(w.cc));
    for (int i = 0; i < 3; i++) { s[i] = w.set(i, i + 1); c->addCollisionModel(s[i]); }
    smallest(c->getDistance(), triangle(true, false).p);
    Near n;
    float d = c->getDistance(n.p, n.q, n.i, n.j);
    nearest(d, n, triangle(true, true).p);
}
VC_HARNESS(manager_distance_one)
{
    World w(4);
    w.anyDistances();
    SceneObjectSetPtr s[4];
    for (int i = 0; i < 4; i++) s[i] = w.set(i, i + 1);
    CDManagerPtr c(new CDManager(w.cc));
    for (int i = 0; i < 3; i++) c->addCollisionModel(s[i]);
    int k = vc_case("set", 0, 3);
    Pairs p(k, k + 1, 0, 3);
    p.p[k][k] = false;
    smallest(c->getDistance(s[k]), p.p);
    Near n;
    float d = c->getDistance(s[k], n.p, n.q, n.i, n.j);
    nearest(d, n, p.p);
}
// the objects of a set
VC_HARNESS(object_list)
{
    World w(4);
    SceneObjectSetPtr s = w.set(0, 2), t(new SceneObjectSet("t", w.cc));
    vc_ensure(!s->addSceneObject(w.o[1]), "an object is added once");
    vc_ensure(s->getSize() == 2 && s->getSceneObject(0) == w.o[0] && s->getSceneObject(1) == w.o[1], "objects in order");
    int a = vc_case("a", 0, 3), b = vc_case("b", 0, 3);
    vc_assume(a != b);
    t->addSceneObject(w.o[a]);
    t->addSceneObject(w.o[b]);
    bool n = s->addSceneObjects(t);
    vc_ensure(n == (a > 1 && b > 1), "all objects were new");
    vc_ensure(s->hasSceneObject(w.o[a]) && s->hasSceneObject(w.o[b]) && s->hasSceneObject(w.o[0]) && s->hasSceneObject(w.o[1]), "objects of both sets");
    vc_ensure(int(s->getSize()) == 2 + (a > 1) + (b > 1), "objects of both sets, once");
    vc_ensure(s->getCollisionModels().size() == s->getSize() && s->getCollisionModels()[1] == w.m[1], "their models");
    SceneObjectSetPtr c = s->clone("c");
    int k = vc_case("removed", 0, 3);
    bool in = s->hasSceneObject(w.o[k]);
    unsigned int before = s->getSize();
    vc_ensure(s->removeSceneObject(w.o[k]) == in, "objects of the set can be removed");
    vc_ensure(!s->hasSceneObject(w.o[k]) && s->getSize() == before - in, "one object less");
    for (int i = 0; i < 4; i++) if (i != k) vc_ensure(s->hasSceneObject(w.o[i]) == c->hasSceneObject(w.o[i]), "the others stay");
    vc_ensure(c->getSize() == before && c->hasSceneObject(w.o[k]) == in, "a copy keeps its objects");
}
