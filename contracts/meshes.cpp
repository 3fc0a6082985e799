// VC-PROPERTY: C17
// VC-TU: %robot VirtualRobot/BoundingBox.cpp VirtualRobot/Visualization/TriMeshModel.cpp VirtualRobot/Visualization/VisualizationNode.cpp VirtualRobot/CollisionDetection/CollisionModel.cpp VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.cpp
// VC-BOUNDED: mesh_box_com: up to three vertices
// VC-BOUNDED: mesh_merge_meshes: meshes of one triangle
// VC-BOUNDED: mesh_scale_clone: three vertices, one face
// VC-BOUNDED: mesh_orient: two triangles
// VC-BOUNDED: mesh_same_edge: two triangles
// VC-BOUNDED: mesh_unused: five vertices, two faces
// VC-BOUNDED: mesh_merge: four vertices, two faces
// VC-BOUNDED: mesh_merge_three: five vertices at concrete distances, three faces
// VC-BOUNDED: mesh_fatten: one triangle
// VC-BOUNDED: mesh_fatten_box: one concrete triangle
// VC-BOUNDED: model_inflate: a mesh of one triangle
// VC-BOUNDED: model_pose: a mesh of one triangle
// VC-BOUNDED: model_clone: a mesh of one triangle
// VC-BOUNDED: model_scale: a mesh of one triangle
// VC-BOUNDED: model_box: a mesh of three vertices
// VC-BOUNDED: model_contacts: a mesh of three vertices
// VC-HOPT: mesh_same_edge: merge=0
// VC-HOPT: mesh_orient: merge=0
// VC-FLAGS: -fno-access-control
#include "robot.h"
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.h>
using namespace vcr;
using vc::eq;
using vc::app;
typedef MathTools::TriangleFace Face;
typedef VisualizationFactory::Color Color;

static float lo(float a, float b) { return a < b ? a : b; }
static float hi(float a, float b) { return a < b ? b : a; }
static Vector3f point(const char* n) { return Vector3f(vc_nondet_range(n, -1e4f, 1e4f), vc_nondet_range(n, -1e4f, 1e4f), vc_nondet_range(n, -1e4f, 1e4f)); }
static Vector3f area(const Vector3f& a, const Vector3f& b, const Vector3f& c) { return vc::cross(Vector3f(b - a), Vector3f(c - a)); }
static void eqc(const Color& c, float r, float g, float b, float t, const char* l) { eq(c.r, r, l); eq(c.g, g, l); eq(c.b, b, l); eq(c.transparency, t, l); }
// the box of the mesh is the smallest around its vertices
static void boxed(const TriMeshModel& m)
{
    for (int j = 0; j < 3; j++)
    {
        float l = m.vertices[0](j), h = l;
        for (auto& v : m.vertices) { l = lo(l, v(j)); h = hi(h, v(j)); }
        eq(m.boundingBox.getMin()(j), l, "bounding box of the vertices");
        eq(m.boundingBox.getMax()(j), h, "bounding box of the vertices");
    }
}
// a triangle that is not degenerate
struct Tri
{
    Vector3f a, b, c, n;
    Tri()
    {
        a = point("a"); b = point("b"); c = point("c");
        n = area(a, b, c);
        vc_assume(vc::dot(n, n) > 1);
    }
};
static void normal(const Vector3f& n, const Vector3f& area)
{
    eq(vc::dot(n, n), 1, "unit normal");
    float scale = vc_symbolic() ? 1 : 1 / std::sqrt(vc::dot(area, area));
    eq(Vector3f(vc::cross(n, area) * scale), Vector3f(0, 0, 0), "normal to the triangle");
    vc_ensure(vc::dot(n, area) > 0, "right handed normal");
}
VC_HARNESS(mesh_normal)
{
    Tri t;
    normal(TriMeshModel::CreateNormal(t.a, t.b, t.c), t.n);
}
VC_HARNESS(mesh_triangle)
{
    TriMeshModel m;
    Vector3f x = point("x");
    vc_ensure(m.addVertex(x) == 0, "index of the vertex");
    vc_ensure(m.addColor(Vector4f(0.1f, 0.2f, 0.3f, 0.4f)) == 0, "index of the colour");
    eqc(m.colors[0], 0.1f, 0.2f, 0.3f, 0.4f, "colour");
    Tri t;
    int how = vc_case("how", 0, 1);
    if (how == 0) m.addTriangleWithFace(t.a, t.b, t.c);
    else
    {
        float q[4];
        for (float& i : q) i = vc_nondet_range("q", 0, 1);
        m.addTriangleWithFace(t.a, t.b, t.c, Vector4f(q[0], q[1], q[2], q[3]), Vector4f(q[1], q[2], q[3], q[0]), Vector4f(q[2], q[3], q[0], q[1]));
        eqc(m.colors[1], q[0], q[1], q[2], q[3], "colour of the first vertex");
        eqc(m.colors[2], q[1], q[2], q[3], q[0], "colour of the second vertex");
        eqc(m.colors[3], q[2], q[3], q[0], q[1], "colour of the third vertex");
    }
    vc_ensure(m.faces.size() == 1 && m.vertices.size() == 4 && m.colors.size() == 4, "one face with three vertices and colours");
    const Face& f = m.faces[0];
    vc_ensure(f.id1 == 1 && f.id2 == 2 && f.id3 == 3, "vertices of the face");
    vc_ensure(f.idColor1 == 1 && f.idColor2 == 2 && f.idColor3 == 3, "colours of the face");
    eq(m.vertices[1], t.a, "first vertex"); eq(m.vertices[2], t.b, "second vertex"); eq(m.vertices[3], t.c, "third vertex");
    normal(f.normal, t.n);
    if (!vc_symbolic()) boxed(m);
    std::vector<float> s = m.getFaceAreas();
    vc_ensure(s.size() == 1, "one area per face");
    eq(4 * s[0] * s[0], vc::dot(t.n, t.n), "area of the face");
    vc_ensure(s[0] >= 0, "area of the face");
    m.clear();
    vc_ensure(m.vertices.empty() && m.faces.empty() && m.colors.empty() && m.normals.empty() && m.boundingBox.getPoints().empty(), "cleared");
}
VC_HARNESS(mesh_given_normal)
{
    TriMeshModel m;
    Tri t;
    Vector3f n = vc::vec3("n");
    vc_assume(vc::dot(n, n) > 0.01f);
    m.addTriangleWithFace(t.a, t.b, t.c, n, Color(0, 0, 0), Color(0.5f, 0.5f, 0.5f), Color(1, 1, 1, 1));
    const Vector3f& g = m.faces[0].normal;
    eq(vc::dot(g, g), 1, "unit normal");
    eq(vc::cross(n, g), Vector3f(0, 0, 0), "the given normal");
    vc_ensure(vc::dot(n, g) > 0, "the given normal");
    eqc(m.colors[1], 0.5f, 0.5f, 0.5f, 0, "colour of the second vertex");
    TriMeshModel z;
    z.addTriangleWithFace(t.a, t.b, t.c, Vector3f(0, 0, 0));
    normal(z.faces[0].normal, t.n);
}
VC_HARNESS(mesh_merge_meshes)
{
    TriMeshModel m, o;
    Tri s, t;
    m.addTriangleWithFace(s.a, s.b, s.c);
    o.addVertex(point("unused"));
    o.addTriangleWithFace(t.a, t.b, t.c, Vector4f(0.1f, 0.2f, 0.3f, 0.4f), Vector4f(0.2f, 0.3f, 0.4f, 0.5f), Vector4f(0.3f, 0.4f, 0.5f, 0.6f));
    m.addMesh(o);
    vc_ensure(m.faces.size() == 2 && m.vertices.size() == 6, "faces of both meshes");
    const Face& f = m.faces[1];
    vc_ensure(f.id1 == 3 && f.id2 == 4 && f.id3 == 5, "vertices of the face");
    eq(m.vertices[3], t.a, "vertices of the added mesh"); eq(m.vertices[4], t.b, "vertices of the added mesh"); eq(m.vertices[5], t.c, "vertices of the added mesh");
    eq(m.vertices[0], s.a, "own vertices are kept");
    eqc(m.colors[f.idColor2], 0.2f, 0.3f, 0.4f, 0.5f, "colours of the added mesh");
    normal(f.normal, t.n);
    vc_ensure(o.faces.size() == 1 && o.vertices.size() == 4, "the other mesh is kept");
}
VC_HARNESS(mesh_box_com)
{
    TriMeshModel m;
    int n = vc_case("vertices", 0, 3);
    Vector3f s(0, 0, 0), a, b;
    for (int i = 0; i < n; i++) { Vector3f x = point("x"); s += x; vc_ensure(m.addVertex(x) == i, "index of the vertex"); }
    Vector3f c = m.getCOM();
    for (int j = 0; j < 3; j++) eq(c(j) * n, s(j), "mean of the vertices");
    bool r = m.getSize(a, b);
    vc_ensure(r == (n > 0), "size of a mesh with vertices");
    if (n)
    {
        boxed(m);
        eq(a, m.boundingBox.getMin(), "extent of the mesh");
        eq(b, m.boundingBox.getMax(), "extent of the mesh");
    }
    Vector3f x = point("x");
    x(vc_case("coordinate", 0, 2)) = NAN;
    vc_ensure(m.addVertex(x) == -1, "vertices that are not numbers are refused");
    vc_ensure((int) m.vertices.size() == n, "vertices that are not numbers are refused");
}
VC_HARNESS(mesh_scale_clone)
{
    TriMeshModel m;
    Vector3f t[3];
    for (int i = 0; i < 3; i++) { t[i] = point("t"); m.addVertex(t[i]); m.addColor(Color(0.1f * i, 0, 0)); }
    Face f;
    f.set(0, 1, 2); f.setColor(0, 1, 2);
    f.normal = Vector3f(0, 0, 1);
    m.addFace(f);
    m.addMissingNormals();
    Vector3f s;
    for (int i = 0; i < 3; i++) s(i) = vc_nondet_range("s", 0.01f, 100);
    int how = vc_case("how", 0, 2);
    TriMeshModelPtr c;
    if (how == 0) { c = m.clone(); s = Vector3f(1, 1, 1); } else c = m.clone(how == 1 ? s : Vector3f(1, 1, 1));
    if (how == 2) c->scale(s);
    for (int j = 0; j < 3; j++)
    {
        for (int i = 0; i < 3; i++) eq(c->vertices[i](j), t[i](j) * s(j), "scaled vertices");
    }
    boxed(*c);
    vc_ensure(c->faces.size() == 1 && c->colors.size() == 3 && c->normals.size() == m.normals.size() && c->faces[0].id3 == 2 && c->faces[0].idColor2 == 1, "the same faces");
    c->faces[0].id1 = 7; c->vertices[1] = Vector3f(0, 0, 0); c->colors[0].r = 7;
    vc_ensure(m.faces[0].id1 == 0, "copies are independent");
    eq(m.vertices[1], t[1], "copies are independent");
    vc_ensure(m.colors[0].r <= 1, "copies are independent");
    boxed(m);
}
VC_HARNESS(mesh_missing_normals)
{
    TriMeshModel m;
    Tri t;
    m.addVertex(t.a); m.addVertex(t.b); m.addVertex(t.c);
    int given = vc_case("given normals", 0, 7), own = vc_case("normal of the face", 0, 1);
    Vector3f g[3], n = vcr::unit("n");
    Face f;
    f.set(0, 1, 2);
    if (own) f.normal = n;
    unsigned int id[3] = {UINT_MAX, UINT_MAX, UINT_MAX};
    for (int i = 0; i < 3; i++) if (given >> i & 1) { g[i] = vcr::unit("g"); id[i] = m.addNormal(g[i]); }
    f.setNormal(id[0], id[1], id[2]);
    m.addFace(f);
    unsigned int before = m.normals.size(), added = m.addMissingNormals();
    vc_ensure(m.normals.size() == before + added, "number of created normals");
    const Face& r = m.faces[0];
    unsigned int e[3] = {r.idNormal1, r.idNormal2, r.idNormal3};
    for (int i = 0; i < 3; i++)
    {
        vc_ensure(e[i] < m.normals.size(), "no normal is missing");
        if (given >> i & 1) { vc_ensure(e[i] == id[i], "given normals are kept"); eq(m.normals[id[i]], g[i], "given normals are kept"); }
        else if (own) eq(m.normals[e[i]], n, "the normal of the face");
        else normal(m.normals[e[i]], t.n);
    }
    vc_ensure(m.addMissingNormals() == 0, "nothing left to do");
}
VC_HARNESS(mesh_flip)
{
    TriMeshModel m;
    Tri t;
    m.addTriangleWithFace(t.a, t.b, t.c, Vector4f(0.1f, 0, 0, 0), Vector4f(0.2f, 0, 0, 0), Vector4f(0.3f, 0, 0, 0));
    Vector3f n = m.faces[0].normal;
    m.flipVertexOrientations();
    const Face& f = m.faces[0];
    eq(f.normal, Vector3f(-n), "the other side");
    // the vertices turn the other way round
    Vector3f g = area(m.vertices[f.id1], m.vertices[f.id2], m.vertices[f.id3]);
    eq(g, Vector3f(-t.n), "the other side");
    // each vertex keeps its colour
    unsigned int v[3] = {f.id1, f.id2, f.id3}, c[3] = {f.idColor1, f.idColor2, f.idColor3};
    for (int i = 0; i < 3; i++) eq(m.colors[c[i]].r, 0.1f * (v[i] + 1), "vertices keep their colours");
}
// a face with the given corners, its normal (any length) to the left
static void face(TriMeshModel& m, const Vector3f& a, const Vector3f& b, const Vector3f& c)
{
    unsigned int n = m.vertices.size();
    m.vertices.push_back(a); m.vertices.push_back(b); m.vertices.push_back(c);
    Face f;
    f.set(n, n + 1, n + 2);
    f.normal = area(a, b, c);
    m.addFace(f);
}
// different points
static void corners(Vector3f* p, int n) { for (int i = 0; i < n; i++) p[i] = Vector3f(vc_nondet_range("x", 0, 100) + 200 * i, vc_nondet_float("y"), vc_nondet_float("z")); }
VC_HARNESS(mesh_orient)
{
    // two triangles with a common edge, their corners in any order
    TriMeshModel m;
    Vector3f p[4];
    corners(p, 4);
    bool wrong = vc_case("wrong", 0, 1);
    int r = vc_case("first corner", 0, 2), q = vc_case("first corner of the other", 0, 2);
    Vector3f s[3] = {p[2], p[1], p[3]};
    if (wrong) std::swap(s[0], s[1]);
    face(m, p[r], p[(r + 1) % 3], p[(r + 2) % 3]);
    face(m, s[q], s[(q + 1) % 3], s[(q + 2) % 3]);
    unsigned int n = m.checkAndCorrectNormals(false);
    vc_ensure(n == (wrong ? 1 : 0), "number of flipped faces");
    Vector3f a = area(m.vertices[m.faces[0].id1], m.vertices[m.faces[0].id2], m.vertices[m.faces[0].id3]);
    Vector3f b = area(m.vertices[m.faces[1].id1], m.vertices[m.faces[1].id2], m.vertices[m.faces[1].id3]);
    eq(a, area(p[0], p[1], p[2]), "the first face is kept");
    eq(b, area(p[2], p[1], p[3]), "the second face has the same orientation");
    eq(m.faces[0].normal, a, "normal of the first face");
    eq(m.faces[1].normal, b, "normal of the second face");
    vc_ensure(m.checkAndCorrectNormals(false) == 0, "nothing left to do");
}
VC_HARNESS(mesh_same_edge)
{
    TriMeshModel m;
    Vector3f p[6];
    corners(p, 6);
    int common = vc_case("common", 0, 3), q = vc_case("first corner of the other", 0, 2), turn = vc_case("turned", 0, 1);
    Vector3f s[3];
    for (int i = 0; i < 3; i++) s[i] = i < common ? p[i] : p[3 + i];
    if (turn) std::swap(s[0], s[2]);
    face(m, p[0], p[1], p[2]);
    face(m, s[q], s[(q + 1) % 3], s[(q + 2) % 3]);
    std::vector<std::pair<int, int> > c;
    bool r = m.checkFacesHaveSameEdge(m.faces[0], m.faces[1], c);
    vc_ensure((int) c.size() == common, "common vertices");
    vc_ensure(r == (common == 2), "a common edge");
    for (auto& x : c) eq(m.vertices[x.first - 1], m.vertices[2 + x.second], "pairs of equal vertices");
}
VC_HARNESS(mesh_unused)
{
    TriMeshModel m;
    Vector3f p[5];
    for (int i = 0; i < 5; i++) { p[i] = point("p"); m.addVertex(p[i]); }
    int a = vc_case("a", 0, 4), b = vc_case("b", 0, 4), c = vc_case("c", 0, 4);
    vc_assume(a != b && b != c && a != c);
    m.addFace(a, b, c);
    m.addFace(c, b, a);
    size_t n = m.removeUnusedVertices();
    vc_ensure(n == 2 && m.vertices.size() == 3, "unused vertices are removed");
    const Face &f = m.faces[0], &g = m.faces[1];
    eq(m.vertices.at(f.id1), p[a], "faces keep their corners"); eq(m.vertices.at(f.id2), p[b], "faces keep their corners"); eq(m.vertices.at(f.id3), p[c], "faces keep their corners");
    vc_ensure(g.id1 == f.id3 && g.id2 == f.id2 && g.id3 == f.id1, "common corners stay common");
}
VC_HARNESS(mesh_fatten)
{
    // one triangle, moved along its normal
    TriMeshModel m;
    Vector3f p = point("p"), e[3];
    Matrix3f r = vc::rot("r");
    float u = vc_nondet_range("u", 1, 100), v = vc_nondet_range("v", 1, 100), o = vc_nondet_range("offset", -100, 100);
    for (int i = 0; i < 3; i++) { e[0](i) = p(i); e[1](i) = p(i) + u * r(i, 0); e[2](i) = p(i) + v * r(i, 1); }
    for (auto& x : e) m.vertices.push_back(x);
    Face f;
    f.set(0, 1, 2);
    f.normal = r.col(2);
    m.addFace(f);
    int how = vc_case("how", 0, 2);
    if (how == 1) { m.addMissingNormals(); }
    m.fattenShrink(o, how == 2);
    for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) eq(m.vertices[k](i), e[k](i) + o * r(i, 2), "vertices are moved along the normal");
    if (how == 2)
    {
        const Face& g = m.faces[0];
        unsigned int id[3] = {g.idNormal1, g.idNormal2, g.idNormal3};
        for (unsigned int i : id) { vc_ensure(i < m.normals.size(), "normals of the vertices"); eq(m.normals[i], Vector3f(r.col(2)), "normals of the vertices"); }
    }
    if (!vc_symbolic()) boxed(m);
}
VC_HARNESS(mesh_fatten_box)
{
    TriMeshModel m;
    Vector3f e[3] = {Vector3f(0, 0, 0), Vector3f(3, 0, 0), Vector3f(0, 0, 4)};
    for (auto& x : e) m.addVertex(x);
    Face f;
    f.set(0, 1, 2);
    f.normal = Vector3f(0, -1, 0);
    m.addFace(f);
    m.fattenShrink(vc_nondet_range("offset", -100, 100));
    boxed(m);
}
VC_HARNESS(mesh_merge)
{
    // four vertices, two of them at the same place or close to each other
    TriMeshModel m;
    Vector3f p[4];
    float d = vc_nondet_range("distance", 0, 0.009f);
    for (int i = 0; i < 4; i++) p[i] = Vector3f(100 * i, vc_nondet_range("y", -100, 100), vc_nondet_range("z", -100, 100));
    int a = vc_case("a", 0, 3), b = vc_case("b", 0, 3);
    vc_assume(a < b);
    p[b] = Vector3f(p[a](0), p[a](1) + d, p[a](2));
    for (auto& x : p) m.addVertex(x);
    m.addFace(0, 1, 2); m.addFace(3, 1, 0);
    m.mergeVertices();
    vc_ensure(m.vertices.size() == 3, "close vertices are merged");
    const Face &f = m.faces[0], &g = m.faces[1];
    unsigned int id[6] = {f.id1, f.id2, f.id3, g.id1, g.id2, g.id3};
    int was[6] = {0, 1, 2, 3, 1, 0};
    for (int i = 0; i < 6; i++)
    {
        Vector3f x = m.vertices.at(id[i]), w = p[was[i]];
        eq(x(0), w(0), "corners stay where they are"); eq(x(2), w(2), "corners stay where they are");
        vc_ensure_le(x(1) - w(1), d, "corners stay where they are"); vc_ensure_le(w(1) - x(1), d, "corners stay where they are");
        for (int k = 0; k < i; k++) vc_ensure((id[i] == id[k]) == (was[i] == was[k] || (was[i] == a && was[k] == b) || (was[i] == b && was[k] == a)), "only close vertices are merged");
    }
}
VC_HARNESS(mesh_merge_three)
{
    // three of five vertices at the same place, each the corner of a face
    TriMeshModel m;
    int a = vc_case("a", 0, 2), b = vc_case("b", 1, 3), c = vc_case("c", 2, 4);
    vc_assume(vc_and(a < b, b < c));
    float z = vc_nondet_range("z", -100, 100);
    int other[2], n = 0;
    for (int i = 0; i < 5; i++)
    {
        bool same = i == a || i == b || i == c;
        m.addVertex(same ? Vector3f(50, 0, z) : Vector3f(100 * i, 1000, z));
        if (!same) other[n++] = i;
    }
    int at[3] = {a, b, c}, order = vc_case("order", 0, 2);
    for (int k = 0; k < 3; k++) { int v = at[(k + order) % 3]; if (k == 1) m.addFace(other[1], v, other[0]); else m.addFace(v, other[0], other[1]); }
    m.mergeVertices();
    vc_ensure(m.vertices.size() == 3, "vertices at the same place are merged");
    for (int k = 0; k < 3; k++)
    {
        const Face& f = m.faces[k];
        unsigned int id[3] = {f.id1, f.id2, f.id3};
        for (int i = 0; i < 3; i++)
        {
            int w = k == 1 ? (i == 1 ? -1 : i == 0 ? other[1] : other[0]) : (i == 0 ? -1 : other[i - 1]);
            Vector3f x = m.vertices.at(id[i]);
            eq(x, w < 0 ? Vector3f(50, 0, z) : Vector3f(100 * w, 1000, z), "corners stay where they are");
        }
    }
}

// collision models of a mesh
VC_MOCK("VirtualRobot::PQP::PQP_Model::EndModel")
int stub_end(void*) { return 0; }
VC_MOCK("PQP::PQP_Model::EndModel")
int stub_end2(void*) { return 0; }
struct Mesh : VisualizationNode
{
    TriMeshModelPtr t;
    TriMeshModelPtr getTriMeshModel() override { return t; }
    VisualizationNodePtr clone(bool deep, float scaling) override
    {
        boost::shared_ptr<Mesh> m(new Mesh());
        m->t = t->clone(Vector3f(scaling, scaling, scaling));
        return m;
    }
    void shrinkFatten(float o) override { if (o != 0) for (auto& v : t->vertices) v(2) += o; t->boundingBox.clear(); t->boundingBox.addPoints(t->vertices); }
};
struct Model
{
    Vector3f p[3];
    Matrix4f pose;
    boost::shared_ptr<Mesh> v;
    CollisionModelPtr c;
    Model(float margin = 0)
    {
        v.reset(new Mesh());
        v->t.reset(new TriMeshModel());
        for (auto& x : p) { x = point("p"); v->t->addVertex(x); }
        v->t->addFace(0, 1, 2);
        v->t->faces[0].normal = Vector3f(0, 0, 1);
        c.reset(new CollisionModel(v, "m", CollisionCheckerPtr(), 5, margin));
        pose = vc::pose("pose");
    }
};
// the model has the given vertices and its triangles are those tested for collisions
static void has(CollisionModelPtr c, const Vector3f* p, const Matrix4f& pose)
{
    std::vector<Vector3f> g = c->getModelVeticesGlobal();
    vc_ensure(g.size() == 3, "vertices of the model");
    for (int i = 0; i < 3; i++) eq(g[i], app(pose, p[i]), "vertices move with the model");
    eq(c->getGlobalPose(), pose, "pose");
    auto i = c->getCollisionModelImplementation();
    eq(i->getGlobalPose(), pose, "pose of the model tested for collisions");
    auto m = i->getPQPModel();
    vc_ensure(m->num_tris == 1, "triangles tested for collisions");
    for (int k = 0; k < 3; k++)
    {
        eq(m->tris[0].p1[k], p[0](k), "triangles tested for collisions"); eq(m->tris[0].p2[k], p[1](k), "triangles tested for collisions"); eq(m->tris[0].p3[k], p[2](k), "triangles tested for collisions");
    }
    vc_ensure(m->tris[0].id == 5, "id of the model");
}
VC_HARNESS(model_pose)
{
    Model m;
    has(m.c, m.p, I4());
    m.c->setGlobalPose(m.pose);
    has(m.c, m.p, m.pose);
    vc_ensure(m.c->getName() == "m" && m.c->getId() == 5 && m.c->getNumFaces() == 1, "name, id and faces");
    vc_ensure(m.c->getTriMeshModel()->faces.size() == 1, "mesh of the model");
}
VC_HARNESS(model_clone)
{
    Model m;
    m.c->setGlobalPose(m.pose);
    float s = vc_nondet_range("scaling", 0.1f, 10);
    CollisionModelPtr c = m.c->clone(CollisionCheckerPtr(), s);
    Vector3f q[3];
    for (int i = 0; i < 3; i++) q[i] = s * m.p[i];
    has(c, q, m.pose);
    Matrix4f n = vc::poseOf(Matrix3f::Identity(), vc::vec3("t"));
    c->setGlobalPose(n);
    has(c, q, n);
    has(m.c, m.p, m.pose);
}
VC_HARNESS(model_scale)
{
    Model m;
    m.c->setGlobalPose(m.pose);
    Vector3f q[3], t(1, 1, 1);
    for (int k = 0; k < 2; k++)
    {
        Vector3f s;
        for (int i = 0; i < 3; i++) { s(i) = vc_nondet_range("s", 0.1f, 10); t(i) *= s(i); }
        m.c->scale(s);
        for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) q[j](i) = m.p[j](i) * t(i);
        has(m.c, q, m.pose);
    }
}
VC_HARNESS(model_inflate)
{
    float a = vc_nondet_range("margin", 0, 10), b = vc_nondet_range("new margin", 0, 10);
    vc_assume(vc_or(a - b > 0.02f, b - a > 0.02f));
    vc_assume(a > 0.01f);
    vc_assume(b > 0.01f);
    Model m(a);
    Vector3f q[3];
    for (int i = 0; i < 3; i++) q[i] = m.p[i] + Vector3f(0, 0, a);
    has(m.c, q, I4());
    m.c->setGlobalPose(m.pose);
    m.c->inflateModel(b);
    for (int i = 0; i < 3; i++) q[i] = m.p[i] + Vector3f(0, 0, b);
    has(m.c, q, m.pose);
    eq(m.c->getMargin(), b, "margin");
    CollisionModelPtr c = m.c->clone();
    has(c, q, m.pose);
    eq(c->getMargin(), b, "margin");
}
VC_HARNESS(model_box)
{
    Model m;
    m.c->setGlobalPose(vc::poseOf(Matrix3f::Identity(), vc::vec3("t")));
    BoundingBox l = m.c->getBoundingBox(false), g = m.c->getBoundingBox();
    for (int j = 0; j < 3; j++)
    {
        float a = lo(m.p[0](j), lo(m.p[1](j), m.p[2](j))), b = hi(m.p[0](j), hi(m.p[1](j), m.p[2](j)));
        eq(l.getMin()(j), a, "local box"); eq(l.getMax()(j), b, "local box");
        float t = m.c->getGlobalPose()(j, 3);
        eq(g.getMin()(j), a + t, "global box"); eq(g.getMax()(j), b + t, "global box");
    }
}
VC_HARNESS(model_contacts)
{
    // points close to a plane
    Model m;
    m.c->setGlobalPose(vc::poseOf(Matrix3f::Identity(), vc::vec3("t")));
    MathTools::Plane f(Vector3f(0, 0, 0), Vector3f(0, 0, 1));
    float d = vc_nondet_range("distance", 0.1f, 10);
    std::vector<MathTools::ContactPoint> c;
    CollisionCheckerPtr k = m.c->getCollisionChecker();
    k->getContacts(f, m.c, c, d);
    Vector3f g[3];
    for (int i = 0; i < 3; i++) g[i] = app(m.c->getGlobalPose(), m.p[i]);
    for (auto& x : c)
    {
        vc_ensure_le(x.p(2), d, "contacts are close to the plane");
        eq(x.n, Vector3f(0, 0, 1), "normal of the plane");
        if (!vc_symbolic()) continue;
        bool found = false;
        for (int i = 0; i < 3; i++) found = vc_or(found, vc_and(x.p(0) == g[i](0), vc_and(x.p(1) == g[i](1), x.p(2) == g[i](2))));
        vc_ensure(found, "contacts are vertices of the model");
    }
    if (vc_symbolic()) for (int i = 0; i < 3; i++)
    {
        bool found = false;
        for (auto& x : c) found = vc_or(found, vc_and(x.p(0) == g[i](0), vc_and(x.p(1) == g[i](1), x.p(2) == g[i](2))));
        vc_ensure(vc_implies(vc_and(g[i](2) > -d, g[i](2) < d), found), "close vertices are contacts");
    }
}
