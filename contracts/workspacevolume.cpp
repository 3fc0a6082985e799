// VC-PROPERTY: C12
// VC-TU: %robot VirtualRobot/Workspace/WorkspaceDataArray.cpp VirtualRobot/Workspace/WorkspaceRepresentation.cpp VirtualRobot/Workspace/Reachability.cpp VirtualRobot/Grasping/Grasp.cpp VirtualRobot/Grasping/GraspSet.cpp VirtualRobot/ManipulationObject.cpp VirtualRobot/Obstacle.cpp VirtualRobot/Random.cpp
// VC-BOUNDED: vol_volume: grids of 3 x 3 x 4 positions, all voxels filled, or all but one, or one only
// VC-BOUNDED: vol_fill_holes: grids with one inner voxel, up to four neighbours filled with given entries
// VC-BOUNDED: vol_extends: seven orientations of the base
// VC-BOUNDED: vol_cut: a grid of 2 x 1 x 2 positions with two orientations, two sizes of cells
// VC-FLAGS: -fno-access-control
// VC-ASSUME: any encoding of the orientation of a pose by three numbers (the encodings are the subject of workspaceposes.cpp)
// Voxelised workspaces: frames, sums, volumes, holes, cuts, copies, reachable grasps
#include "ws.h"

static float rnd[4];
static int drawn;
VC_STUB("VirtualRobot::RandomFloat()")
float stub_RandomFloat() { return rnd[drawn++]; }

static float decoded[6];
VC_MOCK("VirtualRobot::WorkspaceRepresentation::vector2Matrix(float const*, Eigen::Matrix<float, 4, 4, 0, 4, 4>&) const")
void stub_vector2Matrix(const WorkspaceRepresentation*, const float* x, Matrix4f& m)
{
    for (int i = 0; i < 6; i++) decoded[i] = x[i];
    m = I4();
    m(0, 0) = 0; m(1, 0) = 1; m(0, 1) = -1; m(1, 1) = 0;
    for (int i = 0; i < 3; i++) m(i, 3) = x[i];
}

VC_HARNESS(vol_frames)
{
    Base b;
    Matrix4f G = vc::pose("G"), P = vc::pose("P");
    Vector3f v = vc::vec3("v");
    b.base->globalPose = G;
    WorkspaceRepresentation w(b.r);
    Matrix4f m = P;
    w.toLocal(m);
    eq(m, P, "without a base node the frame is the global one");
    w.toGlobal(m);
    eq(m, P, "without a base node the frame is the global one");
    w.baseNode = b.base;
    w.toLocal(m);
    eq(m, mul(vc::rinv(G), P), "pose in the frame of the base node");
    w.toGlobal(m);
    eq(m, P, "local and global poses");
    w.toGlobal(m);
    eq(m, mul(G, P), "global pose");
    Vector3f u = v;
    w.toGlobalVec(u);
    eq(u, vc::app(G, v), "global position");
    u = v;
    w.toLocalVec(u);
    eq(u, vc::app(vc::rinv(G), v), "position in the frame of the base node");
}
VC_HARNESS(vol_sums)
{
    WS s(2, 1, 1, 2, 1, 2);
    uc e[2][2][2];
    int max[2] = {0, 0}, sum[2] = {0, 0};
    for (unsigned a = 0; a < 2; a++) for (unsigned d = 0; d < 2; d++) for (unsigned f = 0; f < 2; f++)
    {
        e[a][d][f] = vc_nondet_byte("e");
        if (a == 1) e[a][d][f] = d == 0 && f == 1 ? 7 : 0;
        unsigned v[6] = {a, 0, 0, d, 0, f};
        s.w->setVoxelEntry(v, e[a][d][f]);
        max[a] = e[a][d][f] > max[a] ? e[a][d][f] : max[a];
        sum[a] += e[a][d][f];
    }
    for (int a = 0; a < 2; a++)
    {
        vc_ensure(s.w->sumAngleReachabilities(a, 0, 0) == sum[a], "sum of the entries of a position");
        vc_ensure(s.w->avgAngleReachabilities(a, 0, 0) == sum[a] / 4, "average of the entries of a position");
        vc_ensure(s.w->getMaxEntry(a, 0, 0) == max[a], "highest entry of a position");
        vc_ensure(vc_implies(sum[a] > 0, s.w->hasEntry(a, 0, 0)), "a position has entries");
    }
    vc_ensure(s.w->getMaxSummedAngleReachablity() == (sum[0] > sum[1] ? sum[0] : sum[1]), "highest sum");
    vc_ensure(s.w->getMaxEntry() == (max[0] > max[1] ? max[0] : max[1]), "highest entry");
}
VC_HARNESS(vol_volume)
{
    WS s(3, 3, 4, 1, 1, 1);
    // all filled, all but one, or only one
    int how = vc_case("how", 0, 2), m[3] = {0, 0, 0};
    if (how)
    {
        int axis = vc_case("axis", 0, 2);
        for (int i = 0; i < 3; i++) m[i] = i == axis ? vc_case("m", 0, s.n[i] - 1) : 1;
    }
    bool in[3][3][4];
    uc e = 5;
    unsigned filled = 0, border = 0;
    for (unsigned a = 0; a < 3; a++) for (unsigned b = 0; b < 3; b++) for (unsigned c = 0; c < 4; c++)
    {
        bool it = int(a) == m[0] && int(b) == m[1] && int(c) == m[2];
        in[a][b][c] = how == 0 || it == (how == 2);
        unsigned v[6] = {a, b, c, 0, 0, 0};
        if (in[a][b][c]) s.w->setVoxelEntry(v, e);
    }
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 4; c++) if (in[a][b][c])
    {
        filled++;
        border += a == 0 || b == 0 || c == 0 || a == 2 || b == 2 || c == 3 || !in[a - 1][b][c] || !in[a + 1][b][c] || !in[a][b - 1][c] || !in[a][b + 1][c] || !in[a][b][c - 1] || !in[a][b][c + 1];
    }
    WorkspaceRepresentation::VolumeInfo i = s.w->computeVolumeInformation();
    vc_ensure(i.voxelCount3D == 36 && i.filledVoxelCount3D == filled && i.borderVoxelCount3D == border, "number of voxels");
    if (how && m[0] != 1) return;
    double v = double(s.voxel(0)) * s.voxel(1) * s.voxel(2) * 1e-9;
    eq(i.volumeVoxel3D * 1e6, v * 1e6, "volume of a voxel");
    eq(i.volumeFilledVoxels3D * 1e6, v * filled * 1e6, "volume of the filled voxels");
    eq(i.volume3D * 1e6, v * (filled - 0.5 * border) * 1e6, "volume");
}
// entries of four of the twelve neighbours of the only inner voxel
static void holes(int p, int q, const uc* e, int sets, int min, bool already)
{
    WS s(3, 3, 3, 3, 3, 3);
    int count = 0, sum = 0;
    for (int k = 0; k < 4; k++)
    {
        unsigned v[6] = {1, 1, 1, 1, 1, 1};
        v[k < 2 ? p : q] = k % 2 ? 2 : 0;
        if (sets >> k & 1) { s.w->setVoxelEntry(v, e[k]); count++; sum += e[k]; }
    }
    unsigned c[6] = {1, 1, 1, 1, 1, 1};
    if (already) s.w->setVoxelEntry(c, 3);
    bool fill = !already && count > 0 && count >= min;
    vc_ensure(s.w->fillHoles(min) == (fill ? 1 : 0), "number of voxels filled");
    vc_ensure(s.w->getVoxelEntry(1, 1, 1, 1, 1, 1) == (already ? 3 : fill ? sum / count : 0), "a hole gets the average of its neighbours");
    vc_ensure(int(s.w->getData()->getVoxelFilledCount()) == count + (fill || already ? 1 : 0), "nothing else is changed");
}
VC_HARNESS(vol_fill_holes)
{
    int p = vc_case("p", 0, 5);
    uc e[4] = {1, 4, 90, 255};
    holes(p, (p + 1) % 6, e, p == 0 ? vc_case("set", 0, 15) : vc_case("set", 0, 1) ? 15 : 6, p == 0 ? vc_case("min", 2, 3) : 2, false);
}
VC_HARNESS(vol_fill_holes_entries)
{
    uc e[4];
    for (int k = 0; k < 4; k++) { e[k] = vc_nondet_byte("e"); vc_assume(e[k] > 0); }
    holes(0, 5, e, vc_case("set", 0, 1) ? 15 : 7, vc_case("min", 0, 1), vc_case("already", 0, 1));
}
VC_HARNESS(vol_fill_holes_chain)
{
    // two holes next to each other: a hole filled just now does not fill the next one
    int axis = vc_case("axis", 0, 5);
    WS s(axis == 0 ? 4 : 3, axis == 1 ? 4 : 3, axis == 2 ? 4 : 3, axis == 3 ? 4 : 3, axis == 4 ? 4 : 3, axis == 5 ? 4 : 3);
    unsigned v[6] = {1, 1, 1, 1, 1, 1};
    v[axis] = 0;
    int two = vc_case("two", 0, 1);
    s.w->setVoxelEntry(v, 8);
    v[axis] = 3;
    if (two) s.w->setVoxelEntry(v, 20);
    vc_ensure(s.w->fillHoles(1) == 1 + two, "number of voxels filled");
    v[axis] = 1; vc_ensure(s.entry(v) == 8, "the hole next to the entry");
    v[axis] = 2; vc_ensure(s.entry(v) == (two ? 20 : 0), "the hole next to a hole");
    vc_ensure(int(s.w->getData()->getVoxelFilledCount()) == 2 + 2 * two, "nothing else is changed");
}
VC_HARNESS(vol_extends)
{
    WS s(1, 2, 1, 1, 1, 1);
    Matrix4f G = I4();
    int k = vc_case("rotation", 0, 6);
    float c = k == 0 ? 1 : k == 1 ? 0 : k == 2 ? 0.6f : -0.6f, n = k == 0 ? 0 : k == 1 ? -1 : 0.8f;
    G(0, 0) = c; G(1, 0) = n; G(0, 1) = -n; G(1, 1) = c;
    if (k == 4) { G(0, 0) = 1; G(1, 0) = 0; G(0, 1) = 0; G(1, 1) = -1; G(2, 2) = -1; }
    if (k > 4)
    {
        // tilted
        int a = k - 5;
        G(0, 0) = 1; G(1, 0) = 0; G(0, 1) = 0; G(1, 1) = 1;
        G(a, a) = 0.6f; G(2, 2) = 0.6f; G(a, 2) = -0.8f; G(2, a) = 0.8f;
    }
    Vector3f t = vc::vec3("t");
    for (int i = 0; i < 3; i++) G(i, 3) = t(i);
    s.base->globalPose = G;
    Vector3f lo, hi;
    vc_ensure(s.w->getWorkspaceExtends(lo, hi), "extents");
    for (int d = 0; d < 3; d++)
    {
        // the extreme corners
        Vector3f a, b;
        for (int i = 0; i < 3; i++) { a(i) = G(d, i) < 0 ? s.hi[i] : s.lo[i]; b(i) = G(d, i) < 0 ? s.lo[i] : s.hi[i]; }
        eq(lo(d), vc::app(G, a)(d), "lower extent");
        eq(hi(d), vc::app(G, b)(d), "upper extent");
    }
    MathTools::OOBB o = s.w->getOOBB();
    eq(o.minBB, Vector3f(s.lo[0], s.lo[1], s.lo[2]), "oriented box");
    eq(o.maxBB, Vector3f(s.hi[0], s.hi[1], s.hi[2]), "oriented box");
    eq(o.pose, G, "oriented box");
    for (int i = 0; i < 3; i++) { s.w->achievedMinValues[i] = s.lo[i] + 1 + i; s.w->achievedMaxValues[i] = s.hi[i] - 1 - i; }
    o = s.w->getOOBB(true);
    eq(o.minBB, Vector3f(s.lo[0] + 1, s.lo[1] + 2, s.lo[2] + 3), "oriented box of the achieved positions");
    eq(o.maxBB, Vector3f(s.hi[0] - 1, s.hi[1] - 2, s.hi[2] - 3), "oriented box of the achieved positions");
    eq(o.pose, G, "oriented box");
}
VC_HARNESS(vol_cut)
{
    Poses s(2, 1, 2, 2, 1, 1);
    uc e[8];
    for (int k = 0; k < 8; k++) { s.at(k); e[k] = vc_nondet_byte("e"); s.w->setVoxelEntry(s.v, e[k]); }
    int at = vc_case("at", 0, 3) * 2;
    Matrix4f g = s.at(at);
    float cell = vc_case("cell", 0, 1) ? 75 : 50;          // 2x0 cells or 3x1 cells
    bool sum = vc_case("sum", 0, 1);
    WorkspaceRepresentation::WorkspaceCut2DPtr c = s.w->createCut(g, cell, sum);
    eq(c->referenceGlobalPose, g, "reference pose");
    for (int i = 0; i < 2; i++)
    {
        eq(c->minBounds[i], s.base->getGlobalPose()(i, 3) + s.lo[i], "bounds of a cut");
        eq(c->maxBounds[i], s.base->getGlobalPose()(i, 3) + s.hi[i], "bounds of a cut");
    }
    int nx = cell > 60 ? 2 : 3, ny = cell > 60 ? 0 : 1;
    if (!vc_symbolic() && (c->entries.rows() != nx || c->entries.cols() != ny)) return;
    vc_ensure(c->entries.rows() == nx && c->entries.cols() == ny, "cells of a cut");
    for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++)
    {
        if (a == 1) continue;                               // the boundary of two voxels
        int i = a == 0 ? 0 : 1;
        int k = i + (at & ~1);
        int other = k < 4 ? k + 4 : k - 4;                  // the other orientation at this position
        vc_ensure(c->entries(a, b) == (sum ? e[k] + e[other] : e[k]), "entries of a cut");
    }
}
VC_HARNESS(vol_cut_height)
{
    WS s(1, 1, 2, 1, 1, 1);
    for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) angles[i][k] = s.lo[3 + k] + vc_nondet_range("f", 0.01f, 0.99f) * s.voxel(3 + k);
    uc e[2];
    for (unsigned c = 0; c < 2; c++) { unsigned v[6] = {0, 0, c, 0, 0, 0}; e[c] = vc_nondet_byte("e"); s.w->setVoxelEntry(v, e[c]); }
    float h = vc_case("h", 0, 1) ? 0.75f : 0.25f;
    WorkspaceRepresentation::WorkspaceCut2DPtr c = s.w->createCut(h, 40, false);
    eq(c->referenceGlobalPose(2, 3), s.base->getGlobalPose()(2, 3) + s.lo[2] + h * s.size[2], "height of a cut");
    vc_ensure(c->entries.rows() == 1 && c->entries.cols() == 1, "cells of a cut");
    vc_ensure(c->entries(0, 0) == (h > 0.5f ? e[1] : e[0]), "entries of a cut");
}
VC_HARNESS(vol_cut_transformations)
{
    WS s(1, 1, 1, 1, 1, 1);
    WorkspaceRepresentation::WorkspaceCut2DPtr c(new WorkspaceRepresentation::WorkspaceCut2D());
    Matrix4f G = vc::pose("G"), B = vc::pose("B");
    c->referenceGlobalPose = G;
    c->entries.resize(3, 2);
    for (int i = 0; i < 2; i++) { c->minBounds[i] = vc_nondet_float("min"); c->maxBounds[i] = c->minBounds[i] + (i ? 20 : 60); }
    int n = 0;
    for (int a = 0; a < 3; a++) for (int b = 0; b < 2; b++) { c->entries(a, b) = vc_case("v", 0, 1) ? 10 * a + b + 1 : 0; n += c->entries(a, b) > 0; }
    s.base->globalPose = B;
    int how = vc_case("how", 0, 1);
    std::vector<WorkspaceRepresentation::WorkspaceCut2DTransformationPtr> r = s.w->createCutTransformations(c, how ? s.base : RobotNodePtr());
    vc_ensure(int(r.size()) == n, "one transformation per filled cell");
    int k = 0;
    for (int a = 0; a < 3; a++) for (int b = 0; b < 2; b++) if (c->entries(a, b) > 0)
    {
        vc_ensure(r[k]->value == 10 * a + b + 1, "entry of the cell");
        Matrix4f m = G;
        m(0, 3) = c->minBounds[0] + 20 * (a + 0.5f);
        m(1, 3) = c->minBounds[1] + 10 * (b + 0.5f);
        eq(r[k]->transformation, how ? mul(vc::rinv(B), m) : m, "centre of the cell in the reference frame");
        k++;
    }
}
VC_HARNESS(vol_clone)
{
    int reach = vc_case("reach", 0, 1);
    WS s(2, 1, 1, 1, 1, 2, reach);
    uc e = vc_nondet_byte("e");
    unsigned v[6] = {1, 0, 0, 0, 0, 1};
    s.w->setVoxelEntry(v, e);
    for (int i = 0; i < 6; i++) { s.w->achievedMinValues[i] = vc_nondet_float("a"); s.w->achievedMaxValues[i] = vc_nondet_float("b"); }
    s.w->buildUpLoops = 12; s.w->collisionConfigs = 3;
    s.w->orientationType = WorkspaceRepresentation::RPY;
    WorkspaceRepresentationPtr c = s.w->clone();
    vc_ensure(c != s.w && c->getData() != s.w->getData(), "another object");
    vc_ensure(bool(boost::dynamic_pointer_cast<Reachability>(c)) == bool(reach), "of the same type");
    vc_ensure(c->buildUpLoops == 12 && c->collisionConfigs == 3 && c->orientationType == WorkspaceRepresentation::RPY && c->type == s.w->type, "properties");
    vc_ensure(c->versionMajor == s.w->versionMajor && c->versionMinor == s.w->versionMinor, "properties");
    vc_ensure(c->getBaseNode() == s.base && c->getTCP() == s.tcp && c->getNodeSet() == s.set && c->getRobot() == s.r, "nodes");
    vc_ensure(c->getAdjustOnOverflow() == s.w->getAdjustOnOverflow(), "properties");
    eq(c->getDiscretizeParameterTranslation(), 100, "discretisation");
    eq(c->getDiscretizeParameterRotation(), 2, "discretisation");
    for (int i = 0; i < 6; i++)
    {
        vc_ensure(c->getNumVoxels(i) == s.n[i], "number of voxels");
        eq(c->getMinBound(i), s.lo[i], "bounds"); eq(c->getMaxBound(i), s.hi[i], "bounds"); eq(c->getVoxelSize(i), s.voxel(i), "size of a voxel");
        eq(c->achievedMinValues[i], s.w->achievedMinValues[i], "achieved"); eq(c->achievedMaxValues[i], s.w->achievedMaxValues[i], "achieved");
    }
    vc_ensure(c->getMaxEntry() == e && c->getVoxelEntry(1, 0, 0, 0, 0, 1) == e && c->getVoxelEntry(0, 0, 0, 0, 0, 0) == 0, "entries");
    unsigned o[6] = {0, 0, 0, 0, 0, 0};
    int who = vc_case("who", 0, 1);
    (who ? c : s.w)->setVoxelEntry(o, 9);
    (who ? c : s.w)->setVoxelEntry(v, 0);
    vc_ensure((who ? s.w : c)->getVoxelEntry(1, 0, 0, 0, 0, 1) == e && (who ? s.w : c)->getVoxelEntry(0, 0, 0, 0, 0, 0) == 0, "changes to one do not reach the other");
}
VC_HARNESS(vol_reachable)
{
    Poses s(2, 1, 1, 1, 1, 1, true);
    boost::shared_ptr<Reachability> w = boost::dynamic_pointer_cast<Reachability>(s.w);
    Matrix4f g = s.at(vc_case("voxel", 0, 1));
    uc e = vc_nondet_byte("e");
    s.w->setVoxelEntry(s.v, e);
    vc_ensure(w->isReachable(g) == (e > 0), "a pose is reachable if its voxel has an entry");
    Matrix4f O = tr(vc::vec3("O"));
    O(0, 0) = 0; O(1, 0) = 1; O(0, 1) = -1; O(1, 1) = 0;
    // the grasps' poses of the tool are g and some pose far away
    ManipulationObjectPtr o(new ManipulationObject("o"));
    o->setGlobalPose(O);
    Matrix4f far = g;
    far(0, 3) += 1000;
    GraspSetPtr set(new GraspSet("s", "r", "hand"));
    bool first = vc_case("order", 0, 1);
    GraspPtr a(new Grasp("a", "r", "hand", mul(vc::rinv(first ? g : far), O))), b(new Grasp("b", "r", "hand", mul(vc::rinv(first ? far : g), O)));
    set->addGrasp(a); set->addGrasp(b);
    GraspSetPtr r = w->getReachableGrasps(set, o);
    vc_ensure(r->getName() == "s" && r->getRobotType() == "r" && r->getEndEffector() == "hand", "a grasp set of the same hand");
    vc_ensure(r->getSize() == (e > 0 ? 1u : 0u), "the reachable grasps");
    if (e > 0) vc_ensure(r->getGrasp(0) == (first ? a : b), "the reachable grasps");
    vc_ensure(set->getSize() == 2, "the grasps given stay");
}
VC_HARNESS(vol_random_configuration)
{
    RobotPtr r = robot();
    RobotNodePtr root = fixed(r, "root", I4());
    float lo[3], hi[3];
    RobotNodePtr j[3];
    for (int i = 0; i < 3; i++)
    {
        lo[i] = vc_nondet_range("lo", -3, 3); hi[i] = lo[i] + vc_nondet_range("size", 0, 2);
        const char* n[3] = {"a", "b", "c"};
        j[i] = i == 1 ? pris(r, n[i], I4(), Vector3f(0, 0, 1), lo[i], hi[i]) : rev(r, n[i], I4(), Vector3f(0, 0, 1), lo[i], hi[i]);
        (i ? j[i - 1] : root)->attachChild(j[i]);
    }
    r->setRootNode(root);
    std::vector<RobotNodePtr> n(j, j + 2);
    RobotNodeSetPtr set = RobotNodeSet::createRobotNodeSet(r, "set", n, root, j[2]);
    WorkspaceRepresentation w(r);
    vc_ensure(!w.setRobotNodesToRandomConfig(RobotNodeSetPtr(), false), "no joints given");
    int how = vc_case("how", 0, 1);
    if (how) w.nodeSet = set;
    drawn = 0;
    for (int i = 0; i < 4; i++) rnd[i] = vc_nondet_range("rnd", 0, 1);
    float before = j[2]->getJointValue();
    vc_ensure(w.setRobotNodesToRandomConfig(how ? RobotNodeSetPtr() : set, how), "a configuration has been set");
    for (int i = 0; i < 2; i++)
    {
        vc_ensure_le(lo[i], j[i]->getJointValue(), "within the limits");
        vc_ensure_le(j[i]->getJointValue(), hi[i], "within the limits");
        if (vc_symbolic()) eq(j[i]->getJointValue(), lo[i] + rnd[i] * (hi[i] - lo[i]), "all values within the limits can occur");
    }
    eq(j[2]->getJointValue(), before, "other joints stay");
}
// poses of voxels: the centre, in the global frame unless asked otherwise
VC_HARNESS(vol_pose_of_voxel)
{
    WS s(2, 1, 3, 1, 2, 2);
    Matrix4f B = vc::pose("B");
    s.base->globalPose = B;
    unsigned v[6];
    for (int i = 0; i < 6; i++) v[i] = vc_case("v", 0, s.n[i] - 1);
    bool global = vc_case("global", 0, 1);
    Matrix4f m = s.w->getPoseFromVoxel(v, global), e;
    for (int i = 0; i < 6; i++) eq(decoded[i], s.lo[i] + (v[i] + 0.5f) * s.voxel(i), "centre of the voxel");
    float x[6];
    for (int i = 0; i < 6; i++) x[i] = decoded[i];
    stub_vector2Matrix(0, x, e);
    eq(m, global ? mul(B, e) : e, "pose in the frame asked for");
}
VC_HARNESS(vol_sample)
{
    // all poses returned are covered ones: all voxels of the workspace are
    WS s(2, 1, 1, 1, 1, 2);
    Matrix4f B = vc::pose("B"), e;
    s.base->globalPose = B;
    for (unsigned a = 0; a < 2; a++) for (unsigned f = 0; f < 2; f++) { unsigned v[6] = {a, 0, 0, 0, 0, f}; s.w->setVoxelEntry(v, 3); }
    Matrix4f m = s.w->sampleCoveredPose();
    for (int i = 0; i < 6; i++)
    {
        bool first = vc_eq(decoded[i], s.lo[i] + 0.5f * s.voxel(i));
        vc_ensure(s.n[i] == 1 ? first : vc_or(first, vc_eq(decoded[i], s.lo[i] + 1.5f * s.voxel(i))), "centre of a covered voxel");
    }
    float x[6];
    for (int i = 0; i < 6; i++) x[i] = decoded[i];
    stub_vector2Matrix(0, x, e);
    eq(m, mul(B, e), "global pose");
}
