// VC-PROPERTY: C12
// VC-TU: %robot VirtualRobot/Workspace/WorkspaceDataArray.cpp VirtualRobot/Workspace/WorkspaceRepresentation.cpp VirtualRobot/Workspace/Reachability.cpp VirtualRobot/Grasping/Grasp.cpp VirtualRobot/Grasping/GraspSet.cpp VirtualRobot/ManipulationObject.cpp VirtualRobot/Obstacle.cpp
// VC-FLAGS: -fno-access-control
// VC-ASSUME: any encoding of the orientation of a pose by three numbers (the encodings are the subject of workspaceposes.cpp)
// Voxelised workspaces: poses, voxels and entries belong together
#include "ws.h"

VC_HARNESS(ws_initialize)
{
    WS s(2, 1, 3, 1, 2, 2);
    for (int i = 0; i < 6; i++)
    {
        vc_ensure(s.w->getNumVoxels(i) == s.n[i], "number of voxels");
        eq(s.w->getMinBound(i), s.lo[i], "lower bound");
        eq(s.w->getMaxBound(i), s.hi[i], "upper bound");
        eq(s.w->getVoxelSize(i), s.voxel(i), "size of a voxel");
    }
    vc_ensure(s.w->getVoxelSize(-1) == 0 && s.w->getVoxelSize(6) == 0, "no other dimensions");
    vc_ensure(s.w->getBaseNode() == s.base && s.w->getTCP() == s.tcp && s.w->getNodeSet() == s.set, "nodes of the workspace");
    vc_ensure(s.w->getTcp() == s.tcp && s.w->getRobot() == s.r && s.w->getAdjustOnOverflow(), "nodes of the workspace");
    eq(s.w->getDiscretizeParameterTranslation(), 100, "discretisation");
    eq(s.w->getDiscretizeParameterRotation(), 2, "discretisation");
    vc_ensure(s.w->getMaxEntry() == 0 && s.w->getMaxSummedAngleReachablity() == 0, "a new workspace is empty");
    vc_ensure(s.w->getVoxelEntry(0, 0, 0, 0, 0, 0) == 0 && !s.w->hasEntry(1, 0, 2), "a new workspace is empty");
    vc_ensure(s.w->getVoxelEntry(2, 0, 0, 0, 0, 0) == 0 && s.w->getVoxelEntry(0, 0, 0, 0, 0, 2) == 0, "no entries outside");
    vc_cover("initialized");
}
VC_HARNESS(ws_initialize_refused)
{
    Base b;
    WorkspaceRepresentation w(b.r);
    vc_ensure(w.getMaxEntry() == 0, "no data");
    float lo[6] = {0, 0, 0, 0, 0, 0}, hi[6] = {1, 1, 1, 1, 1, 1};
    int c = vc_case("what", 0, 4);
    float t = 100, q = 1;
    if (c == 0) { t = vc_nondet_float("t"); vc_assume(t <= 0); }
    if (c == 1) { q = vc_nondet_float("q"); vc_assume(q <= 0); }
    if (c == 2) { int i = vc_case("i", 0, 5); lo[i] = vc_nondet_float("lo"); vc_assume(lo[i] >= hi[i]); }
    RobotNodeSetPtr set = b.set;
    if (c == 3) set.reset();
    RobotNodePtr base = b.base;
    if (c == 4) base = b.j;
    bool thrown = false;
    try { w.initialize(set, t, q, lo, hi, SceneObjectSetPtr(), SceneObjectSetPtr(), base); }
    catch (VirtualRobotException&) { thrown = true; }
    vc_ensure(thrown, "invalid parameters are refused");
    vc_ensure(w.getMaxEntry() == 0 && !w.getData(), "no data");
}
// the voxel a pose lies in; poses less than half a voxel beyond the bounds belong to the outermost voxels
static bool inside(float p, int n) { return p > -0.5f && p < n + 0.5f; }
VC_HARNESS(ws_voxel_of_pose)
{
    WS s(2, 1, 3, 1, 2, 3);
    int dim = vc_case("dim", 0, 5);
    float x[6], p[6];
    for (int i = 0; i < 6; i++)
    {
        p[i] = i == dim ? vc_nondet_range("p", -3, 6) : vc_nondet_range("p", 0, 0.99f);
        x[i] = s.lo[i] + p[i] * s.voxel(i);
    }
    unsigned v[6];
    bool ok = s.w->getVoxelFromPose(x, v);
    if (!vc_symbolic() && std::abs(p[dim] * 2 - std::floor(p[dim] * 2 + 0.5f)) < 1e-3f) return;
    vc_ensure(ok == inside(p[dim], s.n[dim]), "a pose is covered exactly if it is within the bounds");
    if (ok) for (int i = 0; i < 6; i++)
    {
        vc_ensure(int(v[i]) >= 0 && int(v[i]) < s.n[i], "a voxel of the workspace");
        if (p[i] >= 0 && p[i] < s.n[i]) vc_ensure(vc_and(v[i] <= p[i], p[i] < int(v[i]) + 1), "the voxel contains the pose");
        else vc_ensure(v[i] == (p[i] < 0 ? 0u : unsigned(s.n[i] - 1)), "the nearest voxel");
    }
}
VC_HARNESS(ws_voxel_of_position)
{
    WS s(2, 1, 3, 1, 1, 1);
    int dim = vc_case("dim", 0, 2);
    float x[3], p[3];
    for (int i = 0; i < 3; i++)
    {
        p[i] = i == dim ? vc_nondet_range("p", -3, 6) : vc_nondet_range("p", 0, 0.99f);
        x[i] = s.lo[i] + p[i] * s.voxel(i);
    }
    unsigned v[3];
    bool ok = s.w->getVoxelFromPosition(x, v);
    if (!vc_symbolic() && std::abs(p[dim] - std::floor(p[dim] + 0.5f)) < 1e-3f) return;
    vc_ensure(ok == (p[dim] >= 0 && p[dim] < s.n[dim]), "a position is covered exactly if it is within the bounds");
    if (ok) for (int i = 0; i < 3; i++)
    {
        vc_ensure(int(v[i]) < s.n[i], "a voxel of the workspace");
        vc_ensure(vc_and(v[i] <= p[i], p[i] < int(v[i]) + 1), "the voxel contains the position");
    }
}
VC_HARNESS(ws_center_of_voxel)
{
    WS s(2, 1, 3, 1, 2, 2);
    unsigned v[6], back[6];
    for (int i = 0; i < 6; i++) v[i] = vc_case("v", 0, s.n[i] - 1);
    float x[6];
    vc_ensure(const_cast<const WorkspaceRepresentation&>(*s.w).getPoseFromVoxel(v, x), "a voxel of the workspace");
    for (int i = 0; i < 6; i++) eq(x[i], s.lo[i] + (v[i] + 0.5f) * s.voxel(i), "centre of a voxel");
    vc_ensure(s.w->getVoxelFromPose(x, back), "the centre of a voxel is inside of the workspace");
    for (int i = 0; i < 6; i++) vc_ensure(back[i] == v[i], "the centre of a voxel is inside of it");
    int i = vc_case("i", 0, 5);
    v[i] = s.n[i];
    vc_ensure(!const_cast<const WorkspaceRepresentation&>(*s.w).getPoseFromVoxel(v, x), "no voxel of the workspace");
}
VC_HARNESS(ws_entries)
{
    Poses s(2, 1, 2, 1, 2, 1);
    Matrix4f g = s.at(vc_case("voxel", 0, 7));
    unsigned v[6];
    vc_ensure(s.w->getVoxelFromPose(g, v), "a pose within the bounds");
    for (int i = 0; i < 6; i++) vc_ensure(v[i] == s.v[i], "the voxel of a pose");
    unsigned q[3];
    vc_ensure(s.w->getVoxelFromPosition(g, q), "a position within the bounds");
    for (int i = 0; i < 3; i++) vc_ensure(q[i] == s.v[i], "the voxel of a position");
    vc_ensure(s.w->getEntry(g) == 0 && !s.w->isCovered(g) && !s.w->isCovered(v), "nothing covered");
    uc e = vc_nondet_byte("e");
    int how = vc_case("how", 0, 1);
    if (how == 0) s.w->setEntry(g, e); else s.w->setVoxelEntry(v, e);
    Matrix4f g2 = s.here(1);                  // another pose of the same voxel
    vc_ensure(s.w->getEntry(g) == e && s.w->getEntry(g2) == e, "one entry for all poses of a voxel");
    vc_ensure(s.w->isCovered(g) == (e > 0) && s.w->isCovered(v) == (e > 0), "a pose is covered if its voxel has an entry");
    for (unsigned a = 0; a < 2; a++) for (unsigned b = 0; b < 2; b++) for (unsigned c = 0; c < 2; c++)
        vc_ensure(s.w->getVoxelEntry(a, 0, b, 0, c, 0) == (a == v[0] && b == v[2] && c == v[4] ? e : 0), "no other voxel has an entry");
    vc_ensure(s.w->getMaxEntry() == e, "highest entry");
    vc_ensure(s.w->getMaxEntry(v[0], v[1], v[2]) == e && s.w->sumAngleReachabilities(v[0], v[1], v[2]) == e, "entries of a position");
    vc_ensure(s.w->getMaxEntry(vc::app(g, Vector3f(0, 0, 0))) == e, "highest entry of a position");
    Vector3f far = vc::app(g, Vector3f(0, 0, 0));
    far(0) += 1000;
    vc_ensure(s.w->getMaxEntry(far) == 0, "no entry outside of the bounds");
    s.w->clear();
    vc_ensure(s.w->getEntry(g) == 0 && s.w->getMaxEntry() == 0 && s.w->buildUpLoops == 0, "cleared");
}
VC_HARNESS(ws_outside)
{
    Poses s(2, 1, 2, 1, 2, 1);
    Matrix4f g = s.at(0);
    int d = vc_case("dim", 0, 2);
    float off = vc_nondet_float("off");
    vc_assume(vc_or(off <= -2 * s.voxel(d), off >= 3 * s.voxel(d)));
    if (!vc_symbolic() && std::abs(off) < 400) return;
    g(d, 3) += off;
    unsigned v[6];
    vc_ensure(!s.w->getVoxelFromPose(g, v) && !s.w->getVoxelFromPosition(g, v), "no voxel outside of the bounds");
    s.w->setEntry(g, 5);
    s.w->addPose(g);
    vc_ensure(s.w->getEntry(g) == 0 && !s.w->isCovered(g) && s.w->getMaxEntry() == 0, "poses outside of the bounds are ignored");
    vc_ensure(s.w->getData()->getVoxelFilledCount() == 0, "poses outside of the bounds are ignored");
    eq(s.w->achievedMinValues[d], s.x[d] + off, "but recorded as achieved");
    eq(s.w->achievedMaxValues[d], s.x[d] + off, "but recorded as achieved");
}
VC_HARNESS(ws_add_poses)
{
    Poses s(2, 1, 2, 1, 2, 1);
    Matrix4f g = s.at(vc_case("voxel", 0, 7));
    float x[6];
    unsigned v[6];
    for (int i = 0; i < 6; i++) { x[i] = s.x[i]; v[i] = s.v[i]; }
    uc e = vc_nondet_byte("e");
    s.w->setVoxelEntry(v, e);
    s.w->addPose(g);
    int expected = e == 255 ? 127 : e + 1;
    vc_ensure(s.w->getEntry(g) == expected, "one more in this voxel");
    vc_ensure(s.w->getMaxEntry() == expected, "highest entry");
    vc_ensure(s.w->buildUpLoops == 2, "number of poses");
    for (int i = 0; i < 6; i++) { eq(s.w->achievedMinValues[i], x[i], "values achieved"); eq(s.w->achievedMaxValues[i], x[i], "values achieved"); }
    vc_ensure(s.w->getData()->getVoxelFilledCount() == 1, "number of voxels with entries");
}
VC_HARNESS(ws_add_poses_again)
{
    // two poses of one voxel
    Poses s(1, 2, 1, 1, 1, 1);
    Matrix4f g = s.at(vc_case("voxel", 0, 1));
    float x[6];
    for (int i = 0; i < 6; i++) x[i] = s.x[i];
    s.w->addPose(g);
    Matrix4f g2 = s.here(1);
    s.w->addPose(g2, PoseQualityMeasurementPtr());
    vc_ensure(s.w->getEntry(g) == 2 && s.w->getEntry(g2) == 2, "one more in this voxel");
    for (int i = 0; i < 6; i++)
    {
        vc_ensure_le(s.w->achievedMinValues[i], x[i], "values achieved");
        vc_ensure_le(s.w->achievedMinValues[i], s.x[i], "values achieved");
        vc_ensure_le(x[i], s.w->achievedMaxValues[i], "values achieved");
        vc_ensure_le(s.x[i], s.w->achievedMaxValues[i], "values achieved");
        vc_ensure(vc_or(vc_eq(s.w->achievedMinValues[i], x[i]), vc_eq(s.w->achievedMinValues[i], s.x[i])), "values achieved");
        vc_ensure(vc_or(vc_eq(s.w->achievedMaxValues[i], x[i]), vc_eq(s.w->achievedMaxValues[i], s.x[i])), "values achieved");
    }
    vc_ensure(s.w->getData()->getVoxelFilledCount() == 1, "number of voxels with entries");
}
VC_HARNESS(ws_current_pose)
{
    Poses s(2, 1, 2, 1, 1, 1);
    Matrix4f g = s.at(vc_case("voxel", 0, 3));
    // the tcp moves to the pose with the whole robot fixed but its own offset
    Matrix4f local = tr(Vector3f(g(0, 3) - s.j->getGlobalPose()(0, 3), g(1, 3) - s.j->getGlobalPose()(1, 3), g(2, 3) - s.j->getGlobalPose()(2, 3)));
    s.tcp->setLocalTransformation(local);
    s.r->applyJointValues();
    uc e = vc_nondet_byte("e"), n = vc_nondet_byte("n");
    s.w->setVoxelEntry(s.v, e);
    int how = vc_case("how", 0, 2);
    if (how == 0) s.w->setCurrentTCPPoseEntryIfLower(n);
    if (how == 1) s.w->setCurrentTCPPoseEntry(n);
    if (how == 2) s.w->addCurrentTCPPose();
    int expected = how == 0 ? std::max(e, n) : how == 1 ? int(n) : e == 255 ? 127 : e + 1;
    vc_ensure(s.entry(s.v) == expected, "entry of the voxel of the tool");
    unsigned others = 0;
    for (unsigned a = 0; a < 2; a++) for (unsigned b = 0; b < 2; b++) if (a != s.v[0] || b != s.v[2]) others += s.w->getVoxelEntry(a, 0, b, 0, 0, 0);
    vc_ensure(others == 0, "no other entry");
    vc_ensure(s.w->buildUpLoops == 2, "number of poses");
    for (int i = 0; i < 3; i++) { eq(s.w->achievedMinValues[i], s.x[i], "values achieved"); eq(s.w->achievedMaxValues[i], s.x[i], "values achieved"); }
}
