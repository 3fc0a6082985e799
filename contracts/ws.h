// Workspaces over a small robot, and poses in their voxels
#pragma once
#include "robot.h"
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/ManipulationObject.h>
using namespace vcr;
using vc::eq; using vc::mul;
typedef unsigned char uc;

// the encoding of an orientation is any function: three numbers per pose, told apart by the value at (2,2)
static float angles[2][3];
VC_MOCK("VirtualRobot::WorkspaceRepresentation::matrix2Vector(Eigen::Matrix<float, 4, 4, 0, 4, 4> const&, float*) const")
void stub_matrix2Vector(const WorkspaceRepresentation*, const Matrix4f& m, float* x)
{
    for (int i = 0; i < 3; i++) { x[i] = m(i, 3); x[3 + i] = angles[m(2, 2) < 0.5f ? 1 : 0][i]; }
}
static Matrix4f tr(const Vector3f& v) { return vc::poseOf(Matrix3f::Identity(), v); }

struct Base
{
    RobotPtr r;
    RobotNodePtr root, base, j, tcp;
    RobotNodeSetPtr set;
    Base()
    {
        r = robot();
        root = fixed(r, "root", tr(vc::vec3("root")));
        base = fixed(r, "base", tr(vc::vec3("base")));
        j = pris(r, "j", tr(vc::vec3("j")), Vector3f(1, 0, 0), -1000, 1000);
        tcp = fixed(r, "tcp", tr(vc::vec3("tcp")));
        root->attachChild(base); root->attachChild(j); j->attachChild(tcp);
        r->setRootNode(root);
        std::vector<RobotNodePtr> n(1, j);
        set = RobotNodeSet::createRobotNodeSet(r, "set", n, root, tcp);
    }
};
struct WS : Base
{
    boost::shared_ptr<WorkspaceRepresentation> w;
    float lo[6], hi[6], size[6];
    int n[6];
    WS(int n0, int n1, int n2, int n3, int n4, int n5, bool reach = false)
    {
        int k[6] = {n0, n1, n2, n3, n4, n5};
        for (int i = 0; i < 6; i++)
        {
            n[i] = k[i];
            lo[i] = vc_nondet_range("lo", -1000, 1000);
            size[i] = (k[i] - 0.5f) * (i < 3 ? 100 : 2);
            hi[i] = lo[i] + size[i];
        }
        if (reach) w.reset(new Reachability(r)); else w.reset(new WorkspaceRepresentation(r));
        w->initialize(set, 100, 2, lo, hi, SceneObjectSetPtr(), SceneObjectSetPtr(), base);
    }
    uc entry(const unsigned* q) { return w->getVoxelEntry(q[0], q[1], q[2], q[3], q[4], q[5]); }
    float voxel(int i) { return size[i] / n[i]; }
};
// a pose within the voxel given: anywhere between its bounds
struct Poses : WS
{
    Matrix4f g;
    float x[6];
    unsigned v[6];
    Poses(int n0, int n1, int n2, int n3, int n4, int n5, bool reach = false) : WS(n0, n1, n2, n3, n4, n5, reach) {}
    Matrix4f at(int k)
    {
        for (int i = 0; i < 6; i++) { v[i] = k % n[i]; k /= n[i]; }
        return here(0);
    }
    Matrix4f here(int slot)
    {
        for (int i = 0; i < 6; i++) x[i] = lo[i] + (v[i] + vc_nondet_range("f", 0.01f, 0.99f)) * voxel(i);
        for (int i = 0; i < 3; i++) angles[slot][i] = x[3 + i];
        g = base->getGlobalPose();
        for (int i = 0; i < 3; i++) g(i, 3) += x[i];
        if (slot) { g(1, 1) = -1; g(2, 2) = -1; }
        return g;
    }
};
