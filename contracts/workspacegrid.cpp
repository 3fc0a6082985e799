// VC-PROPERTY: C12
// VC-TU: %robot VirtualRobot/Workspace/WorkspaceGrid.cpp VirtualRobot/Workspace/WorkspaceDataArray.cpp VirtualRobot/Workspace/WorkspaceRepresentation.cpp VirtualRobot/Grasping/Grasp.cpp VirtualRobot/Grasping/GraspSet.cpp VirtualRobot/ManipulationObject.cpp VirtualRobot/Obstacle.cpp
// VC-BOUNDED: grid_neighbours: a grid of 4 x 4 cells, two values
// VC-BOUNDED: grid_merge: two overlapping grids of 2 x 1 cells, any entries
// VC-FLAGS: -fno-access-control
// VC-HOPT: grid_position: merge=0
// VC-HOPT: grid_cut: merge=0
// VC-HOPT: grid_neighbours: merge=0
// Two-dimensional grids of base positions
#include "robot.h"
#include <VirtualRobot/Workspace/WorkspaceGrid.h>
#include <VirtualRobot/Grasping/Grasp.h>
using namespace vcr;
using vc::eq; using vc::mul;

struct G
{
    float lo[2], size[2];
    int n[2];
    WorkspaceGridPtr g;
    GraspPtr a, b;
    G(int nx, int ny)
    {
        n[0] = nx; n[1] = ny;
        for (int i = 0; i < 2; i++) { lo[i] = vc_nondet_range("lo", -1000, 1000); size[i] = (n[i] - 0.5f) * 10; }
        g.reset(new WorkspaceGrid(lo[0], lo[0] + size[0], lo[1], lo[1] + size[1], 10));
        a.reset(new Grasp("a", "r", "hand", I4())); b.reset(new Grasp("b", "r", "hand", I4()));
    }
    float pos(int i, float f) { return lo[i] + f * size[i] / n[i]; }
};
VC_HARNESS(grid_setup)
{
    G s(3, 2);
    float a, b, c, d;
    s.g->getExtends(a, b, c, d);
    eq(a, s.lo[0], "extends"); eq(b, s.lo[0] + s.size[0], "extends"); eq(c, s.lo[1], "extends"); eq(d, s.lo[1] + s.size[1], "extends");
    eq(s.g->getMin()(0), a, "extends"); eq(s.g->getMax()(0), b, "extends"); eq(s.g->getMin()(1), c, "extends"); eq(s.g->getMax()(1), d, "extends");
    int nx, ny;
    s.g->getCells(nx, ny);
    vc_ensure(nx == 3 && ny == 2, "number of cells");
    eq(s.g->getDiscretizeSize(), 10, "discretisation");
    vc_ensure(s.g->getMaxEntry() == 0, "empty");
    float x = vc_nondet_range("x", -1000, 1000), y = vc_nondet_range("y", -1000, 1000);
    s.g->setGridPosition(x, y);
    s.g->getExtends(a, b, c, d);
    eq(a + b, 2 * x, "centre of the grid"); eq(c + d, 2 * y, "centre of the grid");
    eq(b - a, s.size[0], "size of the grid"); eq(d - c, s.size[1], "size of the grid");
}
VC_HARNESS(grid_refused)
{
    float lo = vc_nondet_range("lo", -100, 100), hi = vc_nondet_range("hi", -100, 100);
    vc_assume(lo >= hi);
    int c = vc_case("axis", 0, 1);
    bool thrown = false;
    try { if (c) WorkspaceGrid g(lo, hi, 0, 20, 10); else WorkspaceGrid h(0, 20, lo, hi, 10); } catch (VirtualRobotException&) { thrown = true; }
    vc_ensure(thrown, "no size");
}
// the cell of a position
VC_HARNESS(grid_position)
{
    G s(3, 3);
    int axis = vc_case("axis", 0, 1);
    float f = vc_nondet_range("f", -4, 8);
    if (!vc_symbolic() && std::abs(f - std::floor(f + 0.5f)) < 1e-3f) return;
    float x = s.pos(0, axis == 0 ? f : 1.5f), y = s.pos(1, axis == 1 ? f : 1.5f);
    s.g->setEntry(x, y, 7, s.a);
    bool in = f >= 0 && f < 3;
    int e = 3;
    GraspPtr p = s.b;
    vc_ensure(s.g->getEntry(x, y) == (in ? 7 : 0), "entry of a position");
    vc_ensure(s.g->getEntry(x, y, e, p) == in, "a position has a cell exactly if it is inside");
    vc_ensure(in ? e == 7 && p == s.a : e == 3 && p == s.b, "entry and grasp of a position");
    std::vector<GraspPtr> l;
    vc_ensure(s.g->getEntry(x, y, e, l) == in, "a position has a cell exactly if it is inside");
    vc_ensure(l.size() == (in ? 1u : 0u), "grasps of a position");
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
    {
        bool here = (axis ? a : b) == 1 && (axis ? b : a) <= f && f < (axis ? b : a) + 1;
        vc_ensure(s.g->getCellEntry(a, b) == (here ? 7 : 0), "exactly the cell of the position");
    }
    vc_ensure(s.g->getMaxEntry() == (in ? 7 : 0), "highest entry");
}
VC_HARNESS(grid_cells)
{
    G s(3, 2);
    int i = vc_case("i", -1, 3), k = vc_case("k", -1, 2);
    bool in = i >= 0 && i < 3 && k >= 0 && k < 2;
    int v = vc_nondet_int("v", 1, 1000), w = vc_nondet_int("w", 1, 1000);
    s.g->setCellEntry(i, k, v, s.a);
    s.g->setCellEntry(i, k, w, s.b);
    s.g->setCellEntry(i, k, v, s.a);
    int max = v > w ? v : w;
    vc_ensure(s.g->getCellEntry(i, k) == (in ? max : 0), "the higher entry stays");
    int e = 0;
    std::vector<GraspPtr> l;
    vc_ensure(s.g->getCellEntry(i, k, e, l) == in, "cells of the grid");
    GraspPtr p;
    vc_ensure(s.g->getCellEntry(i, k, e, p) == in, "cells of the grid");
    if (in)
    {
        vc_ensure(e == max, "entry of a cell");
        bool both = w >= v || w >= 100;
        vc_ensure(l.size() == (both ? 2u : 1u) && l[0] == s.a, "grasps of a cell");
        if (both) vc_ensure(l[1] == s.b, "grasps of a cell");
        vc_ensure(p == s.a || (both && p == s.b), "a grasp of the cell");
    }
    for (int a = 0; a < 3; a++) for (int b = 0; b < 2; b++) if (a != i || b != k) vc_ensure(s.g->getCellEntry(a, b) == 0, "no other cell");
    vc_ensure(s.g->getMaxEntry() == (in ? max : 0), "highest entry");
    s.g->reset();
    vc_ensure(s.g->getMaxEntry() == 0 && s.g->getCellEntry(0, 0) == 0, "reset");
    if (in) { s.g->getCellEntry(i, k, e, l); vc_ensure(e == 0 && l.empty(), "reset"); }
}
VC_HARNESS(grid_neighbours)
{
    G s(4, 4);
    int i = vc_case("i", 0, 3), k = vc_case("k", 0, 3);
    s.g->setCellEntry(0, 0, 9, GraspPtr());
    int v = vc_case("v", 0, 1) ? 5 : 20;
    s.g->setEntryCheckNeighbors(s.pos(0, i + 0.5f), s.pos(1, k + 0.5f), v, s.a);
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++)
    {
        bool near = std::abs(a - i) <= 1 && std::abs(b - k) <= 1;
        int expected = near ? v : 0;
        if (a == 0 && b == 0 && expected < 9) expected = 9;
        vc_ensure(s.g->getCellEntry(a, b) == expected, "the cell and its neighbours");
    }
}
VC_HARNESS(grid_cut)
{
    // positions from which the grasp is reached
    G s(3, 3);
    Matrix4f grasp = vc::poseOf(Matrix3f::Identity(), vc::vec3("grasp")), t = I4();
    grasp(0, 0) = 0; grasp(1, 0) = 1; grasp(0, 1) = -1; grasp(1, 1) = 0;
    int i = vc_case("i", 0, 2), k = vc_case("k", 0, 2);
    // base * t = grasp for a base at the centre of a cell
    Matrix4f base = I4();
    base(0, 3) = s.pos(0, i + 0.5f); base(1, 3) = s.pos(1, k + 0.5f); base(2, 3) = vc_nondet_float("z");
    t = mul(vc::rinv(base), grasp);
    std::vector<WorkspaceRepresentation::WorkspaceCut2DTransformationPtr> l(1, WorkspaceRepresentation::WorkspaceCut2DTransformationPtr(new WorkspaceRepresentation::WorkspaceCut2DTransformation()));
    l[0]->value = 7;
    l[0]->transformation = t;
    s.g->setEntries(l, grasp, s.a);
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
    {
        int e = s.g->getCellEntry(a, b);
        if (a == i && b == k) vc_ensure(e == l[0]->value, "the cell from which the grasp is reached");
        else if (std::abs(a - i) > 1 || std::abs(b - k) > 1) vc_ensure(e == 0, "no cell far away");
        else vc_ensure(e == l[0]->value, "neighbours");
    }
}
VC_HARNESS(grid_random)
{
    G s(2, 2);
    int i = vc_case("i", 0, 1), k = vc_case("k", 0, 1);
    int v = vc_nondet_int("v", 1, 200), min = vc_nondet_int("min", 1, 200);
    s.g->setCellEntry(i, k, v, s.a);
    float x = -5000, y = -5000;
    GraspPtr p = s.b;
    std::vector<GraspPtr> l;
    int e = 0, how = vc_case("how", 0, 1);
    bool r = how ? s.g->getRandomPos(min, x, y, l, 2, &e) : s.g->getRandomPos(min, x, y, p, 2, &e);
    if (!r) { vc_ensure(x == -5000 && y == -5000, "no position"); return; }
    vc_ensure(v >= min && e == v, "the entry is high enough");
    vc_ensure(how ? l.size() == 1 && l[0] == s.a : p == s.a, "grasps of the position");
    vc_ensure(vc_and(vc_and(s.pos(0, i) <= x, x < s.pos(0, i + 1)), vc_and(s.pos(1, k) <= y, y < s.pos(1, k + 1))), "a position of this cell");
    vc_cover("position found");
}
VC_HARNESS(grid_merge)
{
    // two grids next to each other, the entry of a position inside both is the lower one
    G s(2, 1), t(2, 1);
    for (int i = 0; i < 2; i++) { s.lo[i] = -5; t.lo[i] = i ? -5 : 2.5f; }
    s.g->minX = -5; s.g->maxX = 10; s.g->minY = -5; s.g->maxY = 0;
    t.g->minX = 2.5f; t.g->maxX = 17.5f; t.g->minY = -5; t.g->maxY = 0;
    int v[2], w[2];
    for (int i = 0; i < 2; i++)
    {
        v[i] = vc_nondet_int("v", 0, 200); w[i] = vc_nondet_int("w", 0, 200);
        s.g->setCellEntry(i, 0, v[i], GraspPtr()); t.g->setCellEntry(i, 0, w[i], GraspPtr());
    }
    std::vector<WorkspaceGridPtr> l; l.push_back(s.g); l.push_back(t.g);
    WorkspaceGridPtr m = WorkspaceGrid::MergeWorkspaceGrids(l);
    float a, b, c, d;
    m->getExtends(a, b, c, d);
    eq(a, -5, "extends of both"); eq(b, 17.5f, "extends of both"); eq(c, -5, "extends of both"); eq(d, 0, "extends of both");
    int nx, ny;
    m->getCells(nx, ny);
    vc_ensure(nx == 3 && ny == 1, "number of cells");
    // sampled at -5, 5 and 15
    vc_ensure(m->getEntry(-5, -5) == 0, "a position outside of one grid");
    vc_ensure(m->getEntry(5, -5) == (v[1] < w[0] ? v[1] : w[0]), "the lower entry");
    vc_ensure(m->getEntry(15, -5) == 0, "a position outside of one grid");
}
