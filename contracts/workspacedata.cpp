// VC-PROPERTY: C12
// VC-TU: VirtualRobot/Workspace/WorkspaceDataArray.cpp VirtualRobot/VirtualRobotException.cpp VirtualRobot/VirtualRobot.cpp @support.cpp
// VC-FLAGS: -fno-access-control
// The array of voxels: every entry is kept apart, counts and maxima follow.
#include "vc.h"
#include <VirtualRobot/Workspace/WorkspaceDataArray.h>
using namespace VirtualRobot;
typedef unsigned char uc;

// 2 x 1 x 2 positions with 1 x 2 x 1 rotations, any values below the maximum given (0: no entry)
static const unsigned N[6] = {2, 1, 2, 1, 2, 1};
struct Voxels
{
    WorkspaceDataArray* d;
    uc e[2][2][2];                       // position x0, x2, rotation x4
    Voxels(bool adjust = true) { d = new WorkspaceDataArray(N[0], N[1], N[2], N[3], N[4], N[5], adjust); clear(); }
    ~Voxels() { delete d; }
    void clear() { for (int i = 0; i < 8; i++) e[i / 4][i / 2 % 2][i % 2] = 0; }
    void set(int a, int b, int c, uc v) { d->setDatum(a, 0, b, 0, c, 0, v); e[a][b][c] = v; }
    // any values at three of the positions, none at the last
    void any(int n = 6)
    {
        for (int i = 0; i < n; i++) set(i / 4, i / 2 % 2, i % 2, vc_nondet_byte("value"));
    }
    unsigned count() { unsigned n = 0; for (int i = 0; i < 8; i++) n += e[i / 4][i / 2 % 2][i % 2] != 0 ? 1 : 0; return n; }
    int maximum() { int m = 0; for (int i = 0; i < 8; i++) { int v = e[i / 4][i / 2 % 2][i % 2]; m = v > m ? v : m; } return m; }
};
static void same(WorkspaceDataArray* d, Voxels& v, const char* l)
{
    for (unsigned a = 0; a < 2; a++) for (unsigned b = 0; b < 2; b++) for (unsigned c = 0; c < 2; c++)
    {
        vc_ensure(d->get(a, 0, b, 0, c, 0) == v.e[a][b][c], l);
        unsigned x[6] = {a, 0, b, 0, c, 0};
        vc_ensure(static_cast<WorkspaceData*>(d)->get(x) == v.e[a][b][c], l);
    }
}
VC_HARNESS(data_empty)
{
    Voxels v;
    same(v.d, v, "a new array is empty");
    vc_ensure(v.d->getSizeTr() == 4 && v.d->getSizeRot() == 2, "size of the array");
    for (int i = 0; i < 6; i++) vc_ensure(v.d->getSize(i) == N[i], "size of the array");
    vc_ensure(v.d->getVoxelFilledCount() == 0 && v.d->getMaxEntry() == 0, "a new array is empty");
    for (unsigned a = 0; a < 3; a++) for (unsigned b = 0; b < 3; b++) vc_ensure(!v.d->hasEntry(a, 0, b), "a new array has no entries");
    v.d->binarize();
    v.d->bisectData();
    same(v.d, v, "nothing to cut");
    vc_ensure(v.d->getVoxelFilledCount() == 0 && v.d->getMaxEntry() == 0, "nothing to cut");
}
VC_HARNESS(data_entries)
{
    Voxels v;
    v.any(6);
    same(v.d, v, "the entries set");
    vc_ensure(v.d->getVoxelFilledCount() == v.count(), "number of entries");
    vc_ensure(v.d->getMaxEntry() == v.maximum(), "maximum of the entries");
    vc_ensure(v.d->hasEntry(0, 0, 0) && v.d->hasEntry(0, 0, 1) && v.d->hasEntry(1, 0, 0), "positions with entries");
    vc_ensure(!v.d->hasEntry(1, 0, 1) && !v.d->hasEntry(2, 0, 0) && !v.d->hasEntry(0, 1, 0) && !v.d->hasEntry(0, 0, 2), "positions without entries");
    // another value for one of them
    int i = vc_case("again", 0, 7);
    uc w = vc_nondet_byte("w");
    int before = v.maximum();
    unsigned x[6] = {unsigned(i / 4), 0, unsigned(i / 2 % 2), 0, unsigned(i % 2), 0};
    v.e[i / 4][i / 2 % 2][i % 2] = w;
    static_cast<WorkspaceData*>(v.d)->setDatum(x, w);
    same(v.d, v, "only the entry set changes");
    vc_ensure(v.d->getVoxelFilledCount() == v.count(), "number of entries");
    vc_ensure(v.d->getMaxEntry() == (w > before ? w : before), "highest entry so far");
    // the rotations of a position
    const uc* r = v.d->getDataRot(i / 4, 0, i / 2 % 2);
    for (int c = 0; c < 2; c++) vc_ensure(r[c] == v.e[i / 4][i / 2 % 2][c], "rotations of a position");
    vc_cover("entries");
    v.d->clear();
    v.clear();
    same(v.d, v, "cleared");
    vc_ensure(v.d->getVoxelFilledCount() == 0 && v.d->getMaxEntry() == 0 && !v.d->hasEntry(0, 0, 0), "cleared");
}
VC_HARNESS(data_rotations)
{
    Voxels v;
    v.any(4);
    uc r[2] = {vc_nondet_byte("r"), vc_nondet_byte("r")};
    int i = vc_case("position", 0, 3);
    v.d->setDataRot(r, i / 2, 0, i % 2);
    for (int c = 0; c < 2; c++) v.e[i / 2][i % 2][c] = r[c];
    r[0] = 0; r[1] = 1;
    same(v.d, v, "rotations of one position set");
}
VC_HARNESS(data_increase)
{
    bool adjust = vc_case("adjust", 0, 1);
    Voxels v(adjust);
    v.any(4);
    int i = vc_case("which", 0, 5);
    int old = v.e[i / 4][i / 2 % 2][i % 2], before = v.maximum();
    unsigned x[6] = {unsigned(i / 4), 0, unsigned(i / 2 % 2), 0, unsigned(i % 2), 0};
    v.d->increaseDatum(x);
    bool halved = old == 255 && adjust;
    for (int k = 0; k < 8; k++)
    {
        uc& e = v.e[k / 4][k / 2 % 2][k % 2];
        if (halved) e = e > 1 ? e / 2 : e;
        else if (k == i && old < 255) e = old + 1;
    }
    same(v.d, v, "one more in this voxel");
    vc_ensure(v.d->getVoxelFilledCount() == v.count(), "number of entries");
    if (halved) vc_ensure(v.d->getMaxEntry() == 127, "halved maximum");
    else vc_ensure(v.d->getMaxEntry() == v.maximum(), "maximum of the entries");
    vc_ensure(v.d->getMaxEntry() >= (halved ? 127 : before), "maximum of the entries");
}
VC_HARNESS(data_cut)
{
    Voxels v;
    v.any(4);
    int m = v.maximum();
    if (vc_case("binarize", 0, 1))
    {
        v.d->binarize();
        for (int k = 0; k < 4; k++) { uc& e = v.e[0][k / 2 % 2][k % 2]; e = e > 1 ? 1 : e; }
        same(v.d, v, "entries cut to one");
    }
    else
    {
        v.d->bisectData();
        for (int k = 0; k < 4; k++) { uc& e = v.e[0][k / 2 % 2][k % 2]; e = e > 1 ? e / 2 : e; }
        same(v.d, v, "entries halved, none lost");
    }
    vc_ensure(v.d->getMaxEntry() == v.maximum(), "maximum of the entries");
    vc_ensure(v.d->getVoxelFilledCount() == v.count(), "number of entries");
    vc_ensure(v.d->getMaxEntry() <= m, "maximum of the entries");
}
VC_HARNESS(data_minimum)
{
    // values below the least valid one are flags and kept
    Voxels v;
    v.any(3);
    uc least = vc_nondet_byte("least");
    vc_assume(least >= 1);
    v.d->setMinValidValue(least);
    int m = v.maximum();
    bool bin = vc_case("binarize", 0, 1);
    if (bin) v.d->binarize(); else v.d->bisectData();
    for (int k = 0; k < 3; k++)
    {
        int e = v.e[0][k / 2 % 2][k % 2];
        int h = bin || e / 2 < least ? least : e / 2;
        v.e[0][k / 2 % 2][k % 2] = e > least ? h : e;
    }
    same(v.d, v, "flags are kept, no valid entry becomes a flag");
    int h = bin || m / 2 < least ? least : m / 2;
    vc_ensure(v.d->getMaxEntry() == (m > least ? h : m), "maximum of the entries");
}
VC_HARNESS(data_copy)
{
    Voxels v;
    v.any(4);
    v.d->setMinValidValue(3);
    WorkspaceDataArray* c = static_cast<WorkspaceDataArray*>(v.d->clone());
    same(c, v, "a copy has the entries");
    vc_ensure(c->getVoxelFilledCount() == v.count() && c->getMaxEntry() == v.maximum(), "a copy has the counts");
    for (int i = 0; i < 6; i++) vc_ensure(c->getSize(i) == N[i], "size of the copy");
    vc_ensure(c->hasEntry(0, 0, 1) && !c->hasEntry(1, 0, 0), "positions with entries");
    vc_ensure(c->minValidValue == 3 && c->adjustOnOverflow, "settings of the copy");
    int i = vc_case("which", 0, 7);
    uc w = vc_nondet_byte("w");
    if (vc_case("original", 0, 1))
    {
        v.d->setDatum(i / 4, 0, i / 2 % 2, 0, i % 2, 0, w);
        same(c, v, "a copy is independent");
        delete c;
        vc_ensure(v.d->get(i / 4, 0, i / 2 % 2, 0, i % 2, 0) == w, "the original does not need the copy");
    }
    else
    {
        c->setDatum(i / 4, 0, i / 2 % 2, 0, i % 2, 0, w);
        same(v.d, v, "the original is independent");
        delete c;
        same(v.d, v, "the original does not need the copy");
    }
}
VC_HARNESS(data_summed)
{
    Voxels v;
    v.any(6);
    int best = 0;
    for (unsigned a = 0; a < 2; a++) for (unsigned b = 0; b < 2; b++)
    {
        int s = v.e[a][b][0] + v.e[a][b][1];
        vc_ensure(v.d->sumAngleReachabilities(a, 0, b) == s, "sum of the rotations of a position");
        best = s > best ? s : best;
    }
    vc_ensure(v.d->getMaxSummedAngleReachablity() == best, "highest sum of the rotations");
}
VC_HARNESS(data_neighbours)
{
    // along one dimension of four voxels
    int dim = vc_case("dimension", 0, 5);
    unsigned n[6] = {1, 1, 1, 1, 1, 1};
    n[dim] = 4;
    WorkspaceDataArray d(n[0], n[1], n[2], n[3], n[4], n[5], true);
    uc e[4];
    unsigned x[6] = {0, 0, 0, 0, 0, 0};
    for (unsigned i = 0; i < 4; i++) { e[i] = vc_nondet_byte("e"); x[dim] = i; static_cast<WorkspaceData&>(d).setDatum(x, e[i]); }
    int at = vc_case("at", 0, 3), reach = vc_case("reach", 0, 4);
    uc w = vc_nondet_byte("w");
    x[dim] = at;
    d.setDatumCheckNeighbors(x, w, reach);
    for (int i = 0; i < 4; i++)
    {
        x[dim] = i;
        int expected = i == at || (abs(i - at) <= reach && e[i] < w) ? w : e[i];
        vc_ensure(static_cast<WorkspaceData&>(d).get(x) == expected, "neighbours are raised to the value");
    }
}
VC_HARNESS(data_neighbours_plane)
{
    // neighbours in two dimensions
    int p = vc_case("dimension", 0, 5), q = vc_case("dimension", 0, 5);
    if (p >= q) return;
    unsigned n[6] = {1, 1, 1, 1, 1, 1};
    n[p] = 3; n[q] = 3;
    WorkspaceDataArray d(n[0], n[1], n[2], n[3], n[4], n[5], true);
    uc w = vc_nondet_byte("w");
    vc_assume(w > 0);
    unsigned x[6] = {0, 0, 0, 0, 0, 0};
    int i = vc_case("i", 0, 2), k = vc_case("k", 0, 2);
    x[p] = i; x[q] = k;
    d.setDatumCheckNeighbors(x, w, 1);
    unsigned count = 0;
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
    {
        x[p] = a; x[q] = b;
        bool near = abs(a - i) <= 1 && abs(b - k) <= 1;
        vc_ensure(static_cast<WorkspaceData&>(d).get(x) == (near ? w : 0), "the neighbours only");
        count += near;
    }
    vc_ensure(d.getVoxelFilledCount() == count && d.getMaxEntry() == w, "number of entries");
}
