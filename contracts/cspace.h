// Configuration spaces with an arbitrary robot and arbitrary validity of configurations.
#pragma once
#include "robot.h"
#include "MotionPlanning/CSpace/CSpace.h"
#include "MotionPlanning/CSpace/CSpaceNode.h"
#include "MotionPlanning/CSpace/CSpacePath.h"
#include "MotionPlanning/CSpace/CSpaceTree.h"
#include "MotionPlanning/CSpace/CSpaceSampled.h"
#include "MotionPlanning/CSpace/Sampler.h"
#include "MotionPlanning/CSpace/ConfigurationConstraint.h"
using namespace vcr;
using vc::eq;
using namespace Saba;

// a chain of translational joints (limits lo, hi) or of limitless revolute ones
struct Chain
{
    RobotPtr r;
    std::vector<RobotNodePtr> n;
    RobotNodeSetPtr set;
    std::vector<float> lo, hi;
    // kinds: p translational, r revolute, l limitless revolute within [-pi,pi], m limitless revolute within [0,2pi]
    Chain(const char* kinds, bool anyLimits = true)
    {
        r = robot();
        const char* names[] = {"a", "b", "c"};
        for (int i = 0; kinds[i]; i++)
        {
            float l = -1000, h = 1000;
            if (kinds[i] == 'l') { l = -vc_pi(); h = vc_pi(); }
            else if (kinds[i] == 'm') { l = 0; h = 2 * vc_pi(); }
            else if (anyLimits)
            {
                l = vc_nondet_range("lo", -1000, 0);
                h = vc_nondet_range("hi", 0, 1000);
                vc_assume(l < h);
            }
            else if (kinds[i] == 'r') { l = -3; h = 3; }
            lo.push_back(l); hi.push_back(h);
            RobotNodePtr x = kinds[i] == 'p' ? pris(r, names[i], I4(), Vector3f(i == 0, i == 1, i == 2), l, h) : rev(r, names[i], I4(), Vector3f(i == 0, i == 1, i == 2), l, h);
            if (kinds[i] == 'l' || kinds[i] == 'm') x->setLimitless(true);
            if (i) n[i - 1]->attachChild(x);
            n.push_back(x);
        }
        r->setRootNode(n[0]);
        set = RobotNodeSet::createRobotNodeSet(r, "set", n, n[0], n.back());
    }
};
// the space itself without collision checks
struct Space : public CSpace
{
    bool free;
    int asked;
    VectorXf last;
    Space(const Chain& c, int nodes = 5) : CSpace(c.r, CDManagerPtr(), c.set, nodes), free(true), asked(0) {}
    bool isCollisionFree(const VectorXf& q) override { asked++; last = q; return free; }
    CSpacePtr clone(CollisionCheckerPtr, RobotPtr, CDManagerPtr, unsigned int) override { return CSpacePtr(); }
    using CSpace::generateNewConfig;
    using CSpace::getDirectionVector;
};
static VectorXf config(const Chain& c)
{
    VectorXf v(c.n.size());
    for (size_t i = 0; i < c.n.size(); i++) v(i) = vc_nondet_range("q", c.lo[i], c.hi[i]);
    return v;
}
static VectorXf vec(int n, float lo = -1000, float hi = 1000)
{
    VectorXf v(n);
    for (int i = 0; i < n; i++) v(i) = vc_nondet_range("x", lo, hi);
    return v;
}
// the shortest way from a to b on the circle, for values that differ by at most a turn
static float turn(float a, float b)
{
    float d = b - a;
    return d >= vc_pi() ? d - 2 * vc_pi() : d < -vc_pi() ? d + 2 * vc_pi() : d;
}
