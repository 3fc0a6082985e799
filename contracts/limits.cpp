// VC-PROPERTY: C06
// VC-TU: %robot
// Joint limits: clamping, limitless joints, checks and shortest deltas
#include "robot.h"
using namespace vcr;
using vc::eq;

static float spec_clamp(float q, float lo, float hi) { return q < lo ? lo : q > hi ? hi : q; }
struct J
{
    RobotPtr r;
    RobotNodePtr a, b;
    float lo, hi;
    J(bool prismatic = false)
    {
        r = robot();
        lo = vc_nondet_float("lo"); hi = vc_nondet_float("hi");
        vc_assume(lo <= hi);
        a = fixed(r, "a", I4());
        b = prismatic ? pris(r, "b", I4(), Vector3f(0, 0, 1), lo, hi) : rev(r, "b", I4(), Vector3f(0, 0, 1), lo, hi);
        a->attachChild(b);
        r->setRootNode(a);
    }
};
VC_HARNESS(limits_stored)
{
    J j;
    eq(j.b->getJointLimitLo(), j.lo, "lower limit");
    eq(j.b->getJointLimitHi(), j.hi, "upper limit");
    eq(j.b->getJointLimitLow(), j.lo, "lower limit");
    eq(j.b->getJointLimitHigh(), j.hi, "upper limit");
    float l2 = vc_nondet_float("l2"), h2 = vc_nondet_float("h2");
    j.b->setJointLimits(l2, h2);
    eq(j.b->getJointLimitLo(), l2, "lower limit");
    eq(j.b->getJointLimitHi(), h2, "upper limit");
}
VC_HARNESS(clamp_revolute)
{
    J j;
    float q = vc_nondet_float("q");
    j.b->setJointValue(q);
    eq(j.b->getJointValue(), spec_clamp(q, j.lo, j.hi), "joint value clamped to the limits");
}
VC_HARNESS(clamp_prismatic)
{
    J j(true);
    float q = vc_nondet_float("q");
    j.r->setJointValue("b", q);
    eq(j.b->getJointValue(), spec_clamp(q, j.lo, j.hi), "joint value clamped to the limits");
}
// every way of setting joint values clamps
VC_HARNESS(clamp_by_map)
{
    J j;
    float q = vc_nondet_float("q");
    std::map<std::string, float> m;
    m["b"] = q;
    j.r->setJointValues(m);
    eq(j.b->getJointValue(), spec_clamp(q, j.lo, j.hi), "joint value clamped to the limits");
}
VC_HARNESS(clamp_by_node_map)
{
    J j;
    float q = vc_nondet_float("q");
    std::map<RobotNodePtr, float> m;
    m[j.b] = q;
    j.r->setJointValues(m);
    eq(j.b->getJointValue(), spec_clamp(q, j.lo, j.hi), "joint value clamped to the limits");
}
VC_HARNESS(clamp_by_config)
{
    J j;
    float q = vc_nondet_float("q");
    RobotConfigPtr c(new RobotConfig(j.r, "c"));
    c->setConfig("b", q);
    c->setJointValues();
    eq(j.b->getJointValue(), spec_clamp(q, j.lo, j.hi), "joint value clamped to the limits");
}
VC_HARNESS(no_enforcement)
{
    J j;
    float q = vc_nondet_float("q"), p = vc_nondet_float("p");
    vc_ensure(j.b->getEnforceJointLimits(), "limits are enforced by default");
    j.b->setEnforceJointLimits(false);
    j.b->setJointValue(q);
    eq(j.b->getJointValue(), q, "joint value unchanged when limits are not enforced");
    j.b->setEnforceJointLimits(true);
    j.b->setJointValue(p);
    eq(j.b->getJointValue(), spec_clamp(p, j.lo, j.hi), "joint value clamped to the limits");
}
VC_HARNESS(check_and_respect)
{
    J j;
    float q = vc_nondet_float("q");
    j.b->setJointValue(0);
    float before = j.b->getJointValue();
    bool in = vc_and(q >= j.lo, q <= j.hi);
    vc_ensure(j.b->checkJointLimits(q) == in, "checkJointLimits tells whether the value is within the limits");
    float r = q;
    j.b->respectJointLimits(r);
    eq(r, spec_clamp(q, j.lo, j.hi), "respectJointLimits clamps to the limits");
    eq(j.b->getJointValue(), before, "joint value untouched");
}
VC_HARNESS(check_and_respect_set)
{
    RobotPtr r = robot();
    float lo[3], hi[3], q[3];
    RobotNodePtr n[3];
    bool in = true;
    for (int i = 0; i < 3; i++)
    {
        lo[i] = vc_nondet_float("lo"); hi[i] = vc_nondet_float("hi"); q[i] = vc_nondet_float("q");
        vc_assume(lo[i] <= hi[i]);
        n[i] = rev(r, i == 0 ? "a" : i == 1 ? "b" : "c", I4(), Vector3f(0, 0, 1), lo[i], hi[i]);
        if (i) n[i - 1]->attachChild(n[i]);
    }
    for (int i = 0; i < 3; i++) in = in & vc_and(q[i] >= lo[i], q[i] <= hi[i]);
    r->setRootNode(n[0]);
    std::vector<RobotNodePtr> ns(n, n + 3);
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(r, "s", ns);
    std::vector<float> v(q, q + 3);
    VectorXf e(3);
    for (int i = 0; i < 3; i++) e(i) = q[i];
    vc_ensure(s->checkJointLimits(v) == in, "checkJointLimits (vector) tells whether all values are within the limits");
    vc_ensure(s->checkJointLimits(e) == in, "checkJointLimits (Eigen) tells whether all values are within the limits");
    s->respectJointLimits(v);
    s->respectJointLimits(e);
    for (int i = 0; i < 3; i++)
    {
        eq(v[i], spec_clamp(q[i], lo[i], hi[i]), "respectJointLimits (vector) clamps every value");
        eq(e(i), spec_clamp(q[i], lo[i], hi[i]), "respectJointLimits (Eigen) clamps every value");
    }
    vc_ensure(s->checkJointLimits(v), "a clamped configuration is within the limits");
    s->setJointValues(e);
    for (int i = 0; i < 3; i++) eq(n[i]->getJointValue(), spec_clamp(q[i], lo[i], hi[i]), "clamped values arrive at the joints");
}
VC_HARNESS(clamp_by_node_set)
{
    RobotPtr r = robot();
    float lo[2], hi[2], q[2];
    RobotNodePtr n[2];
    for (int i = 0; i < 2; i++)
    {
        lo[i] = vc_nondet_float("lo"); hi[i] = vc_nondet_float("hi"); q[i] = vc_nondet_float("q");
        vc_assume(lo[i] <= hi[i]);
        n[i] = rev(r, i == 0 ? "a" : "b", I4(), Vector3f(0, 0, 1), lo[i], hi[i]);
        if (i) n[i - 1]->attachChild(n[i]);
    }
    r->setRootNode(n[0]);
    std::vector<RobotNodePtr> ns(n, n + 2);
    RobotNodeSetPtr s = RobotNodeSet::createRobotNodeSet(r, "s", ns);
    std::vector<float> v(q, q + 2);
    int way = vc_case("way", 0, 2);
    if (way == 0) s->setJointValues(v);
    else if (way == 1) r->setJointValues(s, v);
    else r->setJointValues(ns, v);
    for (int i = 0; i < 2; i++) eq(n[i]->getJointValue(), spec_clamp(q[i], lo[i], hi[i]), "joint values clamped to the limits");
}
// limitless joints keep the direction they denote: the stored value differs by whole turns and lies within the limits
static void limitless(float lo, float hi)
{
    RobotPtr r = robot();
    RobotNodePtr b = rev(r, "b", I4(), Vector3f(0, 0, 1), lo, hi);
    b->setLimitless(true);
    vc_ensure(b->isLimitless(), "limitless");
    r->setRootNode(b);
    float q = vc_nondet_float("q");
    b->setJointValue(q);
    float v = b->getJointValue();
    vc_ensure_le(lo, v, "limitless joint: value not below the lower limit");
    vc_ensure_le(v, hi, "limitless joint: value not above the upper limit");
    eq(vc_cos(v), vc_cos(q), "limitless joint: same direction (cos)");
    eq(vc_sin(v), vc_sin(q), "limitless joint: same direction (sin)");
    if (lo <= q && q <= hi) eq(v, q, "limitless joint: value within the limits is kept");
}
VC_HARNESS(limitless_pi) { limitless(-vc_pi(), vc_pi()); }
VC_HARNESS(limitless_two_pi) { limitless(0, 2 * vc_pi()); }
VC_HARNESS(limitless_positive) { limitless(1, 8); }
VC_HARNESS(limitless_negative) { limitless(-9, -1); }
VC_HARNESS(limitless_wide) { limitless(-7, 9); }
VC_HARNESS(delta_limited)
{
    J j;
    float q = vc_nondet_float("q"), t = vc_nondet_float("t");
    j.b->setJointValue(q);
    float d = j.b->getDelta(t);
    if (vc_and(t >= j.lo, t <= j.hi)) eq(d, t - j.b->getJointValue(), "delta to a reachable target");
    else eq(d, 0, "no delta for a target outside the limits");
}
VC_HARNESS(delta_limitless)
{
    RobotPtr r = robot();
    RobotNodePtr b = rev(r, "b", I4(), Vector3f(0, 0, 1), -vc_pi(), vc_pi());
    b->setLimitless(true);
    r->setRootNode(b);
    float q = vc_nondet_float("q"), t = vc_nondet_float("t");
    vc_assume(vc_and(q >= -vc_pi(), q <= vc_pi()));
    vc_assume(vc_and(t >= -vc_pi(), t <= vc_pi()));
    b->setJointValue(q);
    float d = b->getDelta(t);
    vc_ensure_le(d, vc_pi(), "shortest way is at most half a turn");
    vc_ensure_le(-d, vc_pi(), "shortest way is at most half a turn");
    eq(vc_cos(q + d), vc_cos(t), "moving by the delta reaches the target (cos)");
    eq(vc_sin(q + d), vc_sin(t), "moving by the delta reaches the target (sin)");
}
VC_HARNESS(limitless_any)
{
    float lo = vc_nondet_range("lo", -10, 10), hi = vc_nondet_range("hi", -10, 20);
    vc_assume(hi - lo >= 2 * vc_pi());
    limitless(lo, hi);
}
