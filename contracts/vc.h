// Contract language used by the harnesses in this directory.
//
// A harness `extern "C" void vc_harness_xyz()` states a contract of real functions of /repo:
//   inputs      vc_nondet_* (every value), vc_assume (precondition)
//   call        the real function(s), unmodified
//   ensure      vc_ensure / ensure_eq (postcondition)
// Symbolically (engine/) every path of harness + real code is explored and each ensure is a proof obligation.
// Natively (native.cpp) the same harness runs on the compiled real code: it replays counterexamples.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <vector>
#include <cmath>

extern "C" {
float vc_nondet_float(const char*);                       // any real number
double vc_nondet_double(const char*);
float vc_nondet_range(const char*, float lo, float hi);   // any real number in [lo,hi]
int vc_nondet_int(const char*, int lo, int hi);           // any integer in [lo,hi], symbolic
int vc_case(const char*, int lo, int hi);                 // any integer in [lo,hi], enumerated path by path
unsigned char vc_nondet_byte(const char*);
bool vc_nondet_bool(const char*);
void vc_unit_quat(const char*, float* wxyz);              // any unit quaternion
float* vc_array(const char*, long count, long strideBytes, int nfields);
bool vc_symbolic();                                       // true in the verifier, false natively
float vc_fresh_float(const char*);                        // unconstrained result of an abstracted callee
int vc_fresh_int(const char*);
bool vc_fresh_bool(const char*);
void vc_assume(bool);
void vc_ensure(bool, const char*);
void vc_ensure_eq(double, double, const char*);           // equal as real numbers (natively: up to rounding)
void vc_ensure_le(double, double, const char*);           // <=  (natively: up to rounding)
void vc_assert_lemma(bool, const char*);                  // proof step: proved, then available
bool vc_eq(double, double);
bool vc_le(double, double);
double vc_sin(double);
double vc_cos(double);
double vc_acos(double);                                   // argument known to be in [-1,1]
double vc_sqrt(double);                                   // argument known not to be negative
double vc_pi();
void vc_cover(const char*);                               // must be reachable
void vc_unreachable(const char*);
}
// short circuit operators create branches; these do not
static inline bool vc_and(bool a, bool b) { return a & b; }
static inline bool vc_or(bool a, bool b) { return a | b; }
static inline bool vc_implies(bool a, bool b) { return (!a) | b; }

#define VC_KEEP __attribute__((noinline, used))
#define VC_STUB(real) __attribute__((noinline, used, annotate("stub:" real)))
// the same, also when the contract is run natively
#define VC_MOCK(real) VC_STUB(real)
#define VC_INV(spec) extern "C" __attribute__((noinline, used, annotate("inv:" spec)))

#define VC_HARNESS(n) extern "C" VC_KEEP void vc_harness_##n()

namespace vc {
using namespace Eigen;
static inline Vector3f vec3(const char* n)
{
    Vector3f v;
    v(0) = vc_nondet_float((n)); v(1) = vc_nondet_float((n)); v(2) = vc_nondet_float((n));
    return v;
}
static inline Vector2f vec2(const char* n)
{
    Vector2f v;
    v(0) = vc_nondet_float(n); v(1) = vc_nondet_float(n);
    return v;
}
// polynomial rotation matrix of a unit quaternion (own definition, not the library's)
static inline Matrix3f rotOf(float w, float x, float y, float z)
{
    Matrix3f r;
    r(0,0) = 1 - 2*(y*y + z*z); r(0,1) = 2*(x*y - w*z);     r(0,2) = 2*(x*z + w*y);
    r(1,0) = 2*(x*y + w*z);     r(1,1) = 1 - 2*(x*x + z*z); r(1,2) = 2*(y*z - w*x);
    r(2,0) = 2*(x*z - w*y);     r(2,1) = 2*(y*z + w*x);     r(2,2) = 1 - 2*(x*x + y*y);
    return r;
}
static inline Matrix3f rot(const char* n)
{
    float q[4];
    vc_unit_quat(n, q);
    return rotOf(q[0], q[1], q[2], q[3]);
}
static inline Matrix4f poseOf(const Matrix3f& r, const Vector3f& t)
{
    Matrix4f m;
    for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) m(i,j) = r(i,j); m(i,3) = t(i); m(3,i) = 0; }
    m(3,3) = 1;
    return m;
}
// an arbitrary rigid pose
static inline Matrix4f pose(const char* n)
{
    Matrix3f r = rot(n);
    return poseOf(r, vec3(n));
}
static inline Matrix4f mul(const Matrix4f& a, const Matrix4f& b)
{
    Matrix4f m;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++)
        m(i,j) = a(i,0)*b(0,j) + a(i,1)*b(1,j) + a(i,2)*b(2,j) + a(i,3)*b(3,j);
    return m;
}
static inline Matrix3f mul3(const Matrix3f& a, const Matrix3f& b)
{
    Matrix3f m;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i,j) = a(i,0)*b(0,j) + a(i,1)*b(1,j) + a(i,2)*b(2,j);
    return m;
}
// inverse of a rigid pose
static inline Matrix4f rinv(const Matrix4f& a)
{
    Matrix4f m;
    for (int i = 0; i < 3; i++)
    {
        for (int j = 0; j < 3; j++) m(i,j) = a(j,i);
        m(i,3) = -(a(0,i)*a(0,3) + a(1,i)*a(1,3) + a(2,i)*a(2,3));
        m(3,i) = 0;
    }
    m(3,3) = 1;
    return m;
}
static inline Vector3f app(const Matrix4f& m, const Vector3f& p)
{
    return Vector3f(m(0,0)*p(0) + m(0,1)*p(1) + m(0,2)*p(2) + m(0,3), m(1,0)*p(0) + m(1,1)*p(1) + m(1,2)*p(2) + m(1,3), m(2,0)*p(0) + m(2,1)*p(1) + m(2,2)*p(2) + m(2,3));
}
static inline Vector3f app3(const Matrix3f& m, const Vector3f& p)
{
    return Vector3f(m(0,0)*p(0) + m(0,1)*p(1) + m(0,2)*p(2), m(1,0)*p(0) + m(1,1)*p(1) + m(1,2)*p(2), m(2,0)*p(0) + m(2,1)*p(1) + m(2,2)*p(2));
}
static inline float dot(const Vector3f& a, const Vector3f& b) { return a(0)*b(0) + a(1)*b(1) + a(2)*b(2); }
static inline Vector3f cross(const Vector3f& a, const Vector3f& b)
{
    return Vector3f(a(1)*b(2) - a(2)*b(1), a(2)*b(0) - a(0)*b(2), a(0)*b(1) - a(1)*b(0));
}
static inline void eq(double a, double b, const char* l) { vc_ensure_eq(a, b, l); }
template <class A, class B>
static inline void eqm(const A& a, const B& b, int r, int c, const char* l)
{
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vc_ensure_eq(a(i,j), b(i,j), l);
}
static inline void eq(const Vector3f& a, const Vector3f& b, const char* l) { for (int i = 0; i < 3; i++) vc_ensure_eq(a(i), b(i), l); }
static inline void eq(const Vector2f& a, const Vector2f& b, const char* l) { for (int i = 0; i < 2; i++) vc_ensure_eq(a(i), b(i), l); }
static inline void eq(const Matrix3f& a, const Matrix3f& b, const char* l) { eqm(a, b, 3, 3, l); }
static inline void eq(const Matrix4f& a, const Matrix4f& b, const char* l) { eqm(a, b, 4, 4, l); }
}
