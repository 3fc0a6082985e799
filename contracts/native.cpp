// Native runtime of the contract language: runs a harness against the compiled real code of /repo.
// usage: native HARNESS TRIALS SEED [MODELFILE]   - exit 0: no failing input, 10: failing input (printed)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <random>
#include <csignal>
#include <csetjmp>
#include <unistd.h>
#include <execinfo.h>
struct VcAbort {};
struct VcReg { const char* name; void (*fn)(); };
extern VcReg vc_registry[];

static std::mt19937_64 rng;
static std::map<std::string, double> model;
static bool useModel = false;
static std::map<std::string, int> cnt;
static std::vector<std::pair<std::string, double>> log_;
static std::vector<double> pool;
static std::set<std::string> covers;
static long ensures_ = 0, assumesFailed = 0;
static std::string failLabel;
static double failA = 0, failB = 0;
static bool failed = false;
static int mode_ = 0;
static double U() { return std::uniform_real_distribution<double>(0, 1)(rng); }
static std::string key(const char* n)
{
    int k = cnt[n]++;
    if (k == 0) return n;
    return std::string(n) + "#" + std::to_string(k);
}
static bool fromModel(const std::string& k, double& v)
{
    if (!useModel) return false;
    auto it = model.find(k);
    if (it == model.end()) return false;
    v = it->second;
    return true;
}
static double rnd()
{
    double r = U();
    static const double sp[] = {0, 0, 1, -1, 0.5, -0.5, 2, -2, 3, 0.25};
    if (mode_ == 1) r = 0.05 + 0.25 * r;      // mostly special values
    if (r < 0.22) return sp[rng() % 10];
    if (r < 0.30 && !pool.empty()) { double v = pool[rng() % pool.size()]; return rng() % 4 ? v : -v; }
    if (r < 0.80) return U() * 4 - 2;
    if (r < 0.95) return U() * 20 - 10;
    return U() * 400 - 200;
}
static double note(const std::string& k, double v)
{
    log_.push_back(std::make_pair(k, v));
    return v;
}
extern "C" {
float vc_nondet_float(const char* n)
{
    std::string k = key(n);
    double v;
    if (!fromModel(k, v)) v = rnd();
    float f = (float)v;
    pool.push_back(f);
    note(k, f);
    return f;
}
double vc_nondet_double(const char* n)
{
    std::string k = key(n);
    double v;
    if (!fromModel(k, v)) v = rnd();
    pool.push_back(v);
    return note(k, v);
}
float vc_nondet_range(const char* n, float lo, float hi)
{
    std::string k = key(n);
    double v;
    if (!fromModel(k, v))
    {
        double r = U();
        if (r < 0.06) v = lo; else if (r < 0.12) v = hi; else if (r < 0.2) { v = rnd(); if (!(v >= lo && v <= hi)) v = lo + U() * ((double)hi - lo); }
        else v = lo + U() * ((double)hi - lo);
    }
    float f = (float)v;
    if (f < lo) f = lo;
    if (f > hi) f = hi;
    pool.push_back(f);
    note(k, f);
    return f;
}
int vc_nondet_int(const char* n, int lo, int hi)
{
    std::string k = key(n);
    double v;
    long i;
    if (fromModel(k, v)) i = (long)v;
    else
    {
        double r = U();
        if (r < 0.1) i = lo; else if (r < 0.2) i = hi;
        else if (r < 0.5) i = lo + (long)(rng() % (unsigned long)(std::min<long>((long)hi - lo, 8) + 1));
        else i = lo + (long)(rng() % ((unsigned long)((long)hi - lo) + 1));
    }
    if (i < lo) i = lo;
    if (i > hi) i = hi;
    note(k, (double)i);
    return (int)i;
}
int vc_case(const char* n, int lo, int hi) { return vc_nondet_int(n, lo, hi); }
unsigned char vc_nondet_byte(const char* n)
{
    std::string k = key(n);
    double v;
    long i;
    if (fromModel(k, v)) i = (long)v & 255;
    else { static const int sp[] = {0, 1, 255, 127, 128, 254, 2}; i = U() < 0.6 ? sp[rng() % 7] : (long)(rng() % 256); }
    note(k, (double)i);
    return (unsigned char)i;
}
bool vc_nondet_bool(const char* n)
{
    std::string k = key(n);
    double v;
    bool b;
    if (fromModel(k, v)) b = v != 0;
    else b = rng() & 1;
    note(k, b);
    return b;
}
void vc_unit_quat(const char* n, float* q)
{
    std::string k = key(n);
    static const char* sfx[] = {".w", ".x", ".y", ".z"};
    double v[4];
    bool all = true;
    for (int i = 0; i < 4; i++) all = fromModel(k + sfx[i], v[i]) && all;
    if (!all)
    {
        double r = U();
        if (mode_ == 1) r *= 0.5;
        if (r < 0.1) { v[0] = 1; v[1] = v[2] = v[3] = 0; }
        else if (r < 0.2) { for (int i = 0; i < 4; i++) v[i] = 0; v[rng() % 4] = 1; }
        else if (r < 0.3) { for (int i = 0; i < 4; i++) v[i] = 0; v[rng() % 4] = 1; v[rng() % 4] += (rng() & 1) ? 1 : -1; }
        else if (r < 0.4) { double a = U() * 6.28; for (int i = 0; i < 4; i++) v[i] = 0; v[0] = cos(a); v[1 + rng() % 3] = sin(a); }
        else for (int i = 0; i < 4; i++) v[i] = U() * 2 - 1;
    }
    double l = sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3]);
    if (l < 1e-6) { v[0] = 1; v[1] = v[2] = v[3] = 0; l = 1; }
    for (int i = 0; i < 4; i++) { q[i] = (float)(v[i] / l); note(k + sfx[i], q[i]); }
}
float* vc_array(const char* n, long count, long strideBytes, int nfields)
{
    char* p = (char*)operator new(count * strideBytes);
    for (long i = 0; i < count; i++) for (int f = 0; f < nfields; f++) *(float*)(p + i * strideBytes + 4 * f) = vc_nondet_float(n);
    return (float*)p;
}
bool vc_symbolic() { return false; }
float vc_fresh_float(const char* n) { return vc_nondet_float(n); }
int vc_fresh_int(const char* n) { return vc_nondet_int(n, -1000, 1000); }
bool vc_fresh_bool(const char* n) { return vc_nondet_bool(n); }
void vc_assume(bool b) { if (!b) { assumesFailed++; throw VcAbort(); } }
static void fail(const char* l, double a, double b)
{
    failLabel = l; failA = a; failB = b; failed = true;
    throw VcAbort();
}
void vc_ensure(bool b, const char* l) { ensures_++; covers.insert(l); if (!b) fail(l, 0, 1); }
static double tol = 4e-3;
void vc_ensure_eq(double a, double b, const char* l)
{
    ensures_++;
    covers.insert(l);
    if (a == b) return;
    double d = fabs(a - b);
    if (!(d <= tol * (1 + fabs(a) + fabs(b)))) fail(l, a, b);
}
void vc_ensure_le(double a, double b, const char* l)
{
    ensures_++;
    covers.insert(l);
    if (!(a <= b + tol * (1 + fabs(a) + fabs(b)))) fail(l, a, b);
}
void vc_assert_lemma(bool, const char*) {}
bool vc_eq(double a, double b) { return fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)); }
bool vc_le(double a, double b) { return a <= b + tol * (1 + fabs(a) + fabs(b)); }
double vc_sin(double a) { return sin(a); }
double vc_cos(double a) { return cos(a); }
double vc_acos(double a) { return acos(a > 1 ? 1 : a < -1 ? -1 : a); }
double vc_sqrt(double a) { return sqrt(a < 0 ? 0 : a); }
double vc_pi() { return M_PI; }
void vc_cover(const char* l) { covers.insert(l); }
void vc_unreachable(const char* l) { fail(l, 0, 1); }
}
static const char* hname;
static int outfd = 1;
static void dump(const char* why)
{
    dprintf(outfd, "FAIL %s\n", why);
    for (auto& p : log_) dprintf(outfd, "INPUT %s %.17g\n", p.first.c_str(), p.second);
}
static void onsig(int s)
{
    char b[100];
    snprintf(b, sizeof b, "%s (signal %d)", s == SIGALRM ? "no termination within 10 s" : "crash of the real code", s);
    dump(b);
    _exit(10);
}
int main(int argc, char** argv)
{
    if (argc < 4) { for (VcReg* r = vc_registry; r->name; r++) printf("%s\n", r->name); return 2; }
    hname = argv[1];
    long trials = atol(argv[2]);
    unsigned long seed = strtoul(argv[3], 0, 10);
    if (argc > 4)
    {
        FILE* f = fopen(argv[4], "r");
        char n[1000];
        double v;
        while (f && fscanf(f, "%999s %lf", n, &v) == 2) model[n] = v;
        if (f) fclose(f);
    }
    double limit = argc > 5 ? atof(argv[5]) : 1e9;
    void (*fn)() = 0;
    for (VcReg* r = vc_registry; r->name; r++) if (!strcmp(r->name, hname)) fn = r->fn;
    if (!fn) { printf("NOHARNESS\n"); return 2; }
    freopen("/dev/null", "w", stderr);
    int sigs[] = {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM};
    static char altstack[65536];
    stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0;
    sigaltstack(&ss, 0);
    for (int s : sigs) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, 0); }
    long done = 0, full = 0;
    // redirect what the library prints
    fflush(stdout);
    int out = dup(1);
    outfd = out;
    FILE* devnull = freopen("/dev/null", "w", stdout);
    (void)devnull;
    time_t t0 = time(0);
    bool bad = false;
    for (long t = 0; t < trials; t++)
    {
        rng.seed(seed * 1000003ul + t);
        cnt.clear(); log_.clear(); pool.clear();
        useModel = (argc > 4 && !model.empty() && (t == 0 || (t % 8 == 1 && t < 400)));
        mode_ = t % 3 == 2;
        alarm(10);
        try { fn(); full++; }
        catch (VcAbort&) {}
        catch (...) { failed = true; failLabel = "uncaught exception"; }
        alarm(0);
        done++;
        if (failed) { bad = true; break; }
        if ((t & 63) == 0 && difftime(time(0), t0) > limit) break;
    }
    fflush(stdout);
    dup2(out, 1);
    if (bad) { char b[600]; snprintf(b, sizeof b, "%s (values %.9g and %.9g)", failLabel.c_str(), failA, failB); dump(b); return 10; }
    printf("OK trials %ld complete %ld ensures %ld assume-rejected %ld\n", done, full, ensures_, assumesFailed);
    for (auto& c : covers) printf("COVER %s\n", c.c_str());
    return 0;
}
