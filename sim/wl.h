// wl.h -- what the workloads share: plans, random numbers, numerical types.
#ifndef SIM_WL_H
#define SIM_WL_H
#include "rt.h"
#include <system_error>
#include <memory>
#include <ios>
#include <typeinfo>
#include <functional>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <limits>
#include <new>
#include <ostream>
#include <stdexcept>

struct Rng {   // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed): s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return n <= 1 ? 0 : int(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
};

enum { POST = 99, NI = 6, ND = 4, NCFG = 12 };
struct Op {
    int t, kind, i[NI]; double d[ND];
    int fk, fn, fp, fs;     // fault: kind, nth, persistent, sweep over every nth
    Op(): t(0), kind(0), fk(0), fn(0), fp(0), fs(0) { std::memset(i, 0, sizeof i); for (int k = 0; k < ND; k++) d[k] = 0; }
};
struct Plan {
    std::string prop; int cfg[NCFG]; int nthr, garbage, rot;
    std::vector<Op> ops; std::vector<RtPre> pre; std::vector<RtWeak> weak;
    Plan(): nthr(0), garbage(0xA5), rot(0) { std::memset(cfg, 0, sizeof cfg); }
};

// provided by each workload
extern const char *const w_name;
extern const char *const *const w_ops;       // operation names, null-terminated
void w_warm();                               // once, before any fork: fill the caches of the C++ library
void w_gen(Plan &p, Rng &r, bool thorough);  // fill cfg, ops and nthr for p.prop
void w_run(const Plan &p);                   // in the child, between rt_begin and rt_finish
// Does a violation of this class break p.prop? 0 yes; 1 only if the plan `neutral` (the
// same program without what the property is about) does not fail too; 2 no.
int w_attrib(const Plan &p, const std::string &cls, Plan &neutral);
bool w_norace(const Plan &p);                 // optional: data races are not reported for this property
inline bool memory_class(const std::string &c) { return c == "use-after-free" || c == "out-of-bounds" || c == "double-free" || c == "bad-free" || c == "free-mismatch" || c.compare(0, 5, "crash") == 0; }
inline void no_faults(Plan &p) { for (auto &o : p.ops) o.fk = o.fn = o.fp = o.fs = 0; }
inline void no_schedule(Plan &p) { p.pre.clear(); p.weak.clear(); }

#define FAIL rt_violation
inline bool close_to(long double a, long double b, long double tol) {
    if (a == b) return true;
    if (std::isnan((double)a) || std::isnan((double)b)) return std::isnan((double)a) && std::isnan((double)b);
    return std::fabs(a - b) <= (tol > 0 ? tol + 1e-30L : 0);   // the constant allows for underflow with float
}

// The exception thrown by seams: it can be told from anything the library throws.
struct SimFault { int where; int serial; SimFault(int w, int s): where(w), serial(s) {} };
// It may look like the exceptions of the standard library, whose meaning to the library
// (if any) it has not.
template<typename E> struct SimFaultAs: E, SimFault { template<typename... A> SimFaultAs(int w, int s, A... a): E(a...), SimFault(w, s) {} };
template<typename T> struct SimFlavour { static int v; }; template<typename T> int SimFlavour<T>::v = 0;
static int &sim_flavour = SimFlavour<void>::v;
[[noreturn]] inline void throw_as(int flavour, int where, int n) {
    switch ((flavour % 22 + 22) % 22) {
    case 0: throw SimFaultAs<std::length_error>(where, n, "injected"); case 1: throw SimFaultAs<std::out_of_range>(where, n, "injected"); case 2: throw SimFaultAs<std::invalid_argument>(where, n, "injected");
    case 3: throw SimFaultAs<std::runtime_error>(where, n, "injected"); case 4: throw SimFaultAs<std::domain_error>(where, n, "injected"); case 5: throw SimFaultAs<std::bad_alloc>(where, n);
    case 6: throw SimFaultAs<std::overflow_error>(where, n, "injected"); case 7: throw SimFaultAs<std::exception>(where, n);
    case 8: throw SimFaultAs<std::range_error>(where, n, "injected"); case 9: throw SimFaultAs<std::underflow_error>(where, n, "injected"); case 10: throw SimFaultAs<std::logic_error>(where, n, "injected"); case 11: throw SimFaultAs<std::bad_function_call>(where, n); case 12: throw SimFaultAs<std::bad_cast>(where, n);
    case 13: throw SimFaultAs<std::bad_typeid>(where, n); case 14: throw SimFaultAs<std::bad_exception>(where, n); case 15: throw SimFaultAs<std::bad_array_new_length>(where, n); case 16: throw SimFaultAs<std::ios_base::failure>(where, n, "injected");
    case 17: throw SimFaultAs<std::system_error>(where, n, std::make_error_code(std::errc::interrupted)); case 18: throw SimFaultAs<std::bad_weak_ptr>(where, n); default: throw SimFault(where, n); }
}
[[noreturn]] inline void throw_fault(int where, int n) { throw_as(sim_flavour + n, where, n); }

// A user numerical type: allocates its value on the heap, like a
// multiprecision number, and its arithmetic may throw where the plan says so.
namespace simreal {
struct SimReal {
    double *p; int st;      // st: 0x600D if it was constructed
    static void step(int code) {
        int on = rt_enter(0); bool due = false; int n = 0;
        if (on) { rt_event(0x77, code); due = rt_fault_point(F_NUM); n = due ? rt_fault_count() : 0; }
        rt_enter(on);
        if (due) throw_fault(1, n);
    }
    static double *mk(double v) { double *q = new double; *q = v; return q; }
    double v() const { if (st != 0x600D) rt_violation("unconstructed", "a number was read before being constructed"); return p ? *p : 0.0; }
    SimReal(): p(mk(0)), st(0x600D) {}
    SimReal(double x): p(mk(x)), st(0x600D) {}
    SimReal(int x): p(mk(x)), st(0x600D) {}
    SimReal(const SimReal &o): p(nullptr), st(0x600D) { step(1); p = mk(o.v()); }
    SimReal(SimReal &&o) noexcept: p(o.p), st(0x600D) { o.p = nullptr; }
    SimReal &operator=(const SimReal &o) { step(2); if (!p) p = mk(o.v()); else *p = o.v(); return *this; }
    SimReal &operator=(SimReal &&o) noexcept { double *q = p; p = o.p; o.p = q; return *this; }
    ~SimReal() { delete p; }
    explicit operator int() const { return int(v()); }
    explicit operator float() const { return float(v()); }
    explicit operator double() const { return v(); }
    explicit operator long double() const { return v(); }
#define SRA(op) SimReal &operator op##=(const SimReal &o) { step(3); double r = v() op o.v(); if (!p) p = mk(r); else *p = r; return *this; } \
    friend SimReal operator op(const SimReal &a, const SimReal &b) { step(4); return SimReal(a.v() op b.v()); }
    SRA(+) SRA(-) SRA(*) SRA(/)
    friend SimReal operator-(const SimReal &a) { step(5); return SimReal(-a.v()); }
    friend SimReal operator+(const SimReal &a) { return a; }
#define SRC(op) friend bool operator op(const SimReal &a, const SimReal &b) { step(6); return a.v() op b.v(); }
    SRC(==) SRC(!=) SRC(<) SRC(>) SRC(<=) SRC(>=)
#define SRF(f) friend SimReal f(const SimReal &a) { step(7); return SimReal(std::f(a.v())); }
    SRF(sqrt) SRF(abs) SRF(exp) SRF(log) SRF(sin) SRF(cos) SRF(floor) SRF(log10) SRF(round) SRF(tan) SRF(atan) SRF(exp2) SRF(log2) SRF(erf) SRF(erfc) SRF(cbrt) SRF(tanh) SRF(trunc) SRF(log1p) SRF(expm1) SRF(sinh) SRF(cosh) SRF(asinh) SRF(asin) SRF(acos) SRF(acosh) SRF(atanh)
#define SRF2(f) friend SimReal f(const SimReal &a, const SimReal &b) { step(8); return SimReal(std::f(a.v(), b.v())); }
    SRF2(pow) SRF2(fmod) SRF2(atan2) SRF2(hypot) SRF2(fmax) SRF2(fmin) SRF2(remainder)
    friend bool isfinite(const SimReal &a) { return std::isfinite(a.v()); }
    friend bool isnan(const SimReal &a) { return std::isnan(a.v()); }
    friend bool isinf(const SimReal &a) { return std::isinf(a.v()); }
    friend bool isnormal(const SimReal &a) { return std::isnormal(a.v()); }
};
inline std::ostream &operator<<(std::ostream &s, const SimReal &x) { return s << x.v(); }
}
using simreal::SimReal;
namespace std { template<> class numeric_limits<SimReal>: public numeric_limits<double> {
public: static SimReal epsilon() { return SimReal(numeric_limits<double>::epsilon()); } static SimReal max() { return SimReal(numeric_limits<double>::max()); } static SimReal min() { return SimReal(numeric_limits<double>::min()); } static SimReal lowest() { return SimReal(numeric_limits<double>::lowest()); } static SimReal infinity() { return SimReal(numeric_limits<double>::infinity()); } static SimReal quiet_NaN() { return SimReal(numeric_limits<double>::quiet_NaN()); } }; }

// Runs an operation of the library with the faults of o (every nth of them if it
// is a sweep), then without. `unchanged` is called after every failure.
template<typename F, typename C> void attempt(const char *what, const Op &o, F f, C unchanged) {
    int lim = 0;
    for (int n = o.fs ? 1 : o.fn; o.fk; n += n < 60 ? 1 : n < 200 ? 7 : 31) {
        const char *got = "nothing"; bool threw = false;
        sim_flavour = o.i[5]; rt_fault_arm(o.fk, n, o.fp);
        try { Sut s; f(); }
        catch (const SimFault &) { threw = true; got = "the exception of the seam"; }
        catch (const std::bad_alloc &) { threw = true; got = "std::bad_alloc"; }
        catch (const std::exception &) { threw = true; got = "another exception"; }
        catch (...) { threw = true; got = "an unknown exception"; }
        int fired = rt_fault_disarm();
        if (threw && !fired) FAIL("unexpected-exception", "%s: threw %s although nothing failed", what, got);
        if (fired && o.fk == F_ALLOC && threw && strcmp(got, "std::bad_alloc")) FAIL("wrong-exception", "%s: memory exhausted at allocation %d, threw %s", what, n, got);
        if (fired && o.fk != F_ALLOC && strncmp(got, "the exc", 7)) FAIL("wrong-exception", "%s: injected exception at step %d, the caller got %s", what, n, got);
        if (!threw) return;
        { NoSut ns; unchanged(n); }
        if (!o.fs || ++lim > 400) break;
    }
    try { Sut s; f(); }
    catch (const std::exception &e) { FAIL("unexpected-exception", "%s: threw %s", what, e.what()); }
    catch (...) { FAIL("unexpected-exception", "%s: threw", what); }
}

// a seam: user code called by the library, which may throw where the plan says so
inline void seam(int kind, int code) {
    int on = rt_enter(0); bool due = false; int n = 0;
    if (on) { rt_event(0x88, code); due = rt_fault_point(kind); n = due ? rt_fault_count() : 0; }
    rt_enter(on);
    if (due) throw_fault(2, n);
}

// Now and then something already done is done again, with at most a little difference.
inline void repeat(const Plan &p, Op &o, Rng &r, int pct) {
    if (p.ops.empty() || !r.chance(pct)) return;
    size_t n = p.ops.size(), j = r.chance(60) ? n - 1 : r.below(n); int t = o.t; o = p.ops[j]; o.t = t;
    switch (r.below(5)) { case 0: break; case 1: o.d[r.below(ND)] *= r.uniform(.9, 1.1); break; case 2: { int k = r.below(NI); o.i[k] += o.i[k] > 0 && r.chance(50) ? -1 : 1; break; } default: o.i[r.below(NI)] = r.below(60); }
}

inline long double ld(double x) { return x; }
inline long double ld(float x) { return x; }
inline long double ld(long double x) { return x; }
inline long double ld(const SimReal &x) { return x.v(); }
#endif
