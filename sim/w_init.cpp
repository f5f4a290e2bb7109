// w_init.cpp -- first uses (C14): every run is a new process in which no
// function of the library has been called; threads make the first calls, some
// of which fail. Each call shall give what it gives (the second time) in another
// new process which calls only that.
#define UNCERTAINTIES_EXTERN_UDOUBLE
#define UNCERTAINTIES_EXTERN_UDOUBLE2
#include "wl.h"
#include "wl_eigen.h"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/math.hpp>
#include "wl_math.h"
#include <array>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef PART
#define PART 0
#endif
namespace unc = uncertainties;
enum { NRES = 24 };
struct Res { int n; double v[NRES]; void add(long double x) { if (n < NRES) v[n++] = (double)x; } };
inline bool same(const Res &a, const Res &b) { if (a.n != b.n) return false; for (int i = 0; i < a.n; i++) if (!(a.v[i] == b.v[i] || (a.v[i] != a.v[i] && b.v[i] != b.v[i]))) return false; return true; }
enum { FNEW = 31, NFN = 47 };
// internal functions with tables which no public function uses at present, if they are there
namespace simfallback { inline int binom_coeff(...) { return -1; } template<typename T> T central_moments(const T &, ...) { return T(); } struct None {}; }
namespace uncertainties { namespace internal {} }
namespace simprobe {
using namespace simfallback; using namespace uncertainties::internal;
inline int binom(int n, int k) { return binom_coeff(n, k); }
inline void sum(Res &r, int) { r.add(0); }
template<typename A> void sum(Res &r, const A &a) { for (auto &x : a) r.add(ld(x)); }
template<typename R> void moments(Res &r, double s) { std::array<R, 8> z; for (int i = 0; i < 8; i++) z[i] = R(s + i); sum(r, central_moments(z)); }
}
typedef unc::UReal<double> T0; typedef unc::UReal<SimReal> T1; typedef unc::UReal2<double, unc::Prop::est> T2; typedef unc::UReal2<SimReal, unc::Prop::mean> T3; typedef unc::UReal2<float, unc::Prop::mean> T4; typedef unc::UReal<float> T5; typedef unc::UReal2<double, unc::Prop::mean> T6;
enum { NTYPE = 7 };
template<typename U> struct First {
    typedef typename U::real_type R;
    static U mk(double n, double s) { return U(R(n), R(s)); }
    static void put(Res &r, U x, const U &a, const U &b) { const U &c = x; r.add(ld(c.n())); r.add(ld(c.s())); r.add(ld(cov(c, a))); r.add(ld(cov(c, b))); r.add(ld(x.grad(a))); r.add(ld(corr(c, a))); }
    static bool extra(int, Res &, double, double) { return false; }
};
template<typename R_, unc::Prop p> struct First<unc::UReal2<R_, p>> {
    typedef R_ R; typedef unc::UReal2<R_, p> U;
    static U mk(double n, double s) { double q = s * s; return U(R(n), std::array<R, 7>{{R(q), R(0), R(3 * q * q), R(0), R(15 * q * q * q), R(0), R(105 * q * q * q * q)}}, R(-1)); }
    static void put(Res &r, const U &c, const U &a, const U &b) { r.add(ld(c.first_order_n())); r.add(ld(c.n())); for (int k = 2; k <= 4; k++) r.add(ld(c.m(k))); r.add(ld(cov(c, a))); r.add(ld(c.grad(a))); r.add(ld(c.hess(a, b))); r.add(ld(c.hess(a, a))); }
    static bool extra(int f, Res &r, double n, double s) {
        switch (f - FNEW) {
        case 0: { U x = unc::distr::normal<U>(R(n), R(s)); put(r, x, x, x); put(r, x * x, x, x); return true; }
        case 1: { U x = unc::distr::uniform<U>(R(n), R(n + s)); put(r, x, x, x); put(r, x * x, x, x); return true; }
        case 2: { U x = unc::distr::chisquare<U>(1 + int(s * 5)); put(r, x, x, x); put(r, x * x, x, x); return true; }
        case 3: { double q = s * s; U x(R(n), R(s), std::array<R, 6>{{R(0), R(3), R(0), R(15), R(0), R(105)}}, R(q < 0)); put(r, x, x, x); put(r, x * x, x, x); return true; }
        case 4: { U x = mk(n, s), y = mk(s, 1), z = mk(1, 1); U w = x * y + z; r.add(ld(w.hess(z, x))); r.add(ld(w.hess(x, y))); r.add(ld(w.grad(U()))); r.add(ld(w.m(4))); put(r, w, x, y); return true; }
        case 5: { bool t = false; try { U x(R(1), R(1), std::array<R, 6>{{R(9), R(1), R(0), R(1), R(0), R(1)}}); } catch (const SimFault &) { throw; } catch (const std::invalid_argument &) { t = true; } r.add(t); return true; }
        }
        return false;
    }
};
template<typename U> void call(int f, double n, double s, Res &r) {
    typedef First<U> F; r.n = 0;
    if (F::extra(f, r, n, s)) return;
    U x = F::mk(n, s), y = F::mk(s + .3, .7);
    if (f < NFUN1) { if (!fun1_ok(f, n)) f = pick1(f, n); F::put(r, apply1(f < 0 ? 1 : f, x), x, y); }
    else if (f < NFUN1 + NFUN2) F::put(r, apply2(f - NFUN1, abs(x) + typename U::real_type(2), y), x, y);
    else switch (f - NFUN1 - NFUN2) {
    case 6: { std::string t = unc::format(x, 2.0f, "+-"); for (char c : t) r.v[0] = r.n ? r.v[0] * 31 + c : c, r.n = 1; break; }
    case 7: { U z = x * y; F::put(r, -z + x, x, y); F::put(r, z / x, x, y); break; }
    case 8: r.add(isfinite(x)); r.add(isnormal(x)); break;
    case 9: { U z; r.add(ld(cov(z, x))); F::put(r, z + x, x, y); break; }
    case 14: { int a = int(n * 20) % 9, b = int(s * 20) % (a + 1); r.add(simprobe::binom(a, b)); break; }
    case 15: simprobe::moments<typename U::real_type>(r, s); break;
    default: { U z = x; z = z + y; F::put(r, z, x, y); F::put(r, U(x), x, y); } }
}

#if PART == 1
template void call<T2>(int, double, double, Res &); template void call<T6>(int, double, double, Res &);
#elif PART == 2
template void call<T3>(int, double, double, Res &);
#elif PART == 3
template void call<T1>(int, double, double, Res &); template void call<T4>(int, double, double, Res &);
#else
extern template void call<T2>(int, double, double, Res &); extern template void call<T6>(int, double, double, Res &);
extern template void call<T3>(int, double, double, Res &);
extern template void call<T1>(int, double, double, Res &); extern template void call<T4>(int, double, double, Res &);
const char *const w_name = "init";
enum Kind { CALL, NKIND };
static const char *const names[] = {"call", 0};
const char *const *const w_ops = names;
void w_warm() { std::ostringstream s; s << 1.5 << " " << 3 << "x"; std::string t = s.str(); }

static void any(int type, int f, double n, double s, Res &r) {
    switch (type % NTYPE) { case 0: call<T0>(f, n, s, r); break; case 1: call<T1>(f, n, s, r); break; case 2: call<T2>(f, n, s, r); break; case 3: call<T3>(f, n, s, r); break; case 4: call<T4>(f, n, s, r); break; case 5: call<T5>(f, n, s, r); break; default: call<T6>(f, n, s, r); }
}
static const Plan *PP; static Res *ref;   // shared with the other processes
static void alone(const Op &o, Res *r) {
    pid_t pid = fork();
    if (pid == 0) { alarm(20); rt_enter(0); try { any(o.i[0], o.i[1] % NFN, o.d[0], o.d[1], *r); any(o.i[0], o.i[1] % NFN, o.d[0], o.d[1], *r); } catch (...) { r->n = -1; } _exit(0); }
    int st; if (pid < 0) _exit(3);
    while (waitpid(pid, &st, 0) < 0) ;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { r->n = -2; rt_result()->violated = 0; }
}
static void step(const Op &o, const Res &want, bool count) {
    rt_setop("call %d %d", o.i[0] % NTYPE, o.i[1] % NFN);
    if (want.n < 0) return;      // this call does not work at all: not a matter of first use
    Res r; std::memset(&r, 0, sizeof r);
    attempt("call", o, [&] { any(o.i[0], o.i[1] % NFN, o.d[0], o.d[1], r); }, [](int) {});
    NoSut n; if (count) { rt_count_op(); rt_count_check(); }
    for (int i = 0; i < r.n || i < want.n; i++) if (i >= r.n || i >= want.n || !(r.v[i] == want.v[i] || (r.v[i] != r.v[i] && want.v[i] != want.v[i])))
        FAIL("wrong-value", "function %d of type %d gave %.17g as result %d, and gives %.17g when everything has been initialised", o.i[1] % NFN, o.i[0] % NTYPE, i < r.n ? r.v[i] : 0, i, i < want.n ? want.v[i] : 0);
}
static void thread(int t) { for (size_t i = 0; i < PP->ops.size(); i++) if (PP->ops[i].t == t) step(PP->ops[i], ref[i], true); }
void w_run(const Plan &p) {
    PP = &p; size_t n = p.ops.size();
    ref = (Res *)mmap(0, (n + 1) * sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (size_t i = 0; i < n; i++) {
        size_t j = 0; while (j < i && !(p.ops[j].i[0] % NTYPE == p.ops[i].i[0] % NTYPE && p.ops[j].i[1] % NFN == p.ops[i].i[1] % NFN && p.ops[j].d[0] == p.ops[i].d[0] && p.ops[j].d[1] == p.ops[i].d[1])) j++;
        if (j < i) ref[i] = ref[j]; else alone(p.ops[i], &ref[i]);
    }
    if (p.cfg[1]) for (size_t i = 0; i < n; i++) { Res r; try { any(p.ops[i].i[0], p.ops[i].i[1] % NFN, p.ops[i].d[0], p.ops[i].d[1], r); } catch (...) {} }
    thread(0); rt_spawn(p.nthr, thread); thread(POST);
}
int w_attrib(const Plan &, const std::string &, Plan &n) { n.cfg[1] = 1; return 1; }   // does it vanish if everything was initialised before?
void w_gen(Plan &p, Rng &r, bool thorough) {
    p.nthr = r.chance(85) ? r.range(2, r.chance(25) ? 4 : 3) : 0; int len = r.range(1, thorough ? 5 : 3);
    // a few functions, so that threads meet in them
    struct { int t, f; } c[4]; int nc = r.range(1, 4);
    static const int st[] = {2, 5, 6, 22, 23, FNEW, FNEW + 1, FNEW + 2, FNEW + 4, NFN - 2, NFN - 1};
    for (int i = 0; i < nc; i++) { c[i].t = r.below(NTYPE); c[i].f = r.chance(50) ? st[r.below(11)] : r.below(NFN); }
    double x = r.uniform(.3, 3), s = r.uniform(.2, 1.5); int fault = r.chance(40) ? 40 : 0;
    auto add = [&](int t) {
        Op o; int k = r.below(nc); o.t = t; o.i[0] = c[k].t; o.i[1] = c[k].f; if (r.chance(10)) o.i[0] = r.below(NTYPE);
        o.d[0] = r.chance(50) ? x : r.uniform(.3, 3); o.d[1] = r.chance(50) ? s : r.uniform(.2, 1.5);
        if (r.chance(fault)) { o.fk = (o.i[0] == 1 || o.i[0] == 3) && r.chance(75) ? F_NUM : F_ALLOC; o.fn = r.chance(60) ? r.range(1, 12) : r.range(1, 80); o.fp = r.chance(20); o.fs = r.chance(15); }
        repeat(p, o, r, 12);
        p.ops.push_back(o);
    };
    if (p.nthr == 0) for (int i = 0; i < 2 + len; i++) add(0);
    for (int t = 1; t <= p.nthr; t++) for (int i = 0; i < len; i++) add(t);
    for (int i = r.range(0, 2); i > 0; i--) add(POST);
}
#endif
