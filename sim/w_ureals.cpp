// w_ureals.cpp -- ureals (C12): calls with matrices of all kinds, in threads,
// with memory, arithmetic and containers that fail.
#define UNCERTAINTIES_EXTERN_UDOUBLE
#include "wl.h"
#include "wl_eigen.h"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/stat.hpp>
#include <deque>
#include <memory>
#include <sstream>
#include <algorithm>

#ifndef PART
#define PART 0
#endif
namespace unc = uncertainties;
typedef long double LD;
enum Kind { UREALS, INVALID, MAKE, COMBINE, DESTROY, NKIND };
static const char *const names[] = {"ureals", "invalid", "make", "combine", "destroy", 0};
enum { NSL = 5 };

template<typename R> struct In: std::vector<R> {
    In() {}
    const R &operator[](size_t i) const { seam(F_ITER, 1); return std::vector<R>::operator[](i); }
};
template<typename U> struct Out: std::vector<U> {
    typedef std::vector<U> V;
    Out() {}
    explicit Out(size_t n): V((seam(F_ITER, 2), n)) {}
    Out(const Out &o): V((seam(F_ITER, 3), o)) {}
    Out(Out &&o): V(std::move(o)) {}
    Out &operator=(const Out &) = default;
    Out &operator=(Out &&) = default;
    template<typename... A> void emplace_back(A &&...a) { seam(F_ITER, 4); V::emplace_back(std::forward<A>(a)...); }
    void push_back(const U &u) { seam(F_ITER, 5); V::push_back(u); }
    void push_back(U &&u) { seam(F_ITER, 6); V::push_back(std::move(u)); }
};

// a matrix drawn from its kind, size and seed
struct Mat { int n; std::vector<double> mu, c; bool exact, maythrow; LD scale; };
inline Mat matrix(int kind, int n, uint64_t seed, int lim) {
    Rng r(seed * 977 + n); r.next();
    Mat m; m.n = n; m.mu.resize(n); m.c.assign(n * n, 0); m.exact = m.maythrow = false;
    for (auto &x : m.mu) x = r.uniform(-3, 3);
    auto C = [&](int i, int j) -> double & { return m.c[i + n * j]; };
    std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[r.below(i + 1)]);
    switch (kind) {
    case 1: for (int i = 0; i < n; i++) C(i, i) = r.chance(25) ? 0 : r.chance(40) ? 1 : r.uniform(.01, 4); break;                            // diagonal
    case 2: {   // singular blocks of exact numbers: multiples of the same variable
        for (int i = 0; i < n; ) {
            int b = r.range(1, 3); if (b > n - i) b = n - i;
            double v = r.chance(15) ? 0 : std::ldexp(1.0, 2 * r.range(-2, 2)), k[3]; for (double &x : k) x = (r.chance(50) ? 1 : -1) * std::ldexp(1.0, r.range(-1, 1));
            for (int p = 0; p < b; p++) for (int q = 0; q < b; q++) C(perm[i + p], perm[i + q]) = v * k[p] * k[q];
            i += b;
        } m.maythrow = true; break; }
    default: {  // A A^T + d, scaled
        int rank = kind == 4 ? (n > 1 ? r.range(1, n - 1) : 1) : n;
        std::vector<double> A(n * n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < rank; j++) A[i * n + j] = r.uniform(-1, 1);
        for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = 0; for (int k = 0; k < n; k++) s += A[i * n + k] * A[j * n + k]; if (i == j && kind != 4) s += .3; C(i, j) = C(j, i) = s; }
        if (kind == 6) {    // a band: variables are correlated only with those nearby, in some order
            int w = 1 + r.below(2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (j > i || j < i - w) A[i * n + j] = 0;
            bool sh = r.chance(40); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += A[i * n + k] * A[j * n + k]; if (i == j) s += .3; C(sh ? perm[i] : i, sh ? perm[j] : j) = s; } }
        if (kind == 3) { std::vector<double> sc(n); for (auto &x : sc) x = std::ldexp(1.0, r.range(-6, 6)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) C(i, j) *= sc[i] * sc[j]; }
        if (kind == 5 && n > 2) { int z = r.below(n); for (int i = 0; i < n; i++) C(i, z) = C(z, i) = 0; C(z, z) = r.chance(50) ? 0 : 2; }        // one uncorrelated with the others
        m.maythrow = kind == 4; }
    }
    if (r.chance(30)) { double f = std::ldexp(1.0, 2 * r.range(-lim, lim)); for (auto &x : m.c) x *= f; }      // other units
    if (r.chance(15)) { double f = std::ldexp(1.0, r.range(-lim, lim)); for (auto &x : m.mu) x *= f; }
    if (r.chance(15)) for (auto &x : m.mu) if (r.chance(40)) x = 0;
    return m;
}
// what is wrong: 0..3 sizes, others not positive semidefinite
inline Mat invalid(int kind, int n, uint64_t seed, int lim) {
    Mat m = matrix(0, n, seed, lim); Rng r(seed * 131 + n); r.next(); int a = r.below(n), b = r.below(n); if (n > 1) while (b == a) b = r.below(n);
    auto C = [&](int i, int j) -> double & { return m.c[i + n * j]; };
    const double nan = std::numeric_limits<double>::quiet_NaN();
    switch (kind) {
    case 0: m.c.pop_back(); break;
    case 1: m.c.push_back(1); break;
    case 2: if (r.chance(50)) m.mu.clear(); else if (n == 1) m.c.clear(); else m.c.resize(n); break;
    case 3: m.c.resize(r.chance(50) ? n * (n + 1) : 2 * n * n, 1); break;
    case 4: C(a, a) = -C(a, a) - .1; break;
    case 5: if (n == 1) { C(0, 0) = -1; break; } C(a, b) = C(b, a) = (r.chance(50) ? 1.5 : -1.5) * std::sqrt(C(a, a) * C(b, b)); break;
    case 6: C(a, b) = C(b, a) = nan; break;
    case 7: if (n == 1) { C(0, 0) = -2; break; } C(a, a) = 0; break;      // zero variance, not zero covariance
    default: { std::vector<double> v(n); double q = 0; for (auto &x : v) x = r.uniform(-1, 1), q += x * x; for (auto &x : v) x /= std::sqrt(q); double s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += C(i, j) * v[i] * v[j];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) C(i, j) -= (1.5 * s) * v[i] * v[j]; }       // negative along a direction
    }
    return m;
}

template<typename U> struct World {
    typedef typename U::real_type R;
    struct Set { std::vector<U> *u; std::vector<LD> mu, c; Set(): u(nullptr) {} ~Set() { Sut s; delete u; } };
    const Plan &P; Set *sh[NSL], *pr[RT_MAXT][NSL]; LD eps;
    std::vector<R> *smu, *scov; In<R> *imu, *icov; std::vector<LD> sm, sc; int sn;      // arguments shared by the threads
    World(const Plan &p): P(p), eps(std::is_same<R, float>::value ? 1.2e-7L : 2.3e-16L) {
        std::memset(sh, 0, sizeof sh); std::memset(pr, 0, sizeof pr);
        Mat m = matrix(p.cfg[2] % 4 == 2 ? 5 : p.cfg[2] % 4, 1 + p.cfg[3] % 4, p.cfg[4], unit()); sn = m.n;
        Sut s; smu = new std::vector<R>; scov = new std::vector<R>; imu = new In<R>; icov = new In<R>; for (double x : m.mu) { smu->push_back(R(x)); imu->push_back(R(x)); NoSut n; sm.push_back(ld(R(x))); } for (double x : m.c) { scov->push_back(R(x)); icov->push_back(R(x)); NoSut n; sc.push_back(ld(R(x))); }
    }
    ~World() { for (auto &x : sh) delete x; for (auto &t : pr) for (auto &x : t) delete x; Sut s; delete smu; delete scov; delete imu; delete icov; }
    static int unit() { return std::is_same<R, float>::value ? 15 : 22; }      // powers of two by which the units vary
    Set *&slot(int t, int i) { return t ? pr[t][i % NSL] : sh[i % NSL]; }
    Set *src(int t, int i) { return !t || i % 3 == 0 ? sh[i % NSL] : pr[t][i % NSL]; }
    void verify(const Set &s, const char *what) {
        NoSut n; rt_count_check(); size_t k = s.mu.size();
        if (s.u->size() != k) FAIL("wrong-size", "%s: %d variables instead of %d", what, (int)s.u->size(), (int)k);
        for (size_t i = 0; i < k; i++) {
            const U &x = (*s.u)[i]; LD m = ld(nom(x)); rt_note((uint64_t)(long long)(m * 1e5L));
            if (!close_to(m, s.mu[i], 16 * eps * (std::sqrt(std::fabs(s.c[i + k * i])) + std::fabs(s.mu[i])))) FAIL("wrong-mean", "%s: mean of variable %d of %d is %.17Lg instead of %.17Lg", what, (int)i, (int)k, m, s.mu[i]);
            for (size_t j = 0; j < k; j++) {
                LD c = ld(cov(x, (*s.u)[j])), want = s.c[i + k * j], sc = std::sqrt(std::fabs(s.c[i + k * i] * s.c[j + k * j]));
                if (!close_to(c, want, 300 * k * eps * sc)) FAIL("wrong-covariance", "%s: covariance of variables %d and %d of %d is %.17Lg instead of %.17Lg", what, (int)i, (int)j, (int)k, c, want);
            }
            LD sd = ld(x.s()), v = s.c[i + k * i]; if (!close_to(sd * sd, v, 300 * k * eps * v)) FAIL("wrong-sdev", "%s: standard deviation of variable %d of %d is %.17Lg, its variance shall be %.17Lg", what, (int)i, (int)k, sd, v);
        }
    }
    void apart(const Set &a, const Set &b, const char *what) {
        NoSut n; rt_count_check();
        for (size_t i = 0; i < a.u->size(); i++) for (size_t j = 0; j < b.u->size(); j++) { LD c = ld(cov((*a.u)[i], (*b.u)[j])); if (c != 0) FAIL("correlated", "%s: a variable has covariance %Lg with one of another call", what, c); }
    }
    std::vector<Set *> all(int t) { std::vector<Set *> v; for (auto b : sh) if (b) v.push_back(b); for (int q = 1; q < RT_MAXT; q++) if (t < 0 || q == t) for (auto b : pr[q]) if (b) v.push_back(b); return v; }
    template<typename O, typename V> static std::vector<U> *call(const V &mu, const V &cov) {
        O o = unc::ureals<O>(mu, cov); std::unique_ptr<std::vector<U>> r(new std::vector<U>);
        for (size_t i = 0; i < o.size(); i++) r->push_back(o[i]);
        return r.release();
    }
    std::vector<U> *form(int f, const std::vector<R> &a, const std::vector<R> &b, const In<R> &c, const In<R> &d) {
        switch (f % 4) { case 0: return call<std::vector<U>>(a, b); case 1: return call<Out<U>>(c, d); case 2: return call<std::deque<U>>(a, b); default: return call<Out<U>>(a, b); }
    }
    // the same operations spelled by hand, to tell if the variables themselves do not work
    std::vector<U> *byhand(const std::vector<R> &mu, const std::vector<R> &L) {
        size_t n = mu.size(); std::unique_ptr<std::vector<U>> r(new std::vector<U>(n)); std::vector<U> x;
        for (size_t i = 0; i < n; i++) x.emplace_back(0, R(1));
        for (size_t i = 0; i < n; i++) { for (size_t j = 0; j <= i; j++) (*r)[i] += L[i + n * j] * x[j]; (*r)[i] += mu[i]; }
        for (size_t i = 0; i + 1 < n; i++) { using std::swap; swap((*r)[i], (*r)[i + 1]); swap((*r)[i], (*r)[i + 1]); }
        return r.release();
    }
    void step(const Op &o, int t) {
        rt_setop("%s %d %d %d", names[o.kind], o.i[0], o.i[1], o.i[2]);
        switch (o.kind) {
        case UREALS: case INVALID: {
            bool inv = o.kind == INVALID, shared = !inv && o.i[4] % 3 == 0; int n = o.i[1] % 7; if (inv && n == 0) n = 1; if (n > 4 && !std::is_same<R, double>::value) n -= 2;
            if (std::is_same<R, double>::value && o.i[1] >= 58) n = o.i[1] == 58 && !o.fs ? 15 + o.i[3] % 22 : 7 + o.i[3] % 8;
            Mat m = inv ? invalid(o.i[2] % 9, n, o.i[3], unit()) : matrix(o.i[2] % 7, n, o.i[3], unit()); Set *s = new Set;
            std::vector<R> *mu, *cv; In<R> *c, *d; std::vector<LD> mu0, c0;
            { Sut q; mu = new std::vector<R>; cv = new std::vector<R>; c = new In<R>; d = new In<R>; for (double x : m.mu) mu->push_back(R(x)); for (double x : m.c) cv->push_back(R(x));
              if (P.cfg[1] && !inv) { Rng r(o.i[3]); cv->clear(); for (int k = 0; k < n * n; k++) cv->push_back(R(r.uniform(-1, 1))); }
              for (auto &x : *mu) c->push_back(x); for (auto &x : *cv) d->push_back(x); }
            if (P.cfg[1]) shared = false;
            for (auto &x : *mu) mu0.push_back(ld(x)); for (auto &x : *cv) c0.push_back(ld(x));
            if (shared) { s->mu = sm; s->c = sc; n = sn; } else { s->mu = mu0; s->c = c0; }
            if (P.cfg[1] && !inv) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD w = 0; for (int k = 0; k <= i && k <= j; k++) w += c0[i + n * k] * c0[j + n * k]; s->c[i + n * j] = w; }
            auto args = [&](int) { for (size_t i = 0; i < mu->size(); i++) if (ld((*mu)[i]) != mu0[i] || ld((static_cast<std::vector<R> &>(*c))[i]) != mu0[i]) FAIL("changed", "ureals: changed the vector of means"); for (size_t i = 0; i < cv->size(); i++) { LD p = ld((*cv)[i]), q = ld((static_cast<std::vector<R> &>(*d))[i]); if ((p != c0[i] || q != c0[i]) && c0[i] == c0[i]) FAIL("changed", "ureals: changed the matrix"); } };
            auto f = [&] { if (P.cfg[1]) s->u = byhand(*mu, *cv); else if (shared) s->u = form(o.i[5], *smu, *scov, *imu, *icov); else s->u = form(o.i[5], *mu, *cv, *c, *d); };
            bool keep = false;
            if (inv && P.cfg[1]) ;
            else if (inv) {
                int lim = 0;
                for (int k = o.fk ? o.fs ? 1 : o.fn : 0; ; ) {      // k = 0: nothing fails
                    const char *got = nullptr; int fired = 0; if (k) { sim_flavour = o.i[4]; rt_fault_arm(o.fk, k, o.fp); }
                    try { Sut q; f(); } catch (const SimFault &) { got = "the exception of the seam"; } catch (const std::invalid_argument &) { got = "std::invalid_argument"; } catch (const std::bad_alloc &) { got = "std::bad_alloc"; } catch (const std::exception &) { got = "another std::exception"; } catch (...) { got = "something else"; }
                    if (k) fired = rt_fault_disarm();
                    NoSut ns; rt_count_op(); rt_count_check();
                    if (!got) FAIL("not-rejected", "ureals: accepted %s", o.i[2] % 9 < 4 ? "wrong sizes" : "a matrix which is not positive semidefinite");
                    if (!fired && !strcmp(got, "something else")) FAIL("wrong-exception", "ureals: did not throw a standard exception for invalid arguments");
                    if (!fired && (!strcmp(got, "std::bad_alloc") || got[0] == 't')) FAIL("wrong-exception", "ureals: threw %s although nothing failed", got);
                    if (!fired && o.i[2] % 9 < 4 && strcmp(got, "std::invalid_argument")) FAIL("wrong-exception", "ureals: threw %s for wrong sizes", got);
                    if (fired && !strcmp(got, "something else")) FAIL("wrong-exception", "ureals: threw something else for invalid arguments");
                    args(0);
                    if (!k) break;
                    if (!fired || !o.fs || ++lim > 300) k = 0; else k += k < 40 ? 1 : 5;
                }
            } else if (m.maythrow && !shared && !P.cfg[1]) { try { Sut q; f(); keep = true; } catch (const std::runtime_error &) {} rt_count_op(); }
            else { attempt("ureals", o, f, args); keep = true; rt_count_op(); }
            args(0);
            { Sut q; delete mu; delete cv; delete c; delete d; }
            if (!keep) { delete s; break; }
            verify(*s, "ureals"); for (Set *x : all(t)) if (x != slot(t, o.i[0])) apart(*s, *x, "ureals");
            delete slot(t, o.i[0]); slot(t, o.i[0]) = s; break; }
        case MAKE: { Set *s = new Set; double sd = std::fabs(o.d[1]); { Sut q; s->u = new std::vector<U>; s->u->push_back(U(R(o.d[0]), R(sd))); } s->mu.push_back(ld(R(o.d[0]))); LD v = ld(R(sd)); s->c.push_back(v * v); delete slot(t, o.i[0]); slot(t, o.i[0]) = s; break; }
        case COMBINE: {     // linear combination: from two sets to a set of one
            Set *a = src(t, o.i[0]), *b = src(t, o.i[1]); if (!a || !b || a == b || !a->u->size() || !b->u->size() || a->u->size() > 8) break;
            size_t na = a->u->size(), i = o.i[2] % na, j = o.i[3] % na; const U &x = (*a->u)[i], &y = (*a->u)[j], &z = (*b->u)[o.i[4] % b->u->size()]; size_t nb = b->u->size(), k = o.i[4] % nb;
            LD p = ld(R(o.d[0])), q = ld(R(o.d[1])); U *w; { Sut s; w = new U(x * R(o.d[0]) + y * R(o.d[1]) - z); }
            { NoSut n; LD v = p * p * a->c[i + na * i] + q * q * a->c[j + na * j] + 2 * p * q * a->c[i + na * j] + b->c[k + nb * k], g = ld(var(*w)), sc = p * p * a->c[i + na * i] + q * q * a->c[j + na * j] + b->c[k + nb * k]; rt_count_check();
              if (!close_to(g, v, 2000 * eps * sc)) FAIL("wrong-covariance", "combination of results of ureals: variance %.17Lg instead of %.17Lg", g, v); }
            { Sut s; delete w; } break; }
        case DESTROY: delete slot(t, o.i[0]); slot(t, o.i[0]) = nullptr; break;
        }
    }
    static World *W;
    void ops(int t, int want) { for (auto &o : P.ops) if (o.t == want) step(o, t); }
    static void thread(int t) { W->ops(t, t); }
    void run() {
        W = this; ops(0, 0); rt_spawn(P.nthr, thread); ops(0, POST); rt_setop("final check");
        std::vector<Set *> v = all(-1); for (Set *s : v) verify(*s, "at the end"); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) apart(*v[i], *v[j], "at the end");
        for (size_t i = 0; i < sm.size(); i++) if (ld((*smu)[i]) != sm[i]) FAIL("changed", "ureals: changed the vector of means"); for (size_t i = 0; i < sc.size(); i++) if (ld((*scov)[i]) != sc[i]) FAIL("changed", "ureals: changed the matrix");
    }
};
template<typename U> World<U> *World<U>::W;
template<typename U> void go(const Plan &p) { World<U> *w = new World<U>(p); w->run(); delete w; }
typedef unc::UReal<double> T0; typedef unc::UReal<SimReal> T1; typedef unc::UReal<float> T2; typedef unc::UReal<long double> T3;
#if PART == 1
template void go<T1>(const Plan &);
#elif PART == 2
template void go<T2>(const Plan &);
#elif PART == 3
template void go<T3>(const Plan &);
#else
extern template void go<T1>(const Plan &); extern template void go<T2>(const Plan &); extern template void go<T3>(const Plan &);
const char *const w_name = "ureals";
const char *const *const w_ops = names;
void w_warm() { std::ostringstream s; s << 1.5 << " " << 3 << "x"; std::string t = s.str(); try { throw std::runtime_error(t); } catch (...) {} }
void w_run(const Plan &p) { switch (p.cfg[0]) { case 1: go<T1>(p); break; case 2: go<T2>(p); break; case 3: go<T3>(p); break; default: go<T0>(p); } }
int w_attrib(const Plan &p, const std::string &c, Plan &n) {
    if (c == "leak") for (auto &o : p.ops) if (o.fk == F_NUM) return 2;      // Eigen leaks if the copy of an element throws
    n.cfg[1] = 1; return 1;     // do the variables themselves work?
}
void w_gen(Plan &p, Rng &r, bool thorough) {
    int q = r.below(20); p.cfg[0] = q < 12 ? 0 : q < 16 ? 1 : q < 18 ? 2 : 3; for (int i = 2; i < 5; i++) p.cfg[i] = r.below(60);
    p.nthr = r.chance(60) ? r.range(2, r.chance(20) ? 4 : 3) : r.below(2); int setup = r.range(0, 4), len = r.range(1, thorough ? 6 : 4), post = r.range(0, 3), fault = r.chance(60) ? 50 : 0;
    auto add = [&](int t) {
        Op o; o.t = t; int k = r.below(100); o.kind = k < 50 ? UREALS : k < 68 ? INVALID : k < 80 ? MAKE : k < 95 ? COMBINE : DESTROY;
        for (int j = 0; j < NI; j++) o.i[j] = r.below(60);
        o.d[0] = r.uniform(-2, 2); o.d[1] = r.uniform(.1, 2);
        if (p.cfg[0] && r.chance(60)) o.i[1] = r.range(1, 3);
        if (o.kind == UREALS || o.kind == INVALID) if (r.chance(fault)) {
            int w = r.below(10); o.fk = p.cfg[0] == 1 && w < 5 ? F_NUM : w < 8 ? F_ALLOC : F_ITER; if (o.fk == F_ITER) o.i[5] = 1 + 2 * r.below(2);
            o.fs = r.chance(50); o.fn = r.chance(60) ? r.range(1, 12) : r.range(1, 200); o.fp = o.fk == F_ALLOC && r.chance(25);
        }
        repeat(p, o, r, 12);
        p.ops.push_back(o);
    };
    for (int i = 0; i < setup; i++) add(0);
    for (int t = 1; t <= p.nthr; t++) for (int i = 0; i < len; i++) add(t);
    for (int i = 0; i < post; i++) add(POST);
}
#endif
