// w_fn.cpp -- functions built from user callbacks (C11): callbacks that throw
// at any invocation, that call built functions again, called from several
// threads, with the originals of everything given destroyed.
#define UNCERTAINTIES_EXTERN_UDOUBLE
#define UNCERTAINTIES_EXTERN_UDOUBLE2
#include "wl.h"
#include "wl_eigen.h"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/io.hpp>
#include <array>
#include <memory>
#include <sstream>

namespace unc = uncertainties;
#ifndef PART
#define PART 0
#endif
typedef long double LD;
enum { FCOPY = 0, NFS = 8, NX = 4, NTYPE = 4 };
enum Kind { BUILD, CALL, COPYF, MOVEF, SWAPF, DROP, CHANGE, NKIND };

// the functions the callbacks compute: value and derivatives at (x, y)
inline LD basef(int k, LD a, LD x, LD y, int dx, int dy) {
    switch (k % 4) {
    case 0: { LD q = std::sin(a * x + y + dx * 1.5707963267948966192L + dy * 1.5707963267948966192L); return q * std::pow(a, dx); }
    case 1: // a x^2 + x y + 3
        return dx == 0 && dy == 0 ? a * x * x + x * y + 3 : dx == 1 && dy == 0 ? 2 * a * x + y : dx == 0 && dy == 1 ? x : dx == 2 && dy == 0 ? 2 * a : dx == 1 && dy == 1 ? 1 : 0;
    case 2: return std::exp(a * x / 4 - y / 4) * std::pow(a / 4, dx) * std::pow(-.25L, dy);
    default: // x^3 - a y^2 x
        return dx == 0 && dy == 0 ? x * x * x - a * y * y * x : dx == 1 && dy == 0 ? 3 * x * x - a * y * y : dx == 0 && dy == 1 ? -2 * a * y * x : dx == 2 && dy == 0 ? 6 * x : dx == 0 && dy == 2 ? -2 * a * x : -2 * a * y;
    }
}
struct Ctl { int throwtype; int depth; void (*reenter)(void *w, int t, int fn); void *w; int fn; double lo[2], hi[2], m[2]; bool exact, outside, any; };
extern Ctl ctl[RT_MAXT];
inline void thrown(int type, int n) {
    switch (type % 8) { case 0: throw (int)(42 + n); case 1: throw (const char *)"callback"; default: throw_as(type / 2, 2, n); }   // objects of all kinds, of the classes of the standard library too
}
// seen by the callback: where it is evaluated
inline double evaluated(int k, double a, double x, double y, int dx, int dy, int nargs) {
    int on = rt_enter(0); int t = rt_tid(); Ctl &c = ctl[t];
    if (on) {
        rt_event(0x55, k * 16 + dx * 4 + dy);
        if (c.depth == 0) {
            c.any = true; double v[2] = {x, y};
            for (int i = 0; i < nargs; i++) if (c.exact ? v[i] != c.m[i] : !(v[i] >= c.lo[i] && v[i] <= c.hi[i])) c.outside = true;
            if (rt_fault_point(F_CALLBACK)) { int n = rt_fault_count(); rt_enter(on); thrown(c.throwtype, n); }
            if (c.reenter) { c.depth = 1; rt_fired(F_REENTRY); c.reenter(c.w, t, c.fn); c.depth = 0; }
        }
    }
    double r = (double)basef(k, a, x, y, dx, dy);
    rt_enter(on); return r;
}
template<typename R> struct Cb {     // the callback owns memory, to see that it is copied
    double *a; int k, dx, dy;
    Cb(int kk, double aa, int x, int y): a(new double(aa)), k(kk), dx(x), dy(y) {}
    Cb(const Cb &o): a(new double(*o.a)), k(o.k), dx(o.dx), dy(o.dy) {}
    ~Cb() { *a = 1e9; delete a; a = nullptr; }
    R operator()(const R &x) const { return R(evaluated(k, *a, (double)ld(x), 0, dx, 0, 1)); }
    R operator()(const R &x, const R &y) const { return R(evaluated(k, *a, (double)ld(x), (double)ld(y), dx, dy, 2)); }
};
struct Vals { LD f, d[5], tol0, tol1, tol2; };    // d: x y xx yy xy
// What the built function shall use, from the documentation.
inline Vals values(int kind, int k, LD a, LD h, LD x, LD y, LD eps) {
    auto F = [&](LD u, LD v, int dx, int dy) { return basef(k, a, u, v, dx, dy); };
    Vals r; std::memset(&r, 0, sizeof r); r.f = F(x, y, 0, 0);
    LD big = 0; for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) for (int q = 0; q < 2; q++) for (int s = 0; s < 2; s++) big = std::max(big, std::fabs(F(x + i * h, y + j * h, q, s)));
    big += 1 + std::fabs(x) + std::fabs(y); r.tol0 = 8 * eps * (std::fabs(r.f) + 1); r.tol1 = r.tol2 = 0;
    switch (kind) {
    case 0: case 2: r.d[0] = F(x, y, 1, 0); r.d[1] = F(x, y, 0, 1); r.d[2] = F(x, y, 2, 0); r.d[3] = F(x, y, 0, 2); r.d[4] = F(x, y, 1, 1); r.tol1 = r.tol2 = 16 * eps * big; break;
    case 1: r.d[0] = (F(x + h, y, 0, 0) - r.f) / h; r.d[1] = (F(x, y + h, 0, 0) - r.f) / h; r.tol1 = 64 * eps * big / h; break;
    case 3: r.d[0] = F(x, y, 1, 0); r.d[1] = F(x, y, 0, 1); r.d[2] = (F(x + h, y, 1, 0) - r.d[0]) / h; r.d[3] = (F(x, y + h, 0, 1) - r.d[1]) / h; r.d[4] = (F(x, y + h, 1, 0) - r.d[0]) / h; r.tol1 = 16 * eps * big; r.tol2 = 64 * eps * big / h; break;
    default: { LD p0 = F(x + h, y, 0, 0), m0 = F(x - h, y, 0, 0), z1 = F(x, y + h, 0, 0), zm = F(x, y - h, 0, 0), pp = F(x + h, y + h, 0, 0), mm = F(x - h, y - h, 0, 0);
        r.d[0] = (p0 - m0) / (2 * h); r.d[1] = (z1 - zm) / (2 * h); r.d[2] = (p0 + m0 - 2 * r.f) / (h * h); r.d[3] = (z1 + zm - 2 * r.f) / (h * h); r.d[4] = (pp + mm - (p0 + m0 + z1 + zm) + 2 * r.f) / (2 * h * h);
        r.tol1 = 64 * eps * big / h; r.tol2 = 256 * eps * big / (h * h); }
    }
    return r;
}
// kind: 0 all derivatives, 1 step (first order); 2 all derivatives, 3 first derivatives and step, 4 step (second order)
template<typename U> struct Traits {
    typedef typename U::real_type R; typedef std::function<U(const U &)> F1; typedef std::function<U(const U &, const U &)> F2; enum { order = 1 };
    typedef unc::Unary<R> C1; typedef unc::Binary<R> C2;
    static int kind(int i) { return i % 2; }
    static F1 mk1(int kind, int k, double a, const R *h) {
        C1 f = Cb<R>(k, a, 0, 0), d = Cb<R>(k, a, 1, 0);
        return kind == 0 ? unc::uunary<R>(f, d) : h ? unc::uunary<R>(f, *h) : unc::uunary<R>(f);
    }
    static F2 mk2(int kind, int k, double a, const R *h) {
        C2 f = Cb<R>(k, a, 0, 0), dx = Cb<R>(k, a, 1, 0), dy = Cb<R>(k, a, 0, 1);
        return kind == 0 ? unc::ubinary<R>(f, dx, dy) : h ? unc::ubinary<R>(f, *h) : unc::ubinary<R>(f);
    }
    static U mk(double n, double s) { return U(R(n), R(s)); }
    static R mean(const U &u) { return u.n(); }
    static U low1(const U &x, const R &f, const R *d) { return unary(x, f, d[0]); }
    static U low2(const U &x, const U &y, const R &f, const R *d) { return binary(x, y, f, d[0], d[1]); }
    static void see(std::vector<LD> &o, const U &u, const U &a, const U &b) { o.push_back(ld(u.n())); o.push_back(ld(cov(u, a))); o.push_back(ld(cov(u, b))); }
};
template<typename R_, unc::Prop p> struct Traits<unc::UReal2<R_, p>> {
    typedef R_ R; typedef unc::UReal2<R, p> U; typedef unc::UUnary2<R, p> F1; typedef unc::UBinary2<R, p> F2; enum { order = 2 };
    typedef unc::Unary<R> C1; typedef unc::Binary<R> C2;
    static int kind(int i) { return 2 + i % 3; }
    static F1 mk1(int kind, int k, double a, const R *h) {
        C1 f = Cb<R>(k, a, 0, 0), d = Cb<R>(k, a, 1, 0), dd = Cb<R>(k, a, 2, 0);
        return kind == 2 ? unc::uunary2<R, p>(f, d, dd) : kind == 3 ? h ? unc::uunary2<R, p>(f, d, *h) : unc::uunary2<R, p>(f, d) : h ? unc::uunary2<R, p>(f, *h) : unc::uunary2<R, p>(f);
    }
    static F2 mk2(int kind, int k, double a, const R *h) {
        C2 f = Cb<R>(k, a, 0, 0), dx = Cb<R>(k, a, 1, 0), dy = Cb<R>(k, a, 0, 1), xx = Cb<R>(k, a, 2, 0), yy = Cb<R>(k, a, 0, 2), xy = Cb<R>(k, a, 1, 1);
        return kind == 2 ? unc::ubinary2<R, p>(f, dx, dy, xx, yy, xy) : kind == 3 ? h ? unc::ubinary2<R, p>(f, dx, dy, *h) : unc::ubinary2<R, p>(f, dx, dy) : h ? unc::ubinary2<R, p>(f, *h) : unc::ubinary2<R, p>(f);
    }
    static U mk(double n, double s) { double q = s * s; return U(R(n), std::array<R, 7>{{R(q), R(0), R(3 * q * q), R(0), R(15 * q * q * q), R(0), R(105 * q * q * q * q)}}, R(-1)); }
    static R mean(const U &u) { return u.first_order_n(); }
    static U low1(const U &x, const R &f, const R *d) { return unary(x, f, d[0], d[2]); }
    static U low2(const U &x, const U &y, const R &f, const R *d) { return binary(x, y, f, d[0], d[1], d[2], d[3], d[4]); }
    static void see(std::vector<LD> &o, const U &u, const U &a, const U &b) { o.push_back(ld(u.first_order_n())); o.push_back(ld(u.grad(a))); o.push_back(ld(u.grad(b))); o.push_back(ld(u.hess(a, a))); o.push_back(ld(u.hess(a, b))); o.push_back(ld(u.hess(b, b))); }
};
static const char *const names[] = {"build", "call", "copy_function", "move_function", "swap_functions", "drop", "change_variable", 0};

template<typename U> struct World {
    typedef Traits<U> T; typedef typename T::R R;
    struct Fn { typename T::F1 *f1; typename T::F2 *f2; int kind, k; double a, h; bool defh; };   // one of the two
    const Plan &P; Fn sh[NFS], pr[RT_MAXT][NFS]; U *xs[RT_MAXT][NX]; LD eps;
    std::vector<LD> seen[RT_MAXT][NX];
    World(const Plan &p): P(p), eps(std::is_same<R, float>::value ? std::numeric_limits<float>::epsilon() : std::numeric_limits<double>::epsilon()) {
        std::memset(sh, 0, sizeof sh); std::memset(pr, 0, sizeof pr); std::memset(xs, 0, sizeof xs);
        for (int t = 0; t <= P.nthr; t++) { { Sut s; Rng r(P.cfg[2] * 8 + t); r.next(); bool vary = P.cfg[2] % 3; for (int i = 0; i < NX; i++) xs[t][i] = new U(T::mk(!vary ? .3 + i * .4 : r.chance(30) ? r.range(-2, 2) : r.uniform(-2, 2), vary ? r.uniform(.1, 1) : .5)); for (int i = 2; i < NX; i++) { U y = *xs[t][i] * *xs[t][0] + *xs[t][i % 2] * *xs[t][i % 2] * R(.5); *xs[t][i] = y; } } look(t); }
    }
    ~World() { Sut s; for (auto &f : sh) { delete f.f1; delete f.f2; } for (auto &v : pr) for (auto &f : v) { delete f.f1; delete f.f2; } for (auto &v : xs) for (auto &x : v) delete x; }
    void look(int t) { NoSut n; for (int i = 0; i < NX; i++) { seen[t][i].clear(); T::see(seen[t][i], *xs[t][i], *xs[t][0], *xs[t][1]); } }
    void unchanged(int t, const char *what) { NoSut n; for (int i = 0; i < NX; i++) { std::vector<LD> v; T::see(v, *xs[t][i], *xs[t][0], *xs[t][1]); if (v != seen[t][i]) FAIL("changed", "%s: variable %d changed", what, i); } }
    // setup: shared functions; threads: their own, and calls of the shared ones
    Fn &own(int t, int i, bool all) { return all ? sh[i % NFS] : pr[t][i % NFS]; }
    Fn &any(int t, int i, bool all) { return all || i % 4 ? sh[i % NFS] : pr[t][i % NFS]; }
    static void reenter(void *w_, int t, int fn) {
        World *w = (World *)w_; Fn &f = w->sh[fn % NFS]; if (!f.f1 && !f.f2) return;
        Sut s; U *x = w->xs[t][fn % NX], *y = w->xs[t][(fn + 1) % NX]; if (f.f1) (*f.f1)(*x); else (*f.f2)(*x, *y);
    }
    void step(const Op &o, int t, bool all) {
        rt_setop("%s %d %d %d", names[o.kind], o.i[0], o.i[1], o.i[2]); Ctl &c = ctl[t]; c.reenter = nullptr; c.depth = 0; c.throwtype = o.i[5]; c.exact = false; for (int i = 0; i < 2; i++) c.lo[i] = -1e300, c.hi[i] = 1e300;
        switch (o.kind) {
        case BUILD: {
            Fn &f = own(t, o.i[0], all), n; n.f1 = nullptr; n.f2 = nullptr; n.kind = T::kind(o.i[1]); n.k = o.i[2] % 4; n.a = o.d[0]; n.h = o.d[1]; n.defh = o.i[4] % 4 == 0; 
            if (n.defh) n.h = T::order == 1 || n.kind == 3 ? std::sqrt((double)eps) : std::sqrt(std::sqrt((double)eps));
            n.h = (double)ld(R(n.h)); n.a = (double)ld(R(n.a));
            { Sut s; std::unique_ptr<R> h(new R(n.h));    // destroyed when the function has been built
              if (o.i[3] & 1) n.f1 = new typename T::F1(T::mk1(n.kind, n.k, n.a, n.defh ? nullptr : h.get())); else n.f2 = new typename T::F2(T::mk2(n.kind, n.k, n.a, n.defh ? nullptr : h.get()));
              *h = R(1e6); delete f.f1; delete f.f2; }
            f = n; rt_count_op(); break; }
        case CALL: {
            Fn &f = any(t, o.i[0], all); if (!f.f1 && !f.f2) break;
            const U &x = *xs[t][o.i[1] % NX], &y = *xs[t][o.i[2] % NX];
            LD xm = ld(T::mean(x)), ym = f.f1 ? 0 : ld(T::mean(y)); Vals v = values(f.kind, f.k, f.a, f.h, xm, ym, eps);
            if (!(std::fabs(v.f) < 1e6L)) break;
            c.exact = f.kind == 0 || f.kind == 2; c.m[0] = xm; c.m[1] = ym; double w = f.h * (1 + 1e-6) + 1e-12 + (double)(4 * eps * (1 + std::fabs(xm) + std::fabs(ym)));
            c.lo[0] = xm - w; c.hi[0] = xm + w; c.lo[1] = ym - w; c.hi[1] = ym + w; c.outside = c.any = false;
            if (o.i[3] % 3 == 0) c.reenter = reenter, c.w = this, c.fn = o.i[4];
            U *r = nullptr;
            if (P.cfg[1]) { NoSut n; R d[5]; for (int i = 0; i < 5; i++) d[i] = R((double)v.d[i]); R fv((double)v.f); { Sut s; r = new U(f.f1 ? T::low1(x, fv, d) : T::low2(x, y, fv, d)); delete r; } break; }
            int lim = 0;
            for (int n = o.fs ? 1 : o.fn; o.fk; n++) {
                bool threw = false, right = false; rt_fault_arm(o.fk, n, 0);
                try { Sut s; r = f.f1 ? new U((*f.f1)(x)) : new U((*f.f2)(x, y)); }
                catch (const SimFault &e) { threw = true; right = c.throwtype % 8 > 1 && e.where == 2 && e.serial == n; }
                catch (int e) { threw = true; right = c.throwtype % 8 == 0 && e == 42 + n; }
                catch (const char *e) { threw = true; right = c.throwtype % 8 == 1 && !strcmp(e, "callback"); }
                catch (...) { threw = true; }
                int fired = rt_fault_disarm(); c.depth = 0;
                if (fired && !right) FAIL("wrong-exception", "call: the user function threw at invocation %d, the caller got %s", n, threw ? "another exception" : "nothing");
                if (threw && !fired) FAIL("unexpected-exception", "call: threw although the user function did not");
                if (!threw) break;
                unchanged(t, "call");
                if (!o.fs || ++lim > 40) break;
            }
            if (!r) { try { Sut s; r = f.f1 ? new U((*f.f1)(x)) : new U((*f.f2)(x, y)); } catch (...) { FAIL("unexpected-exception", "call: threw although the user function did not"); } }
            { NoSut ns; rt_count_op(); rt_count_check();
              if (c.outside) FAIL("arguments", "call: a user function was not evaluated at the means of the arguments%s", c.exact ? "" : " displaced by the step");
              if (!c.any) FAIL("arguments", "call: no user function was evaluated");
              R d[5]; for (int i = 0; i < 5; i++) d[i] = R((double)v.d[i]);
              U e = f.f1 ? T::low1(x, R((double)v.f), d) : T::low2(x, y, R((double)v.f), d);
              std::vector<LD> a, b, gx, gy; T::see(a, *r, *xs[t][0], *xs[t][1]); T::see(b, e, *xs[t][0], *xs[t][1]); T::see(gx, x, *xs[t][0], *xs[t][1]); T::see(gy, y, *xs[t][0], *xs[t][1]);
              LD g = 1; for (size_t i = 1; i < gx.size(); i++) g = std::max(g, std::max(std::fabs(gx[i]), std::fabs(gy[i])));
              LD dm = 1; for (LD q : v.d) dm = std::max(dm, std::fabs(q));
              for (size_t i = 0; i < a.size(); i++) { LD tol = i == 0 ? v.tol0 : 16 * (v.tol1 + (i > 2 ? v.tol2 : 0)) * g * g + 64 * eps * dm * g * g; if (!close_to(a[i], b[i], tol)) FAIL("result", "call: result %d of the built function is %.17Lg, the low-level operation with those values gives %.17Lg", (int)i, a[i], b[i]); }
              rt_note((uint64_t)(long long)(a[0] * 1e6L)); }
            { Sut s; delete r; } unchanged(t, "call"); break; }
        case COPYF: { Fn &a = own(t, o.i[0], all), &b = any(t, o.i[1], all); if (&a == &b || (!b.f1 && !b.f2)) break; Fn n = b; { Sut s; if (b.f1) n.f1 = new typename T::F1(*b.f1); else n.f2 = new typename T::F2(*b.f2); delete a.f1; delete a.f2; } a = n; break; }
        case MOVEF: { Fn &a = own(t, o.i[0], all), &b = own(t, o.i[1], all); if (&a == &b || (!b.f1 && !b.f2)) break; Fn n = b; { Sut s; if (b.f1) n.f1 = new typename T::F1(std::move(*b.f1)); else n.f2 = new typename T::F2(std::move(*b.f2)); delete b.f1; delete b.f2; delete a.f1; delete a.f2; } b.f1 = nullptr; b.f2 = nullptr; a = n; break; }
        case SWAPF: { Fn &a = own(t, o.i[0], all), &b = own(t, o.i[1], all); if (&a == &b || !a.f1 || !b.f1) { if (!(&a != &b && a.f2 && b.f2)) break; Sut s; std::swap(*a.f2, *b.f2); } else { Sut s; std::swap(*a.f1, *b.f1); } { Fn q = a; a.kind = b.kind; a.k = b.k; a.a = b.a; a.h = b.h; a.defh = b.defh; b.kind = q.kind; b.k = q.k; b.a = q.a; b.h = q.h; b.defh = q.defh; } break; }
        case DROP: { Fn &a = own(t, o.i[0], all); { Sut s; delete a.f1; delete a.f2; } a.f1 = nullptr; a.f2 = nullptr; break; }
        case CHANGE: { int i = 2 + o.i[0] % (NX - 2); { Sut s; U y = *xs[t][i % 2] * R(o.d[0]) + *xs[t][(i + 1) % 2]; if (o.i[1] % 2) y = y * *xs[t][o.i[1] / 2 % 2]; *xs[t][i] = y; } look(t); break; }
        }
    }
    static World *W;
    static void thread(int t) { for (auto &o : W->P.ops) if (o.t == t) W->step(o, t, false); }
    void run() { W = this; for (auto &o : P.ops) if (o.t == 0) step(o, 0, true); rt_spawn(P.nthr, thread); for (auto &o : P.ops) if (o.t == POST) step(o, 0, true); for (int t = 0; t <= P.nthr; t++) unchanged(t, "at the end"); }
};
template<typename U> World<U> *World<U>::W;
template<typename U> void go(const Plan &p) { World<U> *w = new World<U>(p); w->run(); delete w; }
typedef unc::UReal<double> T0; typedef unc::UReal<SimReal> T1; typedef unc::UReal2<double, unc::Prop::est> T2; typedef unc::UReal2<SimReal, unc::Prop::mean> T3; typedef unc::UReal<float> T4; typedef unc::UReal2<float, unc::Prop::est> T5; typedef unc::UReal2<double, unc::Prop::mean> T6;
#if PART == 1
template void go<T1>(const Plan &); template void go<T4>(const Plan &);
#elif PART == 2
template void go<T2>(const Plan &);
#elif PART == 3
template void go<T3>(const Plan &);
#elif PART == 4
template void go<T5>(const Plan &);
#elif PART == 5
template void go<T6>(const Plan &);
#else
extern template void go<T1>(const Plan &); extern template void go<T2>(const Plan &); extern template void go<T3>(const Plan &); extern template void go<T4>(const Plan &); extern template void go<T5>(const Plan &); extern template void go<T6>(const Plan &);
Ctl ctl[RT_MAXT];
const char *const w_name = "fn";
const char *const *const w_ops = names;
void w_warm() { std::ostringstream s; s << 1.5 << " " << 3 << "x"; std::string t = s.str(); }
void w_run(const Plan &p) { switch (p.cfg[0]) { case 1: go<T1>(p); break; case 2: go<T2>(p); break; case 3: go<T3>(p); break; case 4: go<T4>(p); break; case 5: go<T5>(p); break; case 6: go<T6>(p); break; default: go<T0>(p); } }
int w_attrib(const Plan &, const std::string &, Plan &n) { n.cfg[1] = 1; return 1; }     // does it fail with the low-level operations alone?
void w_gen(Plan &p, Rng &r, bool thorough) {
    int q = r.below(20); p.cfg[0] = q < 6 ? 0 : q < 8 ? 1 : q < 13 ? 2 : q < 15 ? 3 : q < 17 ? 4 : q < 18 ? 5 : 6; p.cfg[2] = r.below(1000);
    p.nthr = r.chance(60) ? r.range(2, r.chance(20) ? 4 : 3) : r.below(2); int setup = r.range(1, 4), len = r.range(2, thorough ? 10 : 6), post = r.range(0, 5); int fault = r.chance(70) ? 50 : 0;
    auto add = [&](int t, bool first) {
        Op o; o.t = t; int k = r.below(100);
        o.kind = first || k < 25 ? BUILD : k < 70 ? CALL : k < 80 ? COPYF : k < 85 ? MOVEF : k < 89 ? SWAPF : k < 93 ? DROP : CHANGE;
        if (t == 0 && !first && k < 60) o.kind = BUILD;
        if (t > 0 && t != POST && k >= 10 && k < 75) o.kind = CALL;
        for (int j = 0; j < NI; j++) o.i[j] = r.below(60);
        o.d[0] = r.uniform(.2, 1.5); o.d[1] = r.chance(50) ? r.uniform(.01, .2) : r.uniform(.001, .02);
        if (p.cfg[0] != 1 && p.cfg[0] != 3) o.i[0] = o.i[0] / 3;
        if (setup < 3 && r.chance(60)) o.i[0] = r.below(2) * 4 + 1;     // the same function in all threads
        if (o.kind == CALL && r.chance(fault)) { o.fk = F_CALLBACK; o.fs = r.chance(60); o.fn = r.range(1, 7); }
        if (!first) repeat(p, o, r, 12);
        p.ops.push_back(o);
    };
    for (int i = 0; i < setup; i++) { add(0, i < 2); if (i == 0) p.ops.back().i[0] = 1; if (i == 1) p.ops.back().i[0] = 5; }
    for (int t = 1; t <= p.nthr; t++) for (int i = 0; i < len; i++) add(t, false);
    for (int i = 0; i < post; i++) add(POST, false);
}
#endif
