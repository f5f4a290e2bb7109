// w_alg2.cpp -- second order variables (C02 C03 C04 C05 C08): programs over a
// set of variables run against the real library and, step by step, against a
// reference model: gradient and hessian in long double, and moments computed by
// expanding the powers of the quadratic form as polynomials.
#define UNCERTAINTIES_EXTERN_UDOUBLE2
#include "wl.h"
#include "wl_eigen.h"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/math.hpp>
#include "wl_math.h"
#include "wl_jump.h"
#include <map>
#include <set>
#include <algorithm>
#include <list>
#include <memory>
#include <sstream>
#include <array>

#ifndef PART   // compiled in 4 parts, one for each type of variable
#define PART 0
#endif
namespace unc = uncertainties;
enum Kind { NEW, CONSTANT, NEWZERO, BADNEW, COPY, MOVE, ASSIGN, MOVEASSIGN, SELFASSIGN, SWAP, NEGATE, PLUSSIGN, BIN, BINS,
    LUNARY, LBINARY, LASSIGN, CONV, CONVPROP, FUN1, FUN2, READ, MAIL, VEC, EXPRASSIGN, CHECKALL, WIDE, GAP, NKIND };
static const char *const names[] = {"new", "constant", "newzero", "badnew", "copy", "move", "assign", "moveassign", "selfassign", "swap", "negate", "plus", "bin", "bins",
    "unary", "binary", "binary_assign", "convert", "convert_prop", "fun1", "fun2", "read", "mail", "vector", "exprassign", "checkall", "wide", "gap", 0};
enum { NSH_MAX = 6, NPR = 4, NREAD = 21, MAXB = 5, MAXW = 12 };   // moments 3 and 4 are computed up to MAXB variables


typedef std::pair<int, int> P2;
static P2 mkp(int a, int b) { return a < b ? P2(a, b) : P2(b, a); }
struct Model {
    LD mu; std::map<int, LD> g; std::map<P2, LD> H; bool amb, lo;    // in units of the standardised variables; H is the whole second derivative
    Model(): mu(0), amb(false), lo(false) {}
    LD G(int b) const { auto i = g.find(b); return i == g.end() ? 0 : i->second; }
    LD h(int a, int b) const { auto i = H.find(mkp(a, b)); return i == H.end() ? 0 : i->second; }
};
struct Dist { LD k[9]; };     // standardised moments
typedef std::vector<double> Obs;
static bool same_obs(const Obs &a, const Obs &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
    return true;
}
static double hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return double(h >> 12); }
static const LD FEPS = std::numeric_limits<float>::epsilon();
template<typename R> struct Eps { static LD eps() { return std::numeric_limits<double>::epsilon(); } };
template<> struct Eps<float> { static LD eps() { return FEPS; } };
template<typename R> struct Other { typedef double type; };
template<> struct Other<double> { typedef float type; };
template<unc::Prop p> struct OtherProp { static constexpr unc::Prop v = p == unc::Prop::est ? unc::Prop::mean : unc::Prop::est; };

// moments of the quadratic form, and bounds of the terms that sum up to them
struct Mom { LD m[5], a[5]; };
struct Mono { unsigned char e[MAXB]; LD c, a; };
static Mom moments(const Model &m, const std::vector<Dist> &dists) {
    Mom r; std::memset(&r, 0, sizeof r);
    std::vector<int> bs; { std::set<int> s; for (auto &x : m.g) s.insert(x.first); for (auto &x : m.H) s.insert(x.first.first), s.insert(x.first.second); bs.assign(s.begin(), s.end()); }
    int n = bs.size(); LD m1 = 0, a1 = 0;
    for (int b : bs) m1 += m.h(b, b) / 2, a1 += std::fabs(m.h(b, b)) / 2;
    std::vector<Mono> p; Mono z; std::memset(&z, 0, sizeof z);
    z.c = -m1; z.a = a1; p.push_back(z);
    for (int i = 0; i < n; i++) { z.c = m.G(bs[i]); z.a = std::fabs(z.c); std::memset(z.e, 0, sizeof z.e); z.e[i] = 1; p.push_back(z); }
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { z.c = i == j ? m.h(bs[i], bs[i]) / 2 : m.h(bs[i], bs[j]); z.a = std::fabs(z.c); std::memset(z.e, 0, sizeof z.e); z.e[i]++; z.e[j]++; p.push_back(z); }
    auto mul = [&](const std::vector<Mono> &a, const std::vector<Mono> &b) {
        std::map<uint64_t, Mono> t;
        for (auto &x : a) for (auto &y : b) { uint64_t key = 0; Mono q; for (int i = 0; i < MAXB; i++) { q.e[i] = x.e[i] + y.e[i]; key = key * 16 + q.e[i]; } q.c = x.c * y.c; q.a = x.a * y.a; auto it = t.find(key); if (it == t.end()) t[key] = q; else it->second.c += q.c, it->second.a += q.a; }
        std::vector<Mono> o; for (auto &x : t) o.push_back(x.second); return o; };
    auto expect = [&](const std::vector<Mono> &q, LD &e, LD &a) { e = a = 0; for (auto &x : q) { LD k = 1, ka = 1; for (int i = 0; i < n; i++) { LD kk = dists[bs[i]].k[x.e[i]]; k *= kk; ka *= std::max(std::fabs(kk), x.e[i] > 1 ? 1.0L : 0.0L); } e += x.c * k; a += x.a * ka; } };
    r.m[1] = m1; r.a[1] = a1;
    std::vector<Mono> q2 = mul(p, p), q3 = mul(q2, p), q4 = mul(q2, q2);
    expect(q2, r.m[2], r.a[2]); expect(q3, r.m[3], r.a[3]); expect(q4, r.m[4], r.a[4]);
    return r;
}
static void covar(const Model &x, const Model &y, const std::vector<Dist> &d, LD &c, LD &a) {
    c = a = 0; auto add = [&](LD v) { c += v; a += std::fabs(v); };
    std::set<int> bs; for (auto &q : x.g) bs.insert(q.first); for (auto &q : x.H) bs.insert(q.first.first), bs.insert(q.first.second);
    std::vector<int> v(bs.begin(), bs.end()); LD xa = 0, ya = 0;
    for (int b : v) { LD k3 = d[b].k[3], k4 = d[b].k[4]; add(x.G(b) * y.G(b)); add(x.G(b) * y.h(b, b) / 2 * k3); add(x.h(b, b) / 2 * y.G(b) * k3); add(x.h(b, b) * y.h(b, b) / 4 * (k4 - 1)); a += 2 * std::fabs(x.h(b, b) * y.h(b, b)); }
    for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) add(x.h(v[i], v[j]) * y.h(v[i], v[j]));
    for (auto &q : x.H) if (q.first.first == q.first.second) xa += std::fabs(q.second) / 2;
    for (auto &q : y.H) if (q.first.first == q.first.second) ya += std::fabs(q.second) / 2;
    a += 3 * xa * ya;
}

template<typename R, unc::Prop PR> struct World {
    typedef unc::UReal2<R, PR> U;
    typedef unc::UReal2<R, OtherProp<PR>::v> UP;
    struct Slot { U *u; Model m; LD mm[5]; Slot(): u(nullptr) { std::memset(mm, 0, sizeof mm); } };
    struct Base { U *w; LD s; unc::Id id; };
    struct Rd { Op op; Obs got; };
    const Plan &P; int nsh; int propsign; bool cold;
    Slot sh[NSH_MAX], pr[RT_MAXT][NPR], mail; Base base[600]; std::vector<Dist> dist; int nbase;
    std::set<int> known[RT_MAXT];
    std::vector<Rd> reads[RT_MAXT];
    LD eps;

    World(const Plan &p): P(p), nsh(p.cfg[1]), propsign(PR == unc::Prop::mean ? 1 : -1), cold(p.cfg[2] & 1), dist(600), nbase(0), eps(Eps<R>::eps()) {
        if (nsh < 1) nsh = 1; if (nsh > NSH_MAX) nsh = NSH_MAX;
        Sut s;
        for (int i = 0; i < nsh; i++) sh[i].u = new U();
        for (int t = 0; t < RT_MAXT; t++) for (int i = 0; i < NPR; i++) pr[t][i].u = t <= P.nthr ? new U() : nullptr;
        mail.u = new U();
    }
    ~World() {
        Sut s;
        for (int i = 0; i < nsh; i++) delete sh[i].u;
        for (int t = 0; t < RT_MAXT; t++) for (int i = 0; i < NPR; i++) delete pr[t][i].u;
        for (int i = 0; i < nbase; i++) delete base[i].w;
        delete mail.u;
    }
    static R mk(LD x) { return R((double)x); }
    LD sdeps(const Model &m) { return m.lo && eps < FEPS ? FEPS : eps; }

    struct Ctx { World *w; int t; bool post, setup;
        Slot &dst(int i) { i = i < 0 ? -i : i; if (setup) return w->sh[i % w->nsh]; if (post) { int n = w->nsh + (w->P.nthr + 1) * NPR; i %= n; return i < w->nsh ? w->sh[i] : w->pr[(i - w->nsh) / NPR][(i - w->nsh) % NPR]; } return w->pr[t][i % NPR]; }
        Slot &src(int i) { i = i < 0 ? -i : i; if (setup || post) return dst(i); int n = w->nsh + NPR; i %= n; return i < w->nsh ? w->sh[i] : w->pr[t][i - w->nsh]; }
        bool shared(int i) { i = i < 0 ? -i : i; return !setup && !post && i % (w->nsh + NPR) < w->nsh; }
    };
    // In a cold plan the checks look at copies of the variables shared by the threads,
    // and of the ones they are computed from, so that the threads are the first to
    // query them.
    struct View { U *k; const U &u; View(const World &w, const Slot &s): k(w.cool(s) ? new U(*s.u) : nullptr), u(k ? *k : *s.u) {} ~View() { delete k; } View(const View &); };
    bool cool(const Slot &s) const { return cold && &s >= sh && &s < sh + NSH_MAX; }

    Obs observe(const Slot &s, int t) {
        NoSut n; Obs o; View v(*this, s); const U &u = v.u;
        o.push_back((double)ld(u.first_order_n())); o.push_back(u.isindep()); o.push_back((double)u.indepid());
        for (int k = 1; k <= 4; k++) o.push_back((double)ld(u.m(k)));
        std::set<int> k = known[t]; for (auto &c : s.m.g) k.insert(c.first);
        for (int b : k) o.push_back((double)ld(u.grad(*base[b].w)));
        for (auto &h : s.m.H) o.push_back((double)ld(u.hess(*base[h.first.first].w, *base[h.first.second].w)));
        return o;
    }
    std::vector<Slot *> own(Ctx &c) {
        std::vector<Slot *> v;
        if (c.setup) for (int i = 0; i < nsh; i++) v.push_back(&sh[i]);
        else if (c.post) { for (int i = 0; i < nsh; i++) v.push_back(&sh[i]); for (int t = 0; t <= P.nthr; t++) for (int i = 0; i < NPR; i++) v.push_back(&pr[t][i]); }
        else { for (int i = 0; i < NPR; i++) v.push_back(&pr[c.t][i]); for (int i = 0; i < nsh; i++) v.push_back(&sh[i]); }
        return v;
    }
    LD mgrad(const U &u, int b) { return ld(u.grad(*base[b].w)) * base[b].s; }
    LD mhess(const U &u, int a, int b) { return ld(u.hess(*base[a].w, *base[b].w)) * base[a].s * base[b].s; }

    struct TC { std::map<int, LD> g; std::map<P2, LD> H; };
    void check(Ctx &c, Slot &s, LD tmu, const TC &tc, const char *what) {
        NoSut ns; rt_count_check();
        View vw(*this, s); const U &u = vw.u; Model &m = s.m; LD eps = this->eps;
        LD mu = ld(u.first_order_n());
        if (!close_to(mu, m.mu, tmu)) FAIL("mean", "%s: first_order_n() is %.17Lg, expected %.17Lg", what, mu, m.mu);
        m.mu = mu; rt_note((uint64_t)(long long)((double)mu * 1e6));
        int cnt = 0, last = -1; std::set<int> bs, nzb; for (auto &k : m.g) bs.insert(k.first);
        for (auto &k : m.g) {
            LD g = mgrad(u, k.first); auto it = tc.g.find(k.first); LD tol = it == tc.g.end() ? 8 * eps * std::fabs(k.second) : it->second;
            if (!close_to(g, k.second, tol)) FAIL("gradient", "%s: derivative times sdev for base %d is %.17Lg, expected %.17Lg", what, k.first, g, k.second);
            k.second = g; if (g != 0) nzb.insert(k.first);
        }
        for (int a : bs) for (int b : bs) if (a <= b) {
            LD g = mhess(u, a, b), e = m.h(a, b); auto it = tc.H.find(P2(a, b)); LD tol = it == tc.H.end() ? 8 * eps * std::fabs(e) : it->second;
            if (!close_to(g, e, tol)) FAIL("hessian", "%s: second derivative times sdevs for bases %d, %d is %.17Lg, expected %.17Lg", what, a, b, g, e);
            if (a != b) { LD g2 = mhess(u, b, a); if (!close_to(g2, g, 8 * eps * std::fabs(g))) FAIL("hessian", "%s: hess is not symmetric: %.17Lg, %.17Lg", what, g, g2); }
            m.H[P2(a, b)] = g; if (g != 0) nzb.insert(a), nzb.insert(b);
        }
        for (int b : known[c.t]) if (!bs.count(b)) { LD g = ld(u.grad(*base[b].w)); if (g != 0) FAIL("unrelated", "%s: derivative %.17Lg with respect to an unrelated variable", what, g); g = ld(u.hess(*base[b].w, *base[b].w)); if (g != 0) FAIL("unrelated", "%s: second derivative %.17Lg with respect to an unrelated variable", what, g); }
        cnt = nzb.size(); if (cnt) last = *nzb.begin();
        {
            Mom q; LD e2 = sdeps(m); bool wide = bs.size() > MAXB;
            if (!wide) q = moments(m, dist);
            else { q.m[1] = q.a[1] = 0; for (int b : bs) q.m[1] += m.h(b, b) / 2, q.a[1] += std::fabs(m.h(b, b)) / 2; covar(m, m, dist, q.m[2], q.a[2]); }
            for (int k = 1; k <= 4; k++) { LD g = ld(u.m(k)); if (wide && k > 2) { s.mm[k] = g; continue; } LD tol = (k < 3 ? wide ? 200 : 60 : 200) * e2 * q.a[k];
                if (!close_to(g, q.m[k], tol)) FAIL("moment", "%s: m(%d) is %.17Lg, the quadratic expansion gives %.17Lg", what, k, g, q.m[k]);
                s.mm[k] = g; }
            LD n = ld(u.n()), en = mu + propsign * s.mm[1]; if (!close_to(n, en, 4 * eps * (std::fabs(mu) + std::fabs(s.mm[1])))) FAIL("corrected-mean", "%s: n() is %.17Lg, expected %.17Lg", what, n, en);
            n = ld(unc::nom(u)); if (!close_to(n, en, 4 * eps * (std::fabs(mu) + std::fabs(s.mm[1])))) FAIL("corrected-mean", "%s: nom() is %.17Lg, expected %.17Lg", what, n, en);
            n = ld(var(u)); if (!close_to(n, s.mm[2], 4 * eps * std::fabs(s.mm[2]))) FAIL("moment", "%s: var() is %.17Lg, m(2) is %.17Lg", what, n, s.mm[2]);
            if (s.mm[2] > 1e-6L * q.a[2] && s.mm[2] > 1e-12L) {
                LD sd = std::sqrt(s.mm[2]); n = ld(u.s()); if (!close_to(n, sd, 8 * eps * sd)) FAIL("moment", "%s: s() is %.17Lg, expected %.17Lg", what, n, sd);
                n = ld(unc::sdev(u)); if (!close_to(n, sd, 8 * eps * sd)) FAIL("moment", "%s: sdev() is %.17Lg, expected %.17Lg", what, n, sd);
                n = ld(u.skew()); LD e = s.mm[3] / (sd * s.mm[2]); if (!close_to(n, e, 16 * eps * std::fabs(e))) FAIL("moment", "%s: skew() is %.17Lg, expected %.17Lg", what, n, e);
                n = ld(u.kurt()); e = s.mm[4] / (s.mm[2] * s.mm[2]); if (!close_to(n, e, 16 * eps * std::fabs(e))) FAIL("moment", "%s: kurt() is %.17Lg, expected %.17Lg", what, n, e);
            }
        }
        unc::Id id = u.indepid();
        if (cnt >= 2) { if (u.isindep() || id >= 0) FAIL("isindep", "%s: depends on %d variables but indepid is %lld, isindep %d", what, cnt, (long long)id, (int)u.isindep()); }
        else if (!m.amb && bs.size() == 1 && cnt == 1) { if (!u.isindep() || id != base[last].id) FAIL("isindep", "%s: depends on one variable with id %lld but indepid is %lld, isindep %d", what, (long long)base[last].id, (long long)id, (int)u.isindep()); }
        else if (!m.amb && bs.empty()) { if (!u.isindep() || id != 0) FAIL("isindep", "%s: depends on no variable but indepid is %lld, isindep %d", what, (long long)id, (int)u.isindep()); }
    }
    void crosscheck(Ctx &c, Slot &s, const char *what) {
        NoSut ns;
        for (Slot *o : own(c)) {
            LD e, a; covar(s.m, o->m, dist, e, a); LD ep = std::max(sdeps(s.m), sdeps(o->m));
            View vx(*this, s), vy(*this, *o); const U &x = vx.u, &y = vy.u; LD g = ld(cov(x, y)), g2 = ld(cov(y, x));
            if (!close_to(g, e, 60 * ep * a)) FAIL("cov", "%s: covariance with another variable is %.17Lg, the quadratic expansion gives %.17Lg", what, g, e);
            if (!close_to(g2, e, 60 * ep * a)) FAIL("cov", "%s: covariance is not symmetric: %.17Lg, %.17Lg", what, g, g2);
        }
    }
    void check_others(Ctx &c, Slot *d, const char *what) {
        NoSut ns;
        for (Slot *o : own(c)) if (o != d) {
            View vw(*this, *o); const U &u = vw.u; rt_count_check();
            LD mu = ld(u.first_order_n()); if (!close_to(mu, o->m.mu, 0)) FAIL("other-changed", "%s: the mean of another variable changed from %.17Lg to %.17Lg", what, o->m.mu, mu);
            for (auto &k : o->m.g) { LD g = mgrad(u, k.first); if (!close_to(g, k.second, 0)) FAIL("other-changed", "%s: the gradient of another variable changed from %.17Lg to %.17Lg", what, k.second, g); }
            for (auto &k : o->m.H) { LD g = mhess(u, k.first.first, k.first.second); if (!close_to(g, k.second, 0)) FAIL("other-changed", "%s: the hessian of another variable changed from %.17Lg to %.17Lg", what, k.second, g); }
            for (int k = 2; k <= 4; k += 2) { LD g = ld(u.m(k)); if (!close_to(g, o->mm[k], 0)) FAIL("other-changed", "%s: m(%d) of another variable changed from %.17Lg to %.17Lg", what, k, o->mm[k], g); }
        }
    }

    template<typename F> void attempt(Ctx &c, const Op &o, F f) {
        int lim = 0;
        for (int n = o.fs ? 1 : o.fn; o.fk; n += n < 40 ? 1 : n < 200 ? 7 : 31) {
            std::vector<Slot *> ss = own(c); std::vector<Obs> before;
            for (Slot *s : ss) before.push_back(observe(*s, c.t));
            const char *got = "nothing"; bool threw = false;
            sim_flavour = o.i[5]; rt_fault_arm(o.fk, n, o.fp);
            try { Sut s; f(); }
            catch (const SimFault &) { threw = true; got = "the exception of the numerical type"; }
            catch (const std::bad_alloc &) { threw = true; got = "std::bad_alloc"; }
            catch (const std::exception &) { threw = true; got = "another exception"; }
            catch (...) { threw = true; got = "an unknown exception"; }
            int fired = rt_fault_disarm();
            if (threw && !fired) FAIL("unexpected-exception", "%s: threw %s although nothing failed", names[o.kind], got);
            if (fired && o.fk == F_ALLOC && threw && strcmp(got, "std::bad_alloc")) FAIL("wrong-exception", "%s: memory exhausted at allocation %d, threw %s", names[o.kind], n, got);
            if (fired && o.fk == F_NUM && strncmp(got, "the exc", 7)) FAIL("wrong-exception", "%s: the numerical type threw at its operation %d, the caller got %s", names[o.kind], n, got);
            if (!threw) return;
            for (size_t i = 0; i < ss.size(); i++) if (!same_obs(before[i], observe(*ss[i], c.t))) FAIL("changed-by-failure", "%s: failed at fault point %d, and a variable changed", names[o.kind], n);
            if (!o.fs || ++lim > 100) break;
        }
        try { Sut s; f(); }
        catch (const std::exception &e) { FAIL("unexpected-exception", "%s: threw %s", names[o.kind], e.what()); }
        catch (...) { FAIL("unexpected-exception", "%s: threw", names[o.kind]); }
    }
    // an argument: first derivative with error, second derivative with error
    struct Term { LD d, e; Slot *s; };
    struct Curv { LD v, e; int a, b; };     // second derivative between the arguments a and b (once for each unordered pair)
    bool expect(LD mu, LD tmu, const std::vector<Term> &ts, const std::vector<Curv> &cs, Model &m, TC &tc, bool given = false) {
        m = Model(); m.mu = mu; std::set<int> bs;
        for (auto &t : ts) { m.amb = m.amb || t.s->m.amb; m.lo = m.lo || t.s->m.lo; for (auto &k : t.s->m.g) bs.insert(k.first); }
        if (bs.size() > MAXW) return false;
        for (int b : bs) { LD v = 0, e = 0; for (auto &t : ts) { LD g = t.s->m.G(b); v += t.d * g; e += (32 * eps * std::fabs(t.d) + t.e) * std::fabs(g); } m.g[b] = v; tc.g[b] = e + 1e-300L; }
        for (int a : bs) for (int b : bs) if (a <= b) {
            LD v = 0, e = 0;
            for (auto &t : ts) { LD h = t.s->m.h(a, b); v += t.d * h; e += (64 * eps * std::fabs(t.d) + t.e) * std::fabs(h); }
            for (auto &q : cs) { Model &x = ts[q.a].s->m, &y = ts[q.b].s->m; LD p1 = x.G(a) * y.G(b), p2 = x.G(b) * y.G(a);
                if (q.a == q.b) p2 = 0; v += q.v * (p1 + p2); e += (64 * eps * std::fabs(q.v) + q.e) * (std::fabs(p1) + std::fabs(p2)); }
            m.H[P2(a, b)] = v; tc.H[P2(a, b)] = e + 1e-300L;
        }
        if (!given && (!(std::fabs(mu) < (eps < FEPS ? 1e9L : 1e5L)) || !(tmu < 1))) return false;
        if (!given && mu != 0 && std::fabs(mu) < (eps < FEPS ? 1e-10L : 1e-6L)) return false;
        const LD hi = eps < FEPS ? 1e6L : 1e4L, lo = eps < FEPS ? 1e-8L : 1e-6L;
        for (auto &k : m.g) if (!(std::fabs(k.second) < hi) || (k.second != 0 && std::fabs(k.second) < lo && std::fabs(k.second) > 10 * tc.g[k.first])) return false;
        for (auto &k : m.H) if (!(std::fabs(k.second) < hi) || (k.second != 0 && std::fabs(k.second) < lo && std::fabs(k.second) > 10 * tc.H[k.first])) return false;
        return true;
    }
    void commit(Ctx &c, Slot &d, const Model &m, LD tmu, const TC &tc, const char *what) { d.m = m; check(c, d, tmu, tc, what); crosscheck(c, d, what); check_others(c, &d, what); }
    // operations which take the mean as given: it can be of any magnitude
    static bool asis(int k) { return k == LUNARY || k == LBINARY || k == LASSIGN || k == CONSTANT || k == COPY || k == ASSIGN || k == NEGATE || k == PLUSSIGN || k == VEC || k == CONVPROP || k == CONV || k == SELFASSIGN; }
    template<typename F> void make(Ctx &c, const Op &o, Slot &d, LD mu, LD tmu, const std::vector<Term> &ts, const std::vector<Curv> &cs, F f) {
        Model m; TC tc; if (!expect(mu, tmu, ts, cs, m, tc, asis(o.kind))) return;
        if (o.kind == CONV) m.lo = true;
        U *q = nullptr;
        attempt(c, o, [&] { q = f(); });
        { Sut s; delete d.u; d.u = q; }
        rt_count_op(); commit(c, d, m, tmu, tc, names[o.kind]);
    }
    template<typename F> void mutate(Ctx &c, const Op &o, Slot &d, LD mu, LD tmu, const std::vector<Term> &ts, const std::vector<Curv> &cs, F f) {
        Model m; TC tc; if (!expect(mu, tmu, ts, cs, m, tc, asis(o.kind))) return;
        attempt(c, o, f);
        rt_count_op(); commit(c, d, m, tmu, tc, names[o.kind]);
    }

    // ---- distributions of the independent variables
    static void discrete(Dist &d, uint64_t seed, int atoms) {
        Rng r(seed); LD x[8], p[8], sp = 0, mu = 0, v = 0;
        for (int i = 0; i < atoms; i++) { x[i] = i + r.uniform(0, .7); p[i] = r.uniform(.3, 1); sp += p[i]; }
        for (int i = 0; i < atoms; i++) { p[i] /= sp; mu += p[i] * x[i]; }
        for (int i = 0; i < atoms; i++) v += p[i] * (x[i] - mu) * (x[i] - mu);
        for (int n = 0; n <= 8; n++) { d.k[n] = 0; for (int i = 0; i < atoms; i++) d.k[n] += p[i] * std::pow((x[i] - mu) / std::sqrt(v), n); }
    }
    static void known_dist(Dist &d, int kind, int k) {
        static const LD N[9] = {1, 0, 1, 0, 3, 0, 15, 0, 105}, F[9] = {1, 0, 1, 0, 9 / 5.0L, 0, 27 / 7.0L, 0, 9};
        for (int i = 0; i < 9; i++) d.k[i] = kind == 0 ? N[i] : F[i];
        if (kind == 2) { // chisquare, from its cumulants
            LD kap[9], m[9]; LD f = 1; for (int n = 1; n <= 8; n++) { kap[n] = f * k; f *= 2 * n; } kap[1] = 0; m[0] = 1;
            for (int n = 1; n <= 8; n++) { m[n] = 0; LD b = 1; for (int j = 1; j <= n; j++) { m[n] += b * kap[j] * m[n - j]; b = b * (n - j) / j; } }
            for (int n = 0; n <= 8; n++) d.k[n] = m[n] / std::pow(std::sqrt(2.0L * k), n);
        }
    }
    void newvar(const Op &o, Ctx &c, Slot &d) {
        if (nbase >= 590) return;
        LD s = std::fabs((LD)o.d[1]); if (s < 1e-2L) s = .5L; LD mu = o.d[0];
        int kind = ((o.i[3] % 6) + 6) % 6; int k = 1 + ((o.i[4] % 9) + 9) % 9;
        Dist D; R rmu = mk(mu), rs = mk(s); U *q = nullptr; bool flt = sizeof(R) == 4;
        if (kind == 2 && flt) kind = 0;
        if (kind == 0 || kind == 1) { known_dist(D, kind, 0); if (kind == 1) { R half = mk(s * std::sqrt(3.0L)); R a = rmu - half, b = rmu + half; mu = (ld(a) + ld(b)) / 2; s = (ld(b) - ld(a)) / std::sqrt(12.0L); attempt(c, o, [&] { q = new U(unc::distr::uniform<U>(a, b)); }); } else attempt(c, o, [&] { q = new U(unc::distr::normal<U>(rmu, rs)); }); }
        else if (kind == 2) { known_dist(D, 2, k); mu = k; s = std::sqrt(2.0L * k); attempt(c, o, [&] { q = new U(unc::distr::chisquare<U>(k)); }); }
        else {
            discrete(D, o.i[5], kind == 3 ? 6 : kind == 4 ? 7 : 2 + k % 3);
            R thr = mk(kind == 3 && !flt ? 1e-9L : -1);
            if (o.i[4] & 1) { std::array<R, 6> a; for (int i = 0; i < 6; i++) a[i] = mk(D.k[i + 3]); attempt(c, o, [&] { q = new U(rmu, rs, a, thr); }); }
            else { std::array<R, 7> a; for (int i = 0; i < 7; i++) a[i] = mk(D.k[i + 2] * std::pow((LD)s, i + 2)); attempt(c, o, [&] { q = new U(rmu, a, thr); }); }
        }
        { Sut w; delete d.u; d.u = q; } rt_count_op();
        const int ib = nbase++; Base &b = base[ib]; b.w = nullptr; dist[ib] = D; LD t = 32 * eps;
        { NoSut ns; View vw(*this, d); const U &u = vw.u; b.s = std::sqrt(ld(u.m(2))); b.id = u.indepid();
          if (!close_to(ld(u.first_order_n()), mu, t * std::fabs(mu) + t * s)) FAIL("mean", "new: first_order_n() is %.17Lg, given %.17Lg", ld(u.first_order_n()), mu);
          if (!close_to(b.s, s, t * (s + std::fabs(mu)))) FAIL("moment", "new: sdev is %.17Lg, given %.17Lg", b.s, s);
          if (b.id <= 0 || !u.isindep()) FAIL("isindep", "new: indepid() %lld, isindep() %d", (long long)b.id, (int)u.isindep());
          if (ld(u.m(1)) != 0) FAIL("moment", "new: m(1) is %.17Lg", ld(u.m(1)));
          d.m = Model(); d.m.mu = ld(u.first_order_n()); }
        { Sut w; b.w = new U(*d.u); }
        known[c.t].insert(ib);
        d.m.g[ib] = b.s; d.m.H[P2(ib, ib)] = 0;
        check(c, d, 0, TC(), "new"); check_others(c, &d, "new");
    }

    template<typename V> static void ob(Obs &o, const V &u, const V &y) { o.push_back((double)ld(u.first_order_n())); o.push_back((double)ld(u.n())); for (int k = 1; k <= 4; k++) o.push_back((double)ld(u.m(k))); o.push_back((double)ld(cov(u, y))); o.push_back(u.isindep()); o.push_back((double)u.indepid()); }
    template<typename V> static void oc(Obs &o, const V &u) { o.push_back((double)ld(u.first_order_n())); o.push_back((double)ld(u.n())); for (int k = 1; k <= 4; k++) o.push_back((double)ld(u.m(k))); }
    static void convread(Obs &o, const unc::UReal2<double, PR> &x) { unc::UReal2<float, PR> c(x); oc(o, c); unc::UReal2<float, OtherProp<PR>::v> d(x); oc(o, d); }
    static void convread(Obs &o, const unc::UReal2<float, PR> &x) { unc::UReal2<double, PR> c = x; oc(o, c); unc::UReal2<double, OtherProp<PR>::v> d(x); oc(o, d); }
    static void convread(Obs &o, const unc::UReal2<SimReal, PR> &x) { UP c(x); oc(o, c); }
    static void roundtrip(U *&q, const unc::UReal2<double, PR> &x) { unc::UReal2<float, PR> f(x); q = new U(unc::UReal2<double, PR>(f)); }
    static void roundtrip(U *&q, const unc::UReal2<float, PR> &x) { unc::UReal2<double, PR> f(x); q = new U(unc::UReal2<float, PR>(f)); }
    static void roundtrip(U *&q, const unc::UReal2<SimReal, PR> &x) { q = new U(x); }

    Obs read(int k, const U &x, const U &y, const Op &op) {
        Obs o;
        switch (k) {
        case 0: o.push_back((double)ld(x.first_order_n())); o.push_back((double)ld(x.n())); o.push_back(x.isindep()); o.push_back((double)x.indepid()); break;
        case 1: o.push_back((double)ld(var(x))); for (int i = 1; i <= 4; i++) o.push_back((double)ld(x.m(i))); break;
        case 2: o.push_back((double)ld(cov(x, y))); o.push_back((double)ld(cov(y, x))); break;
        case 3: o.push_back((double)ld(corr(x, y))); break;
        case 4: try { o.push_back((double)ld(x.grad(y))); } catch (const SimFault &) { throw; } catch (const std::invalid_argument &) { o.push_back(-12345); } break;
        case 5: try { o.push_back((double)ld(x.hess(y, y))); } catch (const SimFault &) { throw; } catch (const std::invalid_argument &) { o.push_back(-12345); } break;
        case 6: { std::string s = unc::format(x), s2 = x.format(op.d[1] > 0 ? 2.0f : 3.5f, " +/- "); o.push_back(hash_str(s)); o.push_back(hash_str(s2)); break; }
        case 7: { std::ostringstream s; s << x; if (!s) throw std::bad_alloc(); o.push_back(hash_str(s.str())); break; }
        case 8: { U c(x); ob(o, c, y); U d; d = x; ob(o, d, y); break; }
        case 9: ob(o, x + y, y); ob(o, x - y, y); break;
        case 10: ob(o, x * y, y); break;
        case 11: { LD v = ld(x.first_order_n()); int f = pick1(op.i[3], v); if (f >= 0) ob(o, apply1(f, x), y); break; }
        case 12: { int f = pick2(op.i[3], ld(x.first_order_n()), ld(y.first_order_n())); if (f >= 0) ob(o, apply2(f, x, y), y); break; }
        case 13: convread(o, x); break;
        case 14: o.push_back(unc::isfinite(x)); o.push_back(unc::isnormal(x)); break;
        case 15: o.push_back((double)ld(x.skew())); o.push_back((double)ld(x.kurt())); o.push_back((double)ld(x.s())); break;
        case 16: ob(o, -x, y); ob(o, +x, y); break;
        case 17: ob(o, unary(x, mk(op.d[0]), mk(op.d[1]), mk(op.d[2])), y); break;
        case 18: { U c = x + U(mk(op.d[0])), d = U(mk(op.d[1])) * y; ob(o, c - d, y); break; }
        case 20: {   // second derivative with respect to two variables
            int b = ((op.i[4] % 2) + 2) % 2; const U &w = *base[b].w; for (int i = 0; i < 2; i++) try { o.push_back((double)ld(i ? x.hess(w, y) : x.hess(y, w))); } catch (const SimFault &) { throw; } catch (const std::invalid_argument &) { o.push_back(-12345); } o.push_back(b); break; }
        case 19: { U c(y); binary_assign(c, x, mk(op.d[0]), mk(op.d[1]), mk(2), mk(0), mk(op.d[2]), mk(1)); ob(o, c, y); break; }
        }
        return o;
    }
    void check_read(int k, Slot &x, Slot &y, const Obs &r) {
        auto chk = [&](double g, LD e, LD t) { if (!close_to(g, e, t + 2e-16L * std::fabs(e))) FAIL("read", "read %d of const variables gives %.17g, expected %.17Lg", k, g, e); };
        LD ep = std::max(sdeps(x.m), sdeps(y.m)), e, a;
        switch (k) {
        case 0: chk(r[0], x.m.mu, 0); chk(r[1], x.m.mu + propsign * x.mm[1], 4 * eps * (std::fabs(x.m.mu) + std::fabs(x.mm[1]))); break;
        case 1: chk(r[0], x.mm[2], 0); for (int i = 1; i <= 4; i++) chk(r[i], x.mm[i], 0); break;
        case 2: covar(x.m, y.m, dist, e, a); chk(r[0], e, 60 * ep * a); chk(r[1], e, 60 * ep * a); break;
        case 3: covar(x.m, y.m, dist, e, a); { LD p = std::sqrt(x.mm[2] * y.mm[2]); chk(r[0], e / p, 100 * ep * (1 + a / p)); } break;
        case 4: case 5: {
            int nz = 0, b = -1; std::set<int> q; for (auto &v : y.m.g) if (v.second != 0) q.insert(v.first), b = v.first; for (auto &v : y.m.H) if (v.second != 0) q.insert(v.first.first), q.insert(v.first.second);
            nz = q.size();
            if (nz >= 2 || (y.m.g.empty() && !y.m.amb)) { if (r[0] != -12345) FAIL("read", "derivative with respect to a variable which is not independent gives %g", r[0]); }
            else if (nz == 1 && y.m.g.size() == 1 && !y.m.amb && b >= 0 && std::fabs(y.m.g[b]) > 1e-3L) {
                LD gy = y.m.g[b], hy = y.m.h(b, b), gx = x.m.G(b), hx = x.m.h(b, b);
                if (k == 4) chk(r[0], gx / gy, 40 * eps * std::fabs(gx / gy));
                else chk(r[0], (hx - gx / gy * hy) / (gy * gy), 100 * eps * (std::fabs(hx) + std::fabs(gx / gy * hy)) / (gy * gy));
            }
            break; }
        case 20: {
            int b2 = (int)r[2], b = -1; std::set<int> q; for (auto &v : y.m.g) if (v.second != 0) q.insert(v.first), b = v.first; for (auto &v : y.m.H) if (v.second != 0) q.insert(v.first.first), q.insert(v.first.second);
            if (q.size() >= 2 || (y.m.g.empty() && !y.m.amb)) { if (r[0] != -12345 || r[1] != -12345) FAIL("read", "second derivative with respect to a variable which is not independent gives %g, %g", r[0], r[1]); }
            else if (q.size() == 1 && y.m.g.size() == 1 && !y.m.amb && b >= 0 && std::fabs(y.m.g[b]) > 1e-3L && b != b2) {
                LD e = x.m.h(b, b2) / (y.m.g[b] * base[b2].s); for (int i = 0; i < 2; i++) chk(r[i], e, 40 * eps * std::fabs(e)); }
            break; }
        case 14: chk(r[0], 1, 0); break;
        }
    }
    bool goodvar(const Slot &s) { if (s.m.g.size() > MAXB) return s.mm[2] > 1; Mom q = moments(s.m, dist); return s.mm[2] > 1e-5L * q.a[2] && s.mm[2] > 1e-10L; }

    void step(const Op &o, Ctx &c) {
        Slot &d = c.dst(o.i[0]), &x = c.src(o.i[1]), &y = c.src(o.i[2]);
        Slot &px = c.dst(o.i[1]);
        const LD xm = x.m.mu, ym = y.m.mu, dm = d.m.mu; const R d0 = mk(o.d[0]), d1 = mk(o.d[1]), d2 = mk(o.d[2]), d3 = mk(o.d[3]);
        const LD D0 = ld(d0), D1 = ld(d1), D2 = ld(d2), D3 = ld(d3);
        const U &xu = *x.u, &yu = *y.u;
        rt_setop("%s %d %d %d %d", names[o.kind], o.i[0], o.i[1], o.i[2], o.i[3]);
        std::vector<Term> none; std::vector<Curv> flat; typedef std::vector<Term> VT; typedef std::vector<Curv> VC;
        switch (o.kind) {
        case NEW: newvar(o, c, d); break;
        case CONSTANT: make(c, o, d, D0, 0, none, flat, [&] { return new U(d0); }); break;
        case NEWZERO: { std::array<R, 6> a; for (int i = 0; i < 6; i++) a[i] = mk(i == 1 ? 3 : i == 3 ? 15 : i == 5 ? 105 : 0); U *q = nullptr; attempt(c, o, [&] { q = new U(d0, mk(0), a); }); { Sut k; delete d.u; d.u = q; } rt_count_op();
            Model m; m.mu = D0; m.amb = true; commit(c, d, m, 0, TC(), "newzero"); break; }
        case BADNEW: { bool ok = false, ok2 = false; { Sut s; std::array<R, 6> a; for (int i = 0; i < 6; i++) a[i] = mk(-1); try { U q(d0, mk(1), a); } catch (const std::invalid_argument &) { ok = true; } catch (...) { } try { U q(d0, mk(-1), a, mk(-1)); } catch (const std::invalid_argument &) { ok2 = true; } catch (...) { } } if (!ok || !ok2) FAIL("badnew", "invalid moments accepted"); check_others(c, nullptr, "badnew"); break; }
        case COPY: make(c, o, d, xm, 0, VT{{1, 0, &x}}, flat, [&] { return new U(xu); }); break;
        case MOVE: { if (&px == &d) return; Model m = px.m; U *q = nullptr; attempt(c, Op(), [&] { q = new U(std::move(*px.u)); *px.u = U(d0); }); { Sut s; delete d.u; d.u = q; } px.m = Model(); px.m.mu = D0; d.m = m; std::memcpy(d.mm, px.mm, sizeof d.mm); rt_count_op();
            commit(c, px, Model(px.m), 0, TC(), "moved-from, reassigned"); commit(c, d, m, 0, TC(), "move"); break; }
        case ASSIGN: mutate(c, o, d, xm, 0, VT{{1, 0, &x}}, flat, [&] { if (o.i[4] % 3) *d.u = xu; else *d.u = U(xu); }); break;
        case MOVEASSIGN: { if (&px == &d) return; Model m = px.m; attempt(c, Op(), [&] { *d.u = std::move(*px.u); *px.u = U(d0); }); px.m = Model(); px.m.mu = D0; rt_count_op();
            d.m = m; std::memcpy(d.mm, px.mm, sizeof d.mm); commit(c, px, Model(px.m), 0, TC(), "moved-from, reassigned"); commit(c, d, m, 0, TC(), "moveassign"); break; }
        case SELFASSIGN: { const U &self = *d.u; mutate(c, o, d, dm, 0, VT{{1, 0, &d}}, flat, [&] { *d.u = self; }); break; }
        case SWAP: { if (&px == &d) return; attempt(c, Op(), [&] { using std::swap; swap(*d.u, *px.u); }); std::swap(d.m, px.m); std::swap(d.mm, px.mm); rt_count_op(); check(c, d, 0, TC(), "swap"); check(c, px, 0, TC(), "swap"); check_others(c, nullptr, "swap"); break; }
        case NEGATE: make(c, o, d, -xm, 0, VT{{-1, 0, &x}}, flat, [&] { return new U(sign(true, xu, o.i[4] % 3)); }); break;
        case PLUSSIGN: make(c, o, d, xm, 0, VT{{1, 0, &x}}, flat, [&] { return new U(sign(false, xu, o.i[4] % 3)); }); break;
        case BIN: case EXPRASSIGN: case BINS: {
            Slot cs; cs.m.mu = D0; U *cu = nullptr; if (o.kind == BINS) { Sut s; cu = new U(d0); }
            bool left = o.kind == BINS && (o.i[4] & 1);
            Slot &a = o.kind == BIN ? x : o.kind == BINS ? (left ? cs : x) : d, &b = o.kind == BIN ? y : o.kind == BINS ? (left ? x : cs) : x; const LD am = a.m.mu, bm = b.m.mu;
            const U &au = o.kind == BINS && left ? *cu : *a.u, &bu = o.kind == BINS && !left ? *cu : *b.u;
            int k = ((o.i[3] % 4) + 4) % 4; LD mu = 0, da = 0, db = 0, tm = 0; VC cv; bool skip = false;
            switch (k) { case 0: mu = am + bm; da = 1; db = 1; tm = 4 * eps * (std::fabs(am) + std::fabs(bm)); break; case 1: mu = am - bm; da = 1; db = -1; tm = 4 * eps * (std::fabs(am) + std::fabs(bm)); break;
            case 2: mu = am * bm; da = bm; db = am; tm = 8 * eps * std::fabs(mu); cv.push_back({1, 0, 0, 1}); break;
            default: if (std::fabs(bm) < 1e-2L) { skip = true; break; } mu = am / bm; da = 1 / bm; db = -am / (bm * bm); tm = 8 * eps * std::fabs(mu); cv.push_back({-1 / (bm * bm), 0, 0, 1}); cv.push_back({2 * am / (bm * bm * bm), 0, 1, 1}); }
            if (!skip) {
                VT t{{da, 0, &a}, {db, 0, &b}};
                bool plain = o.kind == BINS && (o.i[5] & 1);     // operand converted implicitly from a number
                auto f = [&]() -> U {
                    if (plain && left) switch (k) { case 0: return d0 + bu; case 1: return d0 - bu; case 2: return d0 * bu; default: return d0 / bu; }
                    if (plain) switch (k) { case 0: return au + d0; case 1: return au - d0; case 2: return au * d0; default: return au / d0; }
                    return arith(k, au, bu, (o.i[5] >> 1) % 5); };
                if (o.kind == EXPRASSIGN) mutate(c, o, d, mu, tm, t, cv, [&] { *d.u = f(); }); else make(c, o, d, mu, tm, t, cv, [&] { return new U(f()); });
            }
            if (cu) { Sut s; delete cu; } break; }
        case LUNARY: make(c, o, d, D0, 0, VT{{D1, 0, &x}}, VC{{D2, 0, 0, 0}}, [&] { return o.i[4] & 1 ? new U(unary(U(xu), d0, d1, d2)) : new U(unary(xu, d0, d1, d2)); }); break;
        case LBINARY: make(c, o, d, D0, 0, VT{{D1, 0, &x}, {D2, 0, &y}}, VC{{D3, 0, 0, 0}, {D1, 0, 1, 1}, {-D2, 0, 0, 1}}, [&] { return o.i[4] & 1 ? new U(binary(U(xu), U(yu), d0, d1, d2, d3, d1, -d2)) : new U(binary(xu, yu, d0, d1, d2, d3, d1, -d2)); }); break;
        case LASSIGN: mutate(c, o, d, D0, 0, VT{{D1, 0, &d}, {D2, 0, &x}}, VC{{D3, 0, 0, 0}, {D1, 0, 1, 1}, {-D2, 0, 0, 1}}, [&] { if (o.i[4] & 1) binary_assign(*d.u, U(xu), d0, d1, d2, d3, d1, -d2); else binary_assign(*d.u, xu, d0, d1, d2, d3, d1, -d2); }); break;
        case CONV: make(c, o, d, xm, 2 * FEPS * std::fabs(xm), VT{{1, 4 * FEPS, &x}}, flat, [&] { U *q = nullptr; roundtrip(q, xu); return q; }); break;
        case CONVPROP: make(c, o, d, xm, 0, VT{{1, 0, &x}}, flat, [&] { UP q(xu); return new U(q); }); break;
        case FUN1: { int k = pick1(o.i[3], xm); if (k < 0) return; Fun1 r = fun1_ref(k, xm); LD t = eps * (1 + std::fabs(xm)); make(c, o, d, r.f, 32 * t * (std::fabs(r.f) + 1), VT{{r.d, 256 * t * (std::fabs(r.d) + 1), &x}}, VC{{r.dd, 1024 * t * (std::fabs(r.dd) + std::fabs(r.d) + 1), 0, 0}}, [&] { return new U(apply1(k, xu, o.i[4] % 3)); }); break; }
        case FUN2: if (o.i[5] % 4 == 0) {   // whole constant exponent: any base, zero included
                int e = o.i[4] % 8 - 3; if (std::fabs(xm) > 12 || (e < 0 && std::fabs(xm) < .2L)) return; LD f, p, q; powi_ref(xm, e, f, p, q); if (std::fabs(f) > 1e7L) return; const R ee = mk(e); LD t = eps * (1 + std::fabs(xm));
                make(c, o, d, f, 64 * t * (std::fabs(f) + 1), VT{{p, 256 * t * (std::fabs(p) + 1), &x}}, VC{{q, 1024 * t * (std::fabs(q) + std::fabs(p) + 1), 0, 0}}, [&] { return new U(pow(xu, U(ee))); }); break; }
            else { int k = pick2(o.i[3], xm, ym); if (k < 0) return; Fun2 r = fun2_ref(k, xm, ym); LD t = eps * (1 + std::fabs(xm) + std::fabs(ym)), q = 1024 * t * (std::fabs(r.dxx) + std::fabs(r.dyy) + std::fabs(r.dxy) + 1);
            make(c, o, d, r.f, 64 * t * (std::fabs(r.f) + 1), VT{{r.dx, 256 * t * (std::fabs(r.dx) + 1), &x}, {r.dy, 256 * t * (std::fabs(r.dy) + 1), &y}}, VC{{r.dxx, q, 0, 0}, {r.dyy, q, 1, 1}, {r.dxy, q, 0, 1}}, [&] { return new U(apply2(k, xu, yu, o.i[4] % 5)); }); break; }
        case READ: {
            int k = ((o.i[3] % NREAD) + NREAD) % NREAD; Op q = o; q.i[3] = o.i[4];
            if ((k == 3 || k == 6 || k == 7 || k == 15) && !(goodvar(x) && goodvar(y))) k = 1;
            Obs r; attempt(c, o, [&] { Obs t = read(k, xu, yu, q); NoSut n; r.assign(t.begin(), t.end()); });
            rt_count_op(); for (double v : r) { uint64_t b; std::memcpy(&b, &v, 8); rt_note(b); }
            if (c.shared(o.i[1]) && c.shared(o.i[2])) { Rd rd; rd.op = o; rd.op.i[3] = k; rd.got.assign(r.begin(), r.end()); reads[c.t].push_back(rd); }
            check_read(k, x, y, r); check_others(c, nullptr, "read"); break; }
        case MAIL: { static char mailmtx[8]; rt_lock(mailmtx); { Sut s; std::swap(*d.u, *mail.u); } std::swap(d.m, mail.m); std::swap(d.mm, mail.mm); rt_unlock(mailmtx); rt_count_op(); check(c, d, 0, TC(), "mail"); crosscheck(c, d, "mail"); break; }
        case VEC: make(c, o, d, xm, 0, VT{{1, 0, &x}}, flat, [&] { std::vector<U> v; for (int i = 0; i < 5; i++) { v.push_back(xu); v.push_back(yu); } v.erase(v.begin(), v.begin() + 4); v.insert(v.begin(), yu); std::reverse(v.begin(), v.end()); v.resize(v.size() - 1); return new U(v[1 + 2 * (o.i[4] & 1)]); }); break;
        case WIDE: {   // depends on many variables at once
            int n = o.i[5] >= 58 ? 12 + o.i[4] % 14 : 3 + o.i[5] % 8; if (nbase + n > 590) return;
            Rng r(o.i[3] * 64 + o.i[4]); Op q = o; q.kind = NEW; q.fk = q.fs = 0;
            for (int i = 0; i < n; i++) {
                Slot tmp; for (int k = 2; k < NI; k++) q.i[k] = r.below(60); q.d[0] = r.uniform(-1, 1); q.d[1] = r.uniform(.1, .8);
                newvar(q, c, tmp); if (!tmp.u) return;
                R v[7] = {mk(r.uniform(-1, 1)), mk(r.chance(25) ? 1 : r.uniform(-1, 1)), mk(1), mk(r.chance(40) ? 0 : r.uniform(-.5, .5)), mk(r.uniform(-.5, .5)), mk(r.chance(40) ? 0 : r.uniform(-.5, .5)), mk(0)};
                const U &tu = *tmp.u, &du = *d.u;
                make(c, i == n - 1 ? o : q, d, ld(v[0]), 0, VT{{ld(v[1]), 0, &d}, {ld(v[2]), 0, &tmp}}, VC{{ld(v[3]), 0, 0, 0}, {ld(v[4]), 0, 1, 1}, {ld(v[5]), 0, 0, 1}}, [&] { return new U(binary(du, tu, v[0], v[1], v[2], v[3], v[4], v[5])); });
                Sut k; delete tmp.u;
            }
            break; }
        case GAP: {   // many identifiers are given to variables of somebody else
            if (c.t == 0 && o.i[3] % 4 == 0) { NoSut q; if (!id_jump(o.i[4], o.i[5])) rt_probe(1); break; }
            static const int ns[] = {3, 9, 30, 110, 450, 1200}; Sut s; for (int k = ns[o.i[1] % 6] + o.i[2] % 8; k > 0; k--) { unc::UReal<double> u(1, 1); if (u.indepid() <= 0) break; } break; }
        case CHECKALL: check_others(c, nullptr, "at the end"); for (Slot *s : own(c)) crosscheck(c, *s, "at the end"); break;
        }
    }

    static World *W;
    void run_ops(int t, bool setup, bool post) {
        Ctx c = {this, setup || post ? 0 : t, post, setup};
        int want = setup ? 0 : post ? POST : t;
        for (auto &o : P.ops) if (o.t == want) step(o, c);
    }
    static void thread(int t) { W->run_ops(t, false, false); }
    void run() {
        W = this;
        run_ops(0, true, false);
        for (int t = 1; t <= P.nthr; t++) known[t] = known[0];
        rt_spawn(P.nthr, thread);
        for (int t = 1; t <= P.nthr; t++) for (int b : known[t]) known[0].insert(b);
        { NoSut n; std::set<unc::Id> ids; for (int i = 0; i < nbase; i++) if (!ids.insert(base[i].id).second) FAIL("id", "two variables have the same identifier %lld", (long long)base[i].id); }
        Ctx c = {this, 0, true, false};
        rt_setop("final check");
        check_others(c, nullptr, "after all threads");
        for (int t = 1; t <= P.nthr; t++) for (auto &r : reads[t]) {
            Ctx q = {this, t, false, false}; Op o = r.op; o.i[3] = r.op.i[4];
            Obs alone; { Sut s; Obs a = read(r.op.i[3], *q.src(o.i[1]).u, *q.src(o.i[2]).u, o); NoSut n; alone.assign(a.begin(), a.end()); }
            if (!same_obs(alone, r.got)) FAIL("read-differs", "read %d of shared variables by thread %d gave something else than alone", r.op.i[3], t);
        }
        cold = false;
        run_ops(0, false, true);
        Op last; last.kind = CHECKALL; step(last, c);
        for (int t = 0; t < RT_MAXT; t++) reads[t].clear();
    }
};
template<typename R, unc::Prop PR> World<R, PR> *World<R, PR>::W;
template<typename R, unc::Prop PR> void go(const Plan &p) { World<R, PR> *w = new World<R, PR>(p); w->run(); delete w; }
#if PART == 1
template void go<double, unc::Prop::mean>(const Plan &);
#elif PART == 2
template void go<SimReal, unc::Prop::est>(const Plan &);
#elif PART == 3
template void go<float, unc::Prop::mean>(const Plan &);
#else
extern template void go<double, unc::Prop::mean>(const Plan &);
extern template void go<SimReal, unc::Prop::est>(const Plan &);
extern template void go<float, unc::Prop::mean>(const Plan &);
const char *const w_name = "alg2";
const char *const *const w_ops = names;
void w_warm() { std::ostringstream s; s << 1.5 << " " << 3 << "x"; std::string t = s.str(); }
void w_run(const Plan &p) { switch (p.cfg[0]) { case 1: go<double, unc::Prop::mean>(p); break; case 2: go<SimReal, unc::Prop::est>(p); break; case 3: go<float, unc::Prop::mean>(p); break; default: go<double, unc::Prop::est>(p); } }

bool w_norace(const Plan &p) { return p.prop == "C08"; }
int w_attrib(const Plan &p, const std::string &c, Plan &n) {
    if (p.prop == "C02") { if (c == "race" || c == "read-differs" || c == "other-changed" || memory_class(c)) return 0; no_schedule(n); return 1; }
    if (p.prop == "C03") { if (c == "race" || c == "other-changed" || memory_class(c)) return 0; no_schedule(n); return 1; }
    if (p.prop == "C04" || p.prop == "C05") { no_faults(n); return 1; }
    if (c == "race" || c == "leak" || c == "read-differs" || c == "wrong-exception") { no_schedule(n); no_faults(n); return 1; }
    return 0;
}

// ------------------------------------------------------------------ generator
static double pick_mean(Rng &r) {
    switch (r.below(8)) { case 0: return r.range(-3, 3); case 1: case 2: return r.uniform(.2, 4); case 3: return r.uniform(-.8, .8); case 4: return r.uniform(1.2, 3); case 5: return r.chance(20) ? r.uniform(-30, 30) : r.uniform(-5, 5); default: return r.uniform(-3, 3); }
}
static double pick_coef(Rng &r) { switch (r.below(7)) { case 0: return 0; case 1: return 1; case 2: return -1; default: return r.uniform(-2, 2); } }
static void fill(Op &o, Rng &r) {
    for (int k = 0; k < NI; k++) o.i[k] = r.below(60);
    o.d[0] = pick_mean(r); o.d[1] = o.kind == NEW ? (r.chance(15) ? 1.0 : r.uniform(.05, 2)) : pick_coef(r); o.d[2] = pick_coef(r); o.d[3] = pick_coef(r);
    if (o.kind == BINS && r.chance(15)) o.d[0] = r.range(-1, 1);
    if (r.chance(12)) { int k = r.below(4); o.d[k] *= std::pow(10., k == 1 && o.kind == NEW ? r.range(-1, 3) : r.range(-4, 4)); }   // other scales
    if ((o.kind == LUNARY || o.kind == LBINARY || o.kind == LASSIGN || o.kind == CONSTANT) && r.chance(12)) o.d[0] *= std::pow(10., r.range(-16, 20));
}
struct W8 { int kind, w; };
static int choose(const std::vector<W8> &v, Rng &r) { int s = 0; for (auto &x : v) s += x.w; int q = r.below(s); for (auto &x : v) { if (q < x.w) return x.kind; q -= x.w; } return v[0].kind; }
void w_gen(Plan &p, Rng &r, bool thorough) {
    const std::string &id = p.prop; int q;
    p.cfg[0] = (q = r.below(10)) < 4 ? 0 : q < 7 ? 1 : q < 9 ? 2 : 3;
    p.cfg[1] = r.range(2, 5); p.nthr = 0; p.cfg[2] = r.chance(40);
    int setup = r.range(3, 8), len = r.range(3, thorough ? 16 : 9), post = 0;
    std::vector<W8> S = {{NEW, 30}, {CONSTANT, 4}, {NEWZERO, 2}, {BIN, 24}, {BINS, 8}, {FUN1, 10}, {FUN2, 6}, {COPY, 4}, {ASSIGN, 4}, {LUNARY, 3}, {LBINARY, 4}, {LASSIGN, 3}, {CONV, 2}, {CONVPROP, 2}, {MOVE, 2}, {EXPRASSIGN, 5}};
    std::vector<W8> T; int fault = 0;
    if (id == "C02") { p.nthr = r.range(2, 3); len = r.range(2, 5); T = {{READ, 80}, {BIN, 5}, {COPY, 5}, {FUN1, 4}, {LUNARY, 2}, {ASSIGN, 3}, {CONV, 2}, {CONVPROP, 2}}; }
    else if (id == "C03") { p.nthr = r.range(2, 3); len = r.range(3, 7); post = r.range(1, 4); T = {{COPY, 14}, {ASSIGN, 12}, {LASSIGN, 10}, {MOVE, 6}, {MOVEASSIGN, 6}, {SWAP, 5}, {MAIL, 6}, {BIN, 10}, {FUN1, 6}, {CONV, 3}, {CONVPROP, 2}, {VEC, 3}, {SELFASSIGN, 2}, {EXPRASSIGN, 10}, {NEW, 5}, {READ, 6}}; }
    else if (id == "C04") { if (p.cfg[0] == 2) p.cfg[0] = 0; fault = 75; p.nthr = 1; T = {{ASSIGN, 25}, {LASSIGN, 25}, {SELFASSIGN, 4}, {EXPRASSIGN, 20}, {NEW, 10}, {BIN, 10}, {COPY, 3}, {MOVE, 3}, {CONSTANT, 3}}; }
    else if (id == "C05") { p.cfg[0] = (q = r.below(10)) < 2 ? 0 : q < 4 ? 1 : q < 9 ? 2 : 3; len = r.range(3, 7); fault = 70; p.nthr = 1; T = {{NEW, 15}, {CONSTANT, 3}, {NEWZERO, 2}, {COPY, 8}, {NEGATE, 4}, {PLUSSIGN, 2}, {BIN, 15}, {BINS, 8}, {LUNARY, 6}, {LBINARY, 8}, {CONV, 5}, {CONVPROP, 3}, {FUN1, 12}, {FUN2, 8}, {READ, 25}, {VEC, 3}, {ASSIGN, 3}, {BADNEW, 3}}; }
    else /* C08 */ { p.nthr = r.chance(40) ? r.range(2, 3) : 0; if (!p.nthr) post = r.range(6, 20); else { len = r.range(3, 8); post = r.range(2, 6); } fault = r.chance(25) ? 20 : 0; if (p.cfg[0] == 2) fault = 0;
        T = {{NEW, 18}, {CONSTANT, 3}, {NEWZERO, 1}, {BADNEW, 2}, {COPY, 3}, {MOVE, 3}, {ASSIGN, 3}, {MOVEASSIGN, 3}, {SWAP, 2}, {NEGATE, 3}, {PLUSSIGN, 1}, {BIN, 30}, {BINS, 8}, {LUNARY, 6}, {LBINARY, 10}, {LASSIGN, 8}, {CONV, 2}, {CONVPROP, 4}, {FUN1, 18}, {FUN2, 14}, {READ, 10}, {MAIL, 5}, {VEC, 2}, {EXPRASSIGN, 8}}; }
    { int g = r.chance(id == "C07" || id == "C08" ? 25 : 8) ? 6 : 0; S.push_back({GAP, 2 * g}); T.push_back({GAP, g}); }
    S.push_back({WIDE, 3}); T.push_back({WIDE, id == "C08" ? 4 : 1});
    if (!r.chance(id == "C08" ? 15 : 3)) S.back().w = T.back().w = 0;
    if (r.chance(60)) for (auto &x : T) if (r.chance(25)) x.w = 0;
    { int s = 0; for (auto &x : T) s += x.w; if (!s) T[0].w = 1; }
    for (int i = 0; i < setup; i++) { Op o; o.t = 0; o.kind = i < 2 ? NEW : choose(S, r); fill(o, r); if (i < 2) o.i[0] = i; p.ops.push_back(o); }
    auto add = [&](int t) {
        Op o; o.t = t; o.kind = choose(T, r); fill(o, r);
        if (id == "C02") { o.i[1] = r.below(p.cfg[1]); o.i[2] = r.below(p.cfg[1]); if (r.chance(70)) o.i[1] = 0; }
        if (fault && r.chance(fault)) {
            bool assigns = o.kind == ASSIGN || o.kind == LASSIGN || o.kind == SELFASSIGN || o.kind == EXPRASSIGN;
            bool simple = o.kind == MOVE || o.kind == MOVEASSIGN || o.kind == SWAP || o.kind == MAIL || o.kind == BADNEW;
            if (id == "C05" && assigns) simple = true;   // those are C04
            if (!simple) { if (p.cfg[0] == 2 && r.chance(65)) { if (!assigns) { o.fk = F_NUM; o.fs = 1; } } else if (!(p.cfg[0] == 2 && assigns)) { o.fk = F_ALLOC; o.fs = 1; } o.fp = o.fk && r.chance(35);
                if (o.fk && (p.cfg[0] == 2 ? r.chance(70) : r.chance(20))) { o.fs = 0; o.fn = r.chance(50) ? r.range(1, 6) : r.range(1, 120); } }
        }
        repeat(p, o, r, 12);
        p.ops.push_back(o);
    };
    for (int t = 1; t <= p.nthr; t++) for (int i = 0; i < len; i++) add(t);
    for (int i = 0; i < post; i++) add(POST);
}
#endif
