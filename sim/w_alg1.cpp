// w_alg1.cpp -- first order variables (C02 C03 C04 C05 C06 C07): programs over
// a set of variables run against the real library and, step by step, against a
// reference model (exact linear propagation in long double).
#define UNCERTAINTIES_EXTERN_UDOUBLE
#include <uncertainties/ureal.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/math.hpp>
#include "wl_math.h"
#include "wl_jump.h"
#include <map>
#include <set>
#include <algorithm>
#include <list>
#include <memory>
#include <sstream>
#include <locale>

namespace unc = uncertainties;
const char *const w_name = "alg1";
enum Kind { NEW, CONSTANT, NEWZERO, BADNEW, COPY, MOVE, ASSIGN, MOVEASSIGN, SELFASSIGN, SWAP, NEGATE, PLUSSIGN, BIN, BINS, CMP, CMPS,
    LUNARY, LBINARY, LNARY, LASSIGN, CHNOM, CONV, FUN1, FUN2, QUERYS, QUERYVAR, READ, MAIL, VEC, EXPRASSIGN, CHECKALL, WIDE, GAP, NKIND };
static const char *const names[] = {"new", "constant", "newzero", "badnew", "copy", "move", "assign", "moveassign", "selfassign", "swap", "negate", "plus", "bin", "bins", "cmp", "cmps",
    "unary", "binary", "nary", "binary_assign", "change_nom", "convert", "fun1", "fun2", "query_s", "query_var", "read", "mail", "vector", "exprassign", "checkall", "wide", "gap", 0};
const char *const *const w_ops = names;
enum { NSH_MAX = 8, NPR = 5, NREAD = 20 };

void w_warm() { std::ostringstream s; s << 1.5 << " " << 3 << "x"; std::string t = s.str(); }

// c: base -> derivative times sdev; amb: a variable with zero sdev was involved; lo: a conversion through float was involved
struct Model { LD mu; std::map<int, LD> c; bool amb, lo; Model(): mu(0), amb(false), lo(false) {} };
typedef std::vector<double> Obs;
static bool same_obs(const Obs &a, const Obs &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
    return true;
}
static double hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return double(h >> 12); }

template<typename R> struct Other { typedef double type; };
template<> struct Other<double> { typedef float type; };
template<typename R> struct Eps { static LD eps() { return std::numeric_limits<double>::epsilon(); } };
template<> struct Eps<float> { static LD eps() { return std::numeric_limits<float>::epsilon(); } };
static const LD FEPS = std::numeric_limits<float>::epsilon();

// an iterator which computes the variables when they are asked for, with the function it is given to
template<typename U> struct Lazy {
    typedef typename U::real_type R; const U *const *p; int depth;
    U operator*() const { const R one(1); if (depth) { Lazy l = {p, depth - 1}, e = {p + 1, depth - 1}; return nary(l, e, R(2), &one); } return nary(*p, *p + 1, R(2), &one); }
    Lazy &operator++() { ++p; return *this; }
    bool operator!=(const Lazy &o) const { return p != o.p; } bool operator==(const Lazy &o) const { return p == o.p; }
    typedef std::input_iterator_tag iterator_category; typedef U value_type; typedef std::ptrdiff_t difference_type; typedef const U *pointer; typedef U reference;
};
template<typename R> struct World {
    typedef unc::UReal<R> U;
    struct Slot { U *u; Model m; Slot(): u(nullptr) {} };
    struct Base { U *w; LD s; unc::Id id; int by; };
    struct Rd { Op op; Obs got; };
    const Plan &P; int nsh; bool cold;
    Slot sh[NSH_MAX], pr[RT_MAXT][NPR], mail; Base base[1400]; int nbase; char mailmtx[8];
    std::set<int> known[RT_MAXT];
    std::vector<Rd> reads[RT_MAXT];
    LD eps;

    World(const Plan &p): P(p), nsh(p.cfg[1]), cold(p.cfg[2] & 1), nbase(0), eps(Eps<R>::eps()) {
        if (nsh < 1) nsh = 1; if (nsh > NSH_MAX) nsh = NSH_MAX;
        std::memset(mailmtx, 0, sizeof mailmtx);
        Sut s;
        for (int i = 0; i < nsh; i++) sh[i].u = new U();
        for (int t = 0; t < RT_MAXT; t++) for (int i = 0; i < NPR; i++) pr[t][i].u = t <= P.nthr ? new U() : nullptr;
        mail.u = new U();
    }
    ~World() {
        Sut s;
        for (int i = 0; i < nsh; i++) delete sh[i].u;
        for (int t = 0; t < RT_MAXT; t++) for (int i = 0; i < NPR; i++) delete pr[t][i].u;
        for (int i = 0; i < nbase; i++) delete base[i].w;
        delete mail.u;
    }
    static R mk(LD x) { return R((double)x); }

    // ---- which slots an operation of thread t in a phase may use
    struct Ctx { World *w; int t; bool post, setup;
        Slot &dst(int i) { i = i < 0 ? -i : i; if (setup) return w->sh[i % w->nsh]; if (post) { int n = w->nsh + (w->P.nthr + 1) * NPR; i %= n; return i < w->nsh ? w->sh[i] : w->pr[(i - w->nsh) / NPR][(i - w->nsh) % NPR]; } return w->pr[t][i % NPR]; }
        Slot &src(int i) { i = i < 0 ? -i : i; if (setup || post) return dst(i); int n = w->nsh + NPR; i %= n; return i < w->nsh ? w->sh[i] : w->pr[t][i - w->nsh]; }
        bool shared(int i) { i = i < 0 ? -i : i; return !setup && !post && i % (w->nsh + NPR) < w->nsh; }
    };

    // In a cold plan the checks look at copies of the variables shared by the threads,
    // and of the ones they are computed from, so that the threads are the first to
    // query them.
    struct View { U *k; const U &u; View(const World &w, const Slot &s): k(w.cool(s) ? new U(*s.u) : nullptr), u(k ? *k : *s.u) {} ~View() { delete k; } View(const View &); };
    bool cool(const Slot &s) const { return cold && &s >= sh && &s < sh + NSH_MAX; }

    // ---- observation, by const access only and not instrumented
    Obs observe(const Slot &s, int t) {
        NoSut n; Obs o; View v(*this, s); const U &u = v.u;
        o.push_back((double)ld(u.n())); o.push_back(u.isindep()); o.push_back((double)u.indepid());
        std::set<int> k = known[t]; for (auto &c : s.m.c) k.insert(c.first);
        for (int b : k) o.push_back((double)ld(cov(u, *base[b].w)));
        return o;
    }
    std::vector<Slot *> own(Ctx &c) {
        std::vector<Slot *> v;
        if (c.setup) for (int i = 0; i < nsh; i++) v.push_back(&sh[i]);
        else if (c.post) { for (int i = 0; i < nsh; i++) v.push_back(&sh[i]); for (int t = 0; t <= P.nthr; t++) for (int i = 0; i < NPR; i++) v.push_back(&pr[t][i]); }
        else { for (int i = 0; i < NPR; i++) v.push_back(&pr[c.t][i]); for (int i = 0; i < nsh; i++) v.push_back(&sh[i]); }
        return v;
    }
    LD meas(const U &u, int b) { return ld(cov(u, *base[b].w)) / base[b].s; }

    // ---- check a variable against the model
    // tolerances: tmu on the mean, tc[b] on the coefficients; then the model takes the measured values
    void check(Ctx &c, Slot &s, LD tmu, const std::map<int, LD> &tc, const char *what) {
        NoSut ns; rt_count_check();
        View vw(*this, s); const U &u = vw.u; Model &m = s.m;
        LD mu = ld(u.n());
        if (!close_to(mu, m.mu, tmu)) FAIL("mean", "%s: mean is %.17Lg, expected %.17Lg", what, mu, m.mu);
        LD s2 = 0, nz = 0; int cnt = 0, last = -1;
        for (auto &k : m.c) {
            LD g = meas(u, k.first); auto it = tc.find(k.first); LD tol = it == tc.end() ? 8 * eps * std::fabs(k.second) : it->second;
            if (!close_to(g, k.second, tol)) FAIL("coefficient", "%s: derivative times sdev for base %d is %.17Lg, expected %.17Lg", what, k.first, g, k.second);
            k.second = g; s2 += g * g; if (g != 0) nz += 1, cnt++, last = k.first;
        }
        (void)nz;
        for (int b : known[c.t]) if (!m.c.count(b)) { LD g = ld(cov(u, *base[b].w)); if (g != 0) FAIL("unrelated", "%s: covariance %.17Lg with an unrelated variable", what, g); }
        m.mu = mu; rt_note((uint64_t)(long long)((double)mu * 1e6));
        LD sd = std::sqrt(s2);
        sdcheck(u, m, sd, what);
        unc::Id id = u.indepid();
        if (cnt >= 2) { if (u.isindep() || id >= 0) FAIL("isindep", "%s: depends on %d variables but indepid is %lld, isindep %d", what, cnt, (long long)id, (int)u.isindep()); }
        else if (!m.amb && m.c.size() == 1 && cnt == 1) { if (!u.isindep() || id != base[last].id) FAIL("isindep", "%s: depends on one variable with id %lld but indepid is %lld, isindep %d", what, (long long)base[last].id, (long long)id, (int)u.isindep()); }
        else if (!m.amb && m.c.empty()) { if (!u.isindep() || id != 0) FAIL("isindep", "%s: depends on no variable but indepid is %lld, isindep %d", what, (long long)id, (int)u.isindep()); }
    }
    LD sdeps(const Model &m) { return m.lo && eps < FEPS ? FEPS : eps; }
    void sdcheck(const U &u, const Model &m, LD sd, const char *what) {
        LD eps = sdeps(m), g = ld(u.s()), t = 16 * eps * sd;
        if (!close_to(g, sd, t)) FAIL("sdev", "%s: const s() is %.17Lg, the coefficients give %.17Lg", what, g, sd);
        g = ld(unc::sdev(u)); if (!close_to(g, sd, t)) FAIL("sdev", "%s: sdev() is %.17Lg, the coefficients give %.17Lg", what, g, sd);
        g = ld(var(u)); if (!close_to(g, sd * sd, 40 * eps * sd * sd)) FAIL("var", "%s: const var() is %.17Lg, the coefficients give %.17Lg", what, g, sd * sd);
        g = ld(cov(u, u)); if (!close_to(g, sd * sd, 40 * eps * sd * sd)) FAIL("var", "%s: cov(x, x) is %.17Lg, the coefficients give %.17Lg", what, g, sd * sd);
    }
    void crosscheck(Ctx &c, Slot &s, const char *what) {   // covariance with all the others
        NoSut ns;
        for (Slot *o : own(c)) {
            LD e = 0, a = 0; for (auto &k : s.m.c) { auto it = o->m.c.find(k.first); if (it != o->m.c.end()) { e += k.second * it->second; a += std::fabs(k.second * it->second); } }
            View vx(*this, s), vy(*this, *o); const U &x = vx.u, &y = vy.u; LD g = ld(cov(x, y)), g2 = ld(cov(y, x));
            if (!close_to(g, e, 40 * eps * a)) FAIL("cov", "%s: covariance with another variable is %.17Lg, the coefficients give %.17Lg", what, g, e);
            if (!close_to(g2, e, 40 * eps * a)) FAIL("cov", "%s: covariance is not symmetric: %.17Lg, %.17Lg", what, g, g2);
        }
    }
    void check_others(Ctx &c, Slot *d, const char *what) {   // nothing else changed
        NoSut ns; std::map<int, LD> none;
        for (Slot *o : own(c)) if (o != d) {
            View vw(*this, *o); const U &u = vw.u; rt_count_check();
            LD mu = ld(u.n()); if (!close_to(mu, o->m.mu, 0)) FAIL("other-changed", "%s: the mean of another variable changed from %.17Lg to %.17Lg", what, o->m.mu, mu);
            LD s2 = 0; for (auto &k : o->m.c) { LD g = meas(u, k.first); if (!close_to(g, k.second, 0)) FAIL("other-changed", "%s: a coefficient of another variable changed from %.17Lg to %.17Lg", what, k.second, g); s2 += g * g; }
            sdcheck(u, o->m, std::sqrt(s2), what);
        }
    }

    // ---- run an operation of the library, with its faults
    template<typename F> void attempt(Ctx &c, const Op &o, F f) {
        int lim = 0;
        for (int n = o.fs ? 1 : o.fn; o.fk; n++) {
            std::vector<Slot *> ss = own(c); std::vector<Obs> before; std::vector<LD> sb;
            for (Slot *s : ss) { before.push_back(observe(*s, c.t)); NoSut ns; View vw(*this, *s); sb.push_back(ld(vw.u.s())); }
            const char *got = "nothing"; bool threw = false;
            sim_flavour = o.i[5]; rt_fault_arm(o.fk, n, o.fp);
            try { Sut s; f(); }
            catch (const SimFault &) { threw = true; got = "the exception of the numerical type"; }
            catch (const std::bad_alloc &) { threw = true; got = "std::bad_alloc"; }
            catch (const std::exception &) { threw = true; got = "another exception"; }
            catch (...) { threw = true; got = "an unknown exception"; }
            int fired = rt_fault_disarm();
            if (threw && !fired) FAIL("unexpected-exception", "%s: threw %s although nothing failed", names[o.kind], got);
            if (fired && o.fk == F_ALLOC && threw && strcmp(got, "std::bad_alloc")) FAIL("wrong-exception", "%s: memory exhausted at allocation %d, threw %s", names[o.kind], n, got);
            if (fired && o.fk == F_NUM && strncmp(got, "the exc", 7)) FAIL("wrong-exception", "%s: the numerical type threw at its operation %d, the caller got %s", names[o.kind], n, got);
            if (!threw) return;
            for (size_t i = 0; i < ss.size(); i++) {
                if (!same_obs(before[i], observe(*ss[i], c.t))) FAIL("changed-by-failure", "%s: failed at fault point %d, and a variable changed", names[o.kind], n);
                NoSut ns; View vw(*this, *ss[i]); LD s = ld(vw.u.s()); if (!close_to(s, sb[i], 8 * eps * sb[i])) FAIL("changed-by-failure", "%s: failed at fault point %d, and the standard deviation of a variable changed from %.17Lg to %.17Lg", names[o.kind], n, sb[i], s);
            }
            if (!o.fs || ++lim > 400) break;
        }
        try { Sut s; f(); }
        catch (const std::exception &e) { FAIL("unexpected-exception", "%s: threw %s", names[o.kind], e.what()); }
        catch (...) { FAIL("unexpected-exception", "%s: threw", names[o.kind]); }
    }
    struct Term { LD d, err; Slot *s; };
    // expected result of linear propagation, with tolerances
    bool expect(LD mu, LD tmu, const std::vector<Term> &ts, Model &m, std::map<int, LD> &tc) {
        m = Model(); m.mu = mu;
        for (auto &t : ts) { m.amb = m.amb || t.s->m.amb; m.lo = m.lo || t.s->m.lo; for (auto &k : t.s->m.c) { m.c[k.first] += t.d * k.second; tc[k.first] += (32 * eps * std::fabs(t.d) + t.err) * std::fabs(k.second) + 1e-300L; } }
        if (!(std::fabs(mu) < 1e15L) || !(tmu < 1 || tmu < 1e-4L * std::fabs(mu))) return false;
        if (mu != 0 && std::fabs(mu) < 1e-15L) return false;
        for (auto &k : m.c) if (!(std::fabs(k.second) < 1e12L) || (k.second != 0 && std::fabs(k.second) < 1e-13L && std::fabs(k.second) > 10 * tc[k.first])) return false;
        return true;
    }
    typedef std::map<int, LD> TC;
    void commit(Ctx &c, Slot &d, const Model &m, LD tmu, const TC &tc, const char *what) { d.m = m; check(c, d, tmu, tc, what); crosscheck(c, d, what); check_others(c, &d, what); }
    template<typename F> void make(Ctx &c, const Op &o, Slot &d, LD mu, LD tmu, const std::vector<Term> &ts, F f) {   // a new object from an expression
        Model m; TC tc; if (!expect(mu, tmu, ts, m, tc)) return;
        if (o.kind == CONV) m.lo = true;
        U *q = nullptr;
        attempt(c, o, [&] { q = f(); });
        { Sut s; delete d.u; d.u = q; }
        rt_count_op(); commit(c, d, m, tmu, tc, names[o.kind]);
    }
    template<typename F> void mutate(Ctx &c, const Op &o, Slot &d, LD mu, LD tmu, const std::vector<Term> &ts, F f) {
        Model m; TC tc; if (!expect(mu, tmu, ts, m, tc)) return;
        attempt(c, o, f);
        rt_count_op(); commit(c, d, m, tmu, tc, names[o.kind]);
    }
    void newbase(Ctx &c, Slot &d, LD s) {
        const int ib = nbase++; Base &b = base[ib]; b.by = c.t; b.w = nullptr;
        { NoSut ns; View vw(*this, d); b.s = ld(vw.u.s()); b.id = d.u->indepid(); if (!close_to(b.s, s, 4 * eps * s)) FAIL("sdev", "new: s() is %.17Lg, given %.17Lg", b.s, s); if (b.id <= 0 || !d.u->isindep()) FAIL("isindep", "new: indepid() %lld, isindep() %d", (long long)b.id, (int)d.u->isindep()); }
        { Sut q; b.w = new U(*d.u); }
        known[c.t].insert(ib);
        d.m = Model(); d.m.mu = ld(d.u->n()); d.m.c[ib] = b.s;
    }

    // ---- reads: what is obtained from const variables
    template<typename V> static void ob(Obs &o, const V &u, const U &y) { o.push_back((double)ld(u.n())); o.push_back((double)ld(const_cast<const V &>(u).s())); o.push_back((double)ld(cov(u, y))); o.push_back(u.isindep()); o.push_back((double)u.indepid()); }
    Obs read(int k, const U &x, const U &y, const Op &op) {
        Obs o; 
        switch (k) {
        case 0: o.push_back((double)ld(x.n())); o.push_back((double)ld(x.s())); o.push_back(x.isindep()); o.push_back((double)x.indepid()); o.push_back((double)ld(unc::nom(x))); o.push_back((double)ld(unc::sdev(x))); break;
        case 1: o.push_back((double)ld(var(x))); o.push_back((double)ld(cov(x, x))); break;
        case 2: o.push_back((double)ld(cov(x, y))); o.push_back((double)ld(cov(y, x))); break;
        case 3: o.push_back((double)ld(corr(x, y))); break;
        case 4: { U c(x); try { o.push_back((double)ld(c.grad(y))); } catch (const SimFault &) { throw; } catch (const std::invalid_argument &) { o.push_back(-12345); } break; }
        case 5: { std::string s = unc::format(x), s2 = x.format(op.d[1] > 0 ? 2.0f : 3.5f, " +/- "); o.push_back(hash_str(s)); o.push_back(hash_str(s2)); break; }
        case 6: { std::ostringstream s; s << x; if (!s) throw std::bad_alloc(); o.push_back(hash_str(s.str())); break; }
        case 7: { U c(x); ob(o, c, y); U d; d = x; ob(o, d, y); break; }
        case 8: ob(o, x + y, y); ob(o, x - y, y); break;
        case 9: ob(o, x * y, y); break;
        case 10: ob(o, -x, y); ob(o, +x, y); break;
        case 11: { LD v = ld(x.n()); int f = pick1(op.i[3], v); if (f >= 0) ob(o, apply1(f, x), y); break; }
        case 12: { unc::UReal<typename Other<R>::type> c = conv(x); o.push_back((double)ld(c.n())); o.push_back((double)ld(c.s())); break; }
        case 13: o.push_back(unc::isfinite(x)); o.push_back(unc::isnormal(x)); break;
        case 14: ob(o, change_nom(x, mk(op.d[0])), y); break;
        case 15: { std::list<U> l; l.push_back(x); l.push_back(y); l.push_back(x); R dx[3] = {mk(op.d[0]), mk(op.d[1]), mk(1)}; ob(o, nary(l.cbegin(), l.cend(), mk(1), dx), y); break; }
        case 16: { int f = pick2(op.i[3], ld(x.n()), ld(y.n())); if (f >= 0) ob(o, apply2(f, x, y), y); break; }
        case 17: { U c(mk(op.d[0])); c += x; c *= y; ob(o, c, y); break; }
        case 18: { U c = x + mk(op.d[0]), d = mk(op.d[1]) * y; ob(o, c - d, y); break; }
        case 19: { U c(y); c.binary_assign(x, mk(op.d[0]), mk(op.d[1]), mk(2)); ob(o, c, y); break; }
        }
        return o;
    }
    template<typename Q> static unc::UReal<typename Other<Q>::type> conv(const unc::UReal<Q> &x) { return x; }
    static unc::UReal<double> conv(const unc::UReal<SimReal> &) { return unc::UReal<double>(); }
    static void roundtrip(U *&q, const unc::UReal<double> &x, double *) { unc::UReal<float> f = x; q = new U(unc::UReal<double>(f)); }
    static void roundtrip(U *&q, const unc::UReal<float> &x, float *) { unc::UReal<double> f = x; q = new U(unc::UReal<float>(f)); }
    static void roundtrip(U *&q, const unc::UReal<SimReal> &x, SimReal *) { q = new U(x); }

    void step(const Op &o, Ctx &c) {
        Slot &d = c.dst(o.i[0]), &x = c.src(o.i[1]), &y = c.src(o.i[2]);
        // a private variable that may be moved from or swapped
        Slot &px = c.dst(o.i[1]);
        const LD xm = x.m.mu, ym = y.m.mu, dm = d.m.mu; const R d0 = mk(o.d[0]), d1 = mk(o.d[1]), d2 = mk(o.d[2]), d3 = mk(o.d[3]);
        const LD D0 = ld(d0), D1 = ld(d1), D2 = ld(d2), D3 = ld(d3); (void)D3;
        const U &xu = *x.u, &yu = *y.u;
        rt_setop("%s %d %d %d %d", names[o.kind], o.i[0], o.i[1], o.i[2], o.i[3]);
        std::vector<Term> none;
        switch (o.kind) {
        case NEW: {
            if (nbase >= 1390) return;
            LD s = std::fabs(D1); if (s < 1e-3L) s = .5L; R rs = mk(s);
            U *q = nullptr; attempt(c, o, [&] { q = new U(d0, rs); });
            { Sut k; delete d.u; d.u = q; } rt_count_op();
            newbase(c, d, ld(rs)); d.m.mu = D0; check(c, d, 0, TC(), "new"); check_others(c, &d, "new"); break; }
        case CONSTANT: make(c, o, d, D0, 0, none, [&] { return new U(d0); }); break;
        case NEWZERO: { U *q = nullptr; attempt(c, o, [&] { q = new U(d0, mk(0)); }); { Sut k; delete d.u; d.u = q; } rt_count_op();
            Model m; m.mu = D0; m.amb = true; commit(c, d, m, 0, TC(), "newzero"); break; }
        case BADNEW: { bool ok = false; { Sut s; try { U q(d0, mk(-1.5)); } catch (const std::invalid_argument &) { ok = true; } catch (...) { } } if (!ok) FAIL("badnew", "negative standard deviation accepted"); check_others(c, nullptr, "badnew"); break; }
        case COPY: { std::vector<Term> t = {{1, 0, &x}}; make(c, o, d, xm, 0, t, [&] { return new U(xu); }); break; }
        case MOVE: { if (&px == &d) return; Model m = px.m; U *q = nullptr; attempt(c, Op(), [&] { q = new U(std::move(*px.u)); *px.u = U(d0); }); { Sut s; delete d.u; d.u = q; } px.m = Model(); px.m.mu = D0; d.m = m; rt_count_op();
            commit(c, px, Model(px.m), 0, TC(), "moved-from, reassigned"); commit(c, d, m, 0, TC(), "move"); break; }
        case ASSIGN: { std::vector<Term> t = {{1, 0, &x}}; mutate(c, o, d, xm, 0, t, [&] { if (o.i[4] % 3) *d.u = xu; else *d.u = U(xu); }); break; }
        case MOVEASSIGN: { if (&px == &d) return; Model m = px.m; attempt(c, Op(), [&] { *d.u = std::move(*px.u); *px.u = U(d0); }); px.m = Model(); px.m.mu = D0; rt_count_op();
            d.m = m; commit(c, px, Model(px.m), 0, TC(), "moved-from, reassigned"); commit(c, d, m, 0, TC(), "moveassign"); break; }
        case SELFASSIGN: { std::vector<Term> t = {{1, 0, &d}}; const U &self = *d.u; mutate(c, o, d, dm, 0, t, [&] { *d.u = self; }); break; }
        case SWAP: { if (&px == &d) return; attempt(c, Op(), [&] { using std::swap; swap(*d.u, *px.u); }); std::swap(d.m, px.m); rt_count_op(); check(c, d, 0, TC(), "swap"); check(c, px, 0, TC(), "swap"); check_others(c, nullptr, "swap"); break; }
        case NEGATE: { std::vector<Term> t = {{-1, 0, &x}}; make(c, o, d, -xm, 0, t, [&] { return new U(sign(true, xu, o.i[4] % 3)); }); break; }
        case PLUSSIGN: { std::vector<Term> t = {{1, 0, &x}}; make(c, o, d, xm, 0, t, [&] { return new U(sign(false, xu, o.i[4] % 3)); }); break; }
        case BIN: case EXPRASSIGN: {
            Slot &a = o.kind == BIN ? x : d, &b = o.kind == BIN ? y : x; const LD am = a.m.mu, bm = b.m.mu; const U &au = *a.u, &bu = *b.u;
            int k = ((o.i[3] % 4) + 4) % 4; LD mu, da, db, tm; std::vector<Term> t;
            switch (k) { case 0: mu = am + bm; da = 1; db = 1; tm = 4 * eps * (std::fabs(am) + std::fabs(bm)); break; case 1: mu = am - bm; da = 1; db = -1; tm = 4 * eps * (std::fabs(am) + std::fabs(bm)); break; case 2: mu = am * bm; da = bm; db = am; tm = 8 * eps * std::fabs(mu); break;
            default: if (std::fabs(bm) < 1e-3L) return; mu = am / bm; da = 1 / bm; db = -am / (bm * bm); tm = 8 * eps * std::fabs(mu); }
            t = {{da, 0, &a}, {db, 0, &b}};
            auto f = [&]() -> U { return arith(k, au, bu, o.i[4] % 5); };
            if (o.kind == BIN) make(c, o, d, mu, tm, t, [&] { return new U(f()); }); else mutate(c, o, d, mu, tm, t, [&] { *d.u = f(); });
            break; }
        case BINS: {
            int k = ((o.i[3] % 8) + 8) % 8; LD mu, dx, tm; LD K = D0;
            switch (k) { case 0: case 1: mu = xm + K; dx = 1; break; case 2: mu = xm - K; dx = 1; break; case 3: mu = K - xm; dx = -1; break; case 4: case 5: mu = xm * K; dx = K; break;
            case 6: if (std::fabs(K) < 1e-3L) return; mu = xm / K; dx = 1 / K; break; default: if (std::fabs(xm) < 1e-3L) return; mu = K / xm; dx = -K / (xm * xm); }
            tm = 8 * eps * (std::fabs(mu) + (k < 4 ? std::fabs(xm) + std::fabs(K) : 0)); std::vector<Term> t = {{dx, 0, &x}};
            make(c, o, d, mu, tm, t, [&]() -> U * { if (o.i[4] & 1) switch (k) { case 0: return new U(U(xu) + d0); case 1: return new U(d0 + U(xu)); case 2: return new U(U(xu) - R(d0)); case 3: return new U(R(d0) - U(xu)); case 4: return new U(U(xu) * R(d0)); case 5: return new U(R(d0) * U(xu)); case 6: return new U(U(xu) / d0); default: return new U(d0 / U(xu)); }
                switch (k) { case 0: return new U(xu + d0); case 1: return new U(d0 + xu); case 2: return new U(xu - d0); case 3: return new U(d0 - xu); case 4: return new U(xu * d0); case 5: return new U(d0 * xu); case 6: return new U(xu / d0); default: return new U(d0 / xu); } });
            break; }
        case CMP: case CMPS: {
            int k = ((o.i[3] % 4) + 4) % 4; Slot cs; cs.m.mu = D0; Slot &b = o.kind == CMP ? x : cs; const LD bm = b.m.mu; LD mu, da, db, tm;
            switch (k) { case 0: mu = dm + bm; da = 1; db = 1; tm = 4 * eps * (std::fabs(dm) + std::fabs(bm)); break; case 1: mu = dm - bm; da = 1; db = -1; tm = 4 * eps * (std::fabs(dm) + std::fabs(bm)); break; case 2: mu = dm * bm; da = bm; db = dm; tm = 8 * eps * std::fabs(mu); break;
            default: if (std::fabs(bm) < 1e-3L) return; mu = dm / bm; da = 1 / bm; db = -dm / (bm * bm); tm = 8 * eps * std::fabs(mu); }
            std::vector<Term> t = {{da, 0, &d}, {db, 0, &b}};
            if (o.kind == CMP) mutate(c, o, d, mu, tm, t, [&] { compound(k, *d.u, xu, o.i[4] % 3); });
            else mutate(c, o, d, mu, tm, t, [&] { switch (o.i[4] % 3) { case 0: compoundf(k, *d.u, d0); break; case 1: compoundf(k, *d.u, R(d0)); break; default: compoundf(k, *d.u, U(d0)); } });
            break; }
        case LUNARY: { std::vector<Term> t = {{D1, 0, &x}}; make(c, o, d, D0, 0, t, [&] { return o.i[4] & 1 ? new U(unary(U(xu), d0, d1)) : new U(unary(xu, d0, d1)); }); break; }
        case LBINARY: { std::vector<Term> t = {{D1, 0, &x}, {D2, 0, &y}}; make(c, o, d, D0, 0, t, [&] { return o.i[4] & 1 ? new U(binary(U(xu), U(yu), d0, d1, d2)) : new U(binary(xu, yu, d0, d1, d2)); }); break; }
        case LNARY: {
            int n = ((o.i[5] % 6) + 6) % 6; std::vector<Slot *> ss; std::vector<Term> t; LD co[6] = {D1, D2, D3, 1, -D1, D2};
            for (int i = 0; i < n; i++) { Slot &s = c.src(o.i[1] + i * (1 + std::abs(o.i[2]))); ss.push_back(&s); t.push_back({co[i], 0, &s}); }
            std::list<U> l; std::vector<R> dx; { Sut q; for (auto s : ss) l.push_back(*s->u); for (int i = 0; i < n; i++) dx.push_back(mk(co[i])); }
            std::vector<const U *> ptr; for (auto &q : l) ptr.push_back(&q);
            if (o.i[4] % 4 == 0) { Lazy<U> b = {ptr.data(), o.i[3] % 3}, e = {ptr.data() + n, 0}; make(c, o, d, D0, 0, t, [&] { return new U(nary(b, e, d0, dx.begin())); }); }
            else make(c, o, d, D0, 0, t, [&] { return new U(nary(l.begin(), l.end(), d0, dx.begin())); });
            { Sut q; l.clear(); dx.clear(); dx.shrink_to_fit(); } break; }
        case LASSIGN: { std::vector<Term> t = {{D1, 0, &d}, {D2, 0, &x}}; mutate(c, o, d, D0, 0, t, [&] { if (o.i[4] & 1) d.u->binary_assign(U(xu), d0, d1, d2); else d.u->binary_assign(xu, d0, d1, d2); }); break; }
        case CHNOM: { std::vector<Term> t = {{1, 0, &x}}; make(c, o, d, D0, 0, t, [&] { return o.i[4] & 1 ? new U(change_nom(U(xu), d0)) : new U(change_nom(xu, d0)); }); break; }
        case CONV: { std::vector<Term> t = {{1, 4 * FEPS, &x}}; make(c, o, d, xm, 2 * FEPS * std::fabs(xm), t, [&] { U *q = nullptr; roundtrip(q, xu, (R *)0); return q; }); break; }
        case FUN1: { int k = pick1(o.i[3], xm); if (k < 0) return; Fun1 r = fun1_ref(k, xm); std::vector<Term> t = {{r.d, 128 * eps * (std::fabs(r.d) + 1), &x}}; make(c, o, d, r.f, 32 * eps * (std::fabs(r.f) + 1), t, [&] { return new U(apply1(k, xu, o.i[4] % 3)); }); break; }
        case FUN2: if (o.i[5] % 4 == 0) {   // whole constant exponent: any base, zero included
                int e = o.i[4] % 8 - 3; if (std::fabs(xm) > 12 || (e < 0 && std::fabs(xm) < .2L)) return; LD f, p, q; powi_ref(xm, e, f, p, q); if (std::fabs(f) > 1e7L) return; const R ee = mk(e); std::vector<Term> t = {{p, 128 * eps * (std::fabs(p) + 1), &x}};
                make(c, o, d, f, 64 * eps * (std::fabs(f) + 1), t, [&] { return new U(pow(xu, U(ee))); }); break; }
            else { int k = pick2(o.i[3], xm, ym); if (k < 0) return; Fun2 r = fun2_ref(k, xm, ym); std::vector<Term> t = {{r.dx, 128 * eps * (std::fabs(r.dx) + 1), &x}, {r.dy, 128 * eps * (std::fabs(r.dy) + 1), &y}}; make(c, o, d, r.f, 64 * eps * (std::fabs(r.f) + 1 + std::fabs(xm) + std::fabs(ym)), t, [&] { return new U(apply2(k, xu, yu, o.i[4] % 5)); }); break; }
        case QUERYS: case QUERYVAR: {
            LD s2 = 0; for (auto &k : d.m.c) s2 += k.second * k.second;
            R g = mk(0); if (o.fk) attempt(c, o, [&] { g = o.kind == QUERYS ? d.u->s() : var(*d.u); }); else { Sut s; g = o.kind == QUERYS ? d.u->s() : var(*d.u); }
            LD e = o.kind == QUERYS ? std::sqrt(s2) : s2; rt_count_op();
            if (!close_to(ld(g), e, 40 * sdeps(d.m) * e)) FAIL("sdev", "%s gives %.17Lg, the coefficients give %.17Lg", names[o.kind], ld(g), e);
            check(c, d, 0, TC(), names[o.kind]); break; }
        case READ: {
            int k = ((o.i[3] % NREAD) + NREAD) % NREAD; Op q = o; q.i[3] = o.i[4];
            if (k == 3 && (x.m.c.empty() || y.m.c.empty())) k = 2;
            Obs r; attempt(c, o, [&] { Obs t = read(k, xu, yu, q); NoSut n; r.assign(t.begin(), t.end()); });
            rt_count_op(); for (double v : r) { uint64_t b; std::memcpy(&b, &v, 8); rt_note(b); }
            if (c.shared(o.i[1]) && c.shared(o.i[2])) { Rd rd; rd.op = o; rd.op.i[3] = k; rd.got.assign(r.begin(), r.end()); reads[c.t].push_back(rd); }
            check_read(k, x, y, q, r); check_others(c, nullptr, "read"); break; }
        case MAIL: { rt_lock(mailmtx); { Sut s; std::swap(*d.u, *mail.u); } std::swap(d.m, mail.m); rt_unlock(mailmtx); rt_count_op(); check(c, d, 0, TC(), "mail"); crosscheck(c, d, "mail"); break; }
        case VEC: { std::vector<Term> t = {{1, 0, &x}}; make(c, o, d, xm, 0, t, [&] { std::vector<U> v; for (int i = 0; i < 5; i++) { v.push_back(xu); v.push_back(yu); } v.erase(v.begin(), v.begin() + 4); v.insert(v.begin(), yu); std::reverse(v.begin(), v.end()); v.resize(v.size() - 1); return new U(v[1 + 2 * (o.i[4] & 1)]); }); break; }
        case WIDE: {   // depends on many variables at once
            int n = o.i[5] >= 57 ? 30 + 2 * o.i[4] : 4 + o.i[5] % 22; if (nbase + n > 1390) return;
            std::vector<Slot> tmp(n + 2); std::vector<R> co; std::vector<Term> t; Rng r(o.i[3] * 64 + o.i[4]); int m = 0;
            for (int i = 0; i < n; i++) {
                Slot *s;
                if (o.i[2] & 1 && i % 7 == 3) s = i & 1 ? &x : &y;
                else { s = &tmp[m++]; LD q = r.uniform(.1, 1); R rs = mk(q), rm = mk(r.uniform(-1, 1)); attempt(c, Op(), [&] { s->u = new U(rm, rs); }); newbase(c, *s, ld(rs)); }
                { Sut q; co.push_back(mk(r.uniform(-1.5, 1.5))); } t.push_back({ld(co[i]), 0, s});
            }
            std::vector<U> l; { Sut q; for (auto &k : t) l.push_back(*k.s->u); }
            make(c, o, d, D0, 0, t, [&] { return new U(nary(l.begin(), l.end(), d0, co.begin())); });
            { Sut q; l.clear(); l.shrink_to_fit(); co.clear(); co.shrink_to_fit(); for (auto &k : tmp) delete k.u; } break; }
        case GAP: {   // many identifiers are given to variables of somebody else
            if (c.t == 0 && o.i[3] % 4 == 0) { NoSut q; if (!id_jump(o.i[4], o.i[5])) rt_probe(1); break; }
            static const int ns[] = {3, 9, 30, 110, 450, 1200}; Sut s; for (int k = ns[o.i[1] % 6] + o.i[2] % 8; k > 0; k--) { unc::UReal<double> u(1, 1); if (u.indepid() <= 0) break; } break; }
        case CHECKALL: check_others(c, nullptr, "at the end"); for (Slot *s : own(c)) crosscheck(c, *s, "at the end"); break;
        }
    }
    // the reads with a simple exact answer
    void check_read(int k, Slot &x, Slot &y, const Op &, const Obs &r) {
        LD vx = 0, vy = 0, cv = 0, ac = 0; for (auto &q : x.m.c) { vx += q.second * q.second; auto it = y.m.c.find(q.first); if (it != y.m.c.end()) { cv += q.second * it->second; ac += std::fabs(q.second * it->second); } }
        for (auto &q : y.m.c) vy += q.second * q.second;
        auto chk = [&](double g, LD e, LD t) { if (!close_to(g, e, t + 2e-16L * std::fabs(e))) FAIL("read", "read %d of const variables gives %.17g, expected %.17Lg", k, g, e); };
        LD s = std::sqrt(vx), eps = std::max(sdeps(x.m), sdeps(y.m));
        switch (k) {
        case 0: chk(r[0], x.m.mu, 0); chk(r[1], s, 16 * eps * s); chk(r[4], x.m.mu, 0); chk(r[5], s, 16 * eps * s); break;
        case 1: chk(r[0], vx, 40 * eps * vx); chk(r[1], vx, 40 * eps * vx); break;
        case 2: chk(r[0], cv, 40 * eps * ac); chk(r[1], cv, 40 * eps * ac); break;
        case 3: if (vx > 1e-12L && vy > 1e-12L) { LD p = std::sqrt(vx) * std::sqrt(vy); chk(r[0], cv / p, 80 * eps * (1 + ac / p)); } break;
        case 4: { int nz = 0, b = -1; for (auto &q : y.m.c) if (q.second != 0) nz++, b = q.first;
            if (nz >= 2 || (y.m.c.empty() && !y.m.amb)) { if (r[0] != -12345) FAIL("read", "grad with respect to a variable which is not independent gives %g", r[0]); }
            else if (nz == 1 && y.m.c.size() == 1 && !y.m.amb) { auto it = x.m.c.find(b); LD e = it == x.m.c.end() ? 0 : it->second / y.m.c[b]; chk(r[0], e, 40 * eps * std::fabs(e)); } break; }
        case 8: chk(r[0], x.m.mu + y.m.mu, 4 * eps * (std::fabs(x.m.mu) + std::fabs(y.m.mu))); break;
        case 13: chk(r[0], 1, 0); break;
        }
    }

    static World *W;
    void run_ops(int t, bool setup, bool post) {
        Ctx c = {this, setup || post ? 0 : t, post, setup};
        int want = setup ? 0 : post ? POST : t;
        for (auto &o : P.ops) if (o.t == want) step(o, c);
    }
    static void thread(int t) {
        W->run_ops(t, false, false);
    }
    void run() {
        W = this;
        run_ops(0, true, false);
        { // what is shared from now on is only read
            for (int t = 1; t <= P.nthr; t++) known[t] = known[0];
        }
        rt_spawn(P.nthr, thread);
        for (int t = 1; t <= P.nthr; t++) for (int b : known[t]) known[0].insert(b);
        { NoSut n; std::set<unc::Id> ids; for (int i = 0; i < nbase; i++) if (!ids.insert(base[i].id).second) FAIL("id", "two variables have the same identifier %lld", (long long)base[i].id); }
        Ctx c = {this, 0, true, false};
        rt_setop("final check");
        check_others(c, nullptr, "after all threads");
        // every read of shared variables gave what it gives alone
        for (int t = 1; t <= P.nthr; t++) for (auto &r : reads[t]) {
            Ctx q = {this, t, false, false}; Op o = r.op; o.i[3] = r.op.i[4];
            Obs alone; { Sut s; Obs a = read(r.op.i[3], *q.src(o.i[1]).u, *q.src(o.i[2]).u, o); NoSut n; alone.assign(a.begin(), a.end()); }
            if (!same_obs(alone, r.got)) FAIL("read-differs", "read %d of shared variables by thread %d gave something else than alone", r.op.i[3], t);
        }
        cold = false;
        run_ops(0, false, true);
        Op last; last.kind = CHECKALL; step(last, c);
        reads_clear();
    }
    void reads_clear() { for (int t = 0; t < RT_MAXT; t++) reads[t].clear(); }
};
template<typename R> World<R> *World<R>::W;
template<typename R> static void go(const Plan &p) { World<R> *w = new World<R>(p); w->run(); delete w; }
void w_run(const Plan &p) { switch (p.cfg[0]) { case 1: go<float>(p); break; case 2: go<SimReal>(p); break; default: go<double>(p); } }

bool w_norace(const Plan &p) { return p.prop == "C06" || p.prop == "C07"; }
int w_attrib(const Plan &p, const std::string &c, Plan &n) {
    if (p.prop == "C02") { if (c == "race" || c == "read-differs" || c == "other-changed" || memory_class(c)) return 0; no_schedule(n); return 1; }
    if (p.prop == "C03") { if (c == "race" || c == "other-changed" || memory_class(c)) return 0; no_schedule(n); return 1; }
    if (p.prop == "C04" || p.prop == "C05") { no_faults(n); return 1; }
    if (p.prop == "C06") {
        if (c == "sdev" || c == "var") return 0;
        std::vector<Op> v; for (auto &o : n.ops) if (o.kind != QUERYS && o.kind != QUERYVAR) v.push_back(o);
        n.ops = v; return 1;
    }
    if (c == "sdev" || c == "var") {    // of the cache (C06), unless it fails also when nothing is ever cached
        std::vector<Op> v; for (auto &o : n.ops) if (o.kind != QUERYS && o.kind != QUERYVAR) v.push_back(o);
        if (v.size() == n.ops.size()) return 0;
        n.ops = v; return 3; }
    if (c == "race" || c == "leak" || c == "read-differs" || c == "wrong-exception") { no_schedule(n); no_faults(n); return 1; }
    return 0;
}

// ------------------------------------------------------------------ generator
static double pick_mean(Rng &r) {
    switch (r.below(8)) { case 0: return r.range(-3, 3); case 1: case 2: return r.uniform(.2, 4); case 3: return r.uniform(-.8, .8); case 4: return r.uniform(1.2, 3); case 5: return r.chance(20) ? r.uniform(-3000, 3000) : r.uniform(-5, 5); default: return r.uniform(-3, 3); }
}
static double pick_coef(Rng &r) { switch (r.below(7)) { case 0: return 0; case 1: return 1; case 2: return -1; default: return r.uniform(-2, 2); } }
static void fill(Op &o, Rng &r) {
    for (int k = 0; k < NI; k++) o.i[k] = r.below(60);
    o.d[0] = pick_mean(r); o.d[1] = o.kind == NEW ? (r.chance(15) ? 1.0 : r.uniform(.05, 2)) : pick_coef(r); o.d[2] = pick_coef(r); o.d[3] = pick_coef(r);
    if ((o.kind == BINS || o.kind == CMPS) && r.chance(15)) o.d[0] = r.range(-1, 1);
    if (r.chance(15)) { int k = r.below(4); o.d[k] *= std::pow(10., k == 1 && o.kind == NEW ? r.range(-2, 6) : r.range(-9, 9)); }   // other scales
}
struct W8 { int kind, w; };
static int choose(const std::vector<W8> &v, Rng &r) { int s = 0; for (auto &x : v) s += x.w; int q = r.below(s); for (auto &x : v) { if (q < x.w) return x.kind; q -= x.w; } return v[0].kind; }
void w_gen(Plan &p, Rng &r, bool thorough) {
    const std::string &id = p.prop; int q;
    p.cfg[0] = (q = r.below(10)) < 6 ? 0 : q < 8 ? 1 : 2;
    p.cfg[1] = r.range(2, 6); p.nthr = 0; p.cfg[2] = r.chance(40);
    int setup = r.range(3, 10), len = r.range(4, thorough ? 24 : 12), post = 0;
    std::vector<W8> S = {{NEW, 30}, {CONSTANT, 4}, {NEWZERO, 2}, {BIN, 20}, {BINS, 8}, {CMP, 10}, {CMPS, 4}, {FUN1, 8}, {FUN2, 5}, {COPY, 4}, {ASSIGN, 4}, {LNARY, 3}, {QUERYS, 4}, {QUERYVAR, 3}, {CONV, 2}, {MOVE, 2}, {EXPRASSIGN, 3}};
    std::vector<W8> T;
    int fault = 0;   // percent of operations with a fault
    if (id == "C02") { p.nthr = r.range(2, 4); len = r.range(2, 7); T = {{READ, 80}, {BIN, 5}, {COPY, 5}, {FUN1, 4}, {CMP, 4}, {LNARY, 2}, {ASSIGN, 3}, {CONV, 2}}; }
    else if (id == "C03") { p.nthr = r.range(2, 4); len = r.range(3, 9); post = r.range(1, 6); T = {{COPY, 14}, {ASSIGN, 10}, {CMP, 14}, {CMPS, 8}, {QUERYS, 6}, {QUERYVAR, 4}, {MOVE, 5}, {MOVEASSIGN, 5}, {SWAP, 4}, {MAIL, 5}, {BIN, 8}, {FUN1, 6}, {CONV, 3}, {VEC, 3}, {LASSIGN, 6}, {LNARY, 2}, {CHNOM, 3}, {SELFASSIGN, 2}, {EXPRASSIGN, 5}, {NEW, 5}, {READ, 6}}; }
    else if (id == "C04") { if (p.cfg[0] == 2) p.cfg[0] = 0; fault = 75; p.nthr = 1; T = {{ASSIGN, 20}, {CMP, 35}, {CMPS, 8}, {LASSIGN, 15}, {SELFASSIGN, 3}, {EXPRASSIGN, 8}, {QUERYS, 6}, {NEW, 8}, {BIN, 8}, {COPY, 3}, {MOVE, 2}, {CONSTANT, 3}}; }
    else if (id == "C05") { p.cfg[0] = (q = r.below(10)) < 4 ? 0 : q < 5 ? 1 : 2; fault = 70; p.nthr = 1; T = {{NEW, 10}, {CONSTANT, 3}, {NEWZERO, 2}, {COPY, 8}, {NEGATE, 4}, {PLUSSIGN, 2}, {BIN, 15}, {BINS, 8}, {LUNARY, 5}, {LBINARY, 8}, {LNARY, 6}, {CHNOM, 4}, {CONV, 5}, {FUN1, 12}, {FUN2, 8}, {READ, 25}, {QUERYS, 5}, {QUERYVAR, 5}, {VEC, 3}, {CMP, 6}, {ASSIGN, 3}, {BADNEW, 2}}; }
    else if (id == "C06") { len = r.range(8, 30); p.nthr = r.chance(25) ? 2 : 1; fault = r.chance(30) ? 25 : 0; if (p.cfg[0] == 2) fault = 0; T = {{QUERYS, 28}, {QUERYVAR, 14}, {CMP, 18}, {CMPS, 8}, {LASSIGN, 8}, {ASSIGN, 6}, {COPY, 5}, {MOVE, 4}, {MOVEASSIGN, 5}, {SWAP, 5}, {SELFASSIGN, 2}, {NEGATE, 4}, {LUNARY, 5}, {CHNOM, 3}, {CONV, 3}, {BIN, 6}, {FUN1, 3}, {EXPRASSIGN, 4}, {READ, 6}, {VEC, 1}, {NEW, 6}, {CONSTANT, 2}, {NEWZERO, 1}}; }
    else /* C07 */ { p.nthr = r.below(4); if (!p.nthr) post = r.range(8, 30); else { len = r.range(4, 12); post = r.range(3, 10); } fault = r.chance(25) ? 20 : 0; if (p.cfg[0] == 2) fault = 0;
        T = {{NEW, 16}, {CONSTANT, 3}, {NEWZERO, 1}, {BADNEW, 2}, {COPY, 3}, {MOVE, 3}, {ASSIGN, 3}, {MOVEASSIGN, 3}, {SWAP, 2}, {NEGATE, 3}, {PLUSSIGN, 1}, {BIN, 22}, {BINS, 8}, {CMP, 12}, {CMPS, 5}, {LUNARY, 4}, {LBINARY, 6}, {LNARY, 6}, {LASSIGN, 6}, {CHNOM, 3}, {CONV, 3}, {FUN1, 16}, {FUN2, 12}, {QUERYS, 4}, {QUERYVAR, 2}, {READ, 10}, {MAIL, 5}, {VEC, 2}, {EXPRASSIGN, 4}}; }
    { int g = r.chance(id == "C07" || id == "C08" ? 25 : 8) ? 6 : 0; S.push_back({GAP, 2 * g}); T.push_back({GAP, g}); }
    S.push_back({WIDE, 2}); T.push_back({WIDE, id == "C07" ? 5 : id == "C02" ? 0 : 2});
    // swarm: leave some kinds out
    if (r.chance(60)) for (auto &x : T) if (r.chance(25)) x.w = 0;
    { int s = 0; for (auto &x : T) s += x.w; if (!s) T[0].w = 1; }
    for (int i = 0; i < setup; i++) { Op o; o.t = 0; o.kind = i < 2 ? NEW : choose(S, r); fill(o, r); if (i < 2) o.i[0] = i; p.ops.push_back(o); }
    auto add = [&](int t) {
        Op o; o.t = t; o.kind = choose(T, r); fill(o, r);
        if (id == "C02") { o.i[1] = r.below(p.cfg[1]); o.i[2] = r.below(p.cfg[1]); if (r.chance(70)) o.i[1] = 0; }
        if (fault && r.chance(fault)) {
            bool assigns = o.kind == ASSIGN || o.kind == CMP || o.kind == CMPS || o.kind == LASSIGN || o.kind == SELFASSIGN || o.kind == EXPRASSIGN;
            bool simple = o.kind == MOVE || o.kind == MOVEASSIGN || o.kind == SWAP || o.kind == MAIL || o.kind == BADNEW;
            if (id == "C05" && assigns) simple = true;   // those are C04
            if (!simple) { if (p.cfg[0] == 2 && r.chance(65)) { if (!assigns) { o.fk = F_NUM; o.fs = 1; } } else if (!(p.cfg[0] == 2 && assigns)) { o.fk = F_ALLOC; o.fs = 1; } o.fp = o.fk && r.chance(35); if (o.fk && r.chance(15)) { o.fs = 0; o.fn = r.range(1, 6); } }
        }
        repeat(p, o, r, 12);
        p.ops.push_back(o);
    };
    for (int t = 1; t <= p.nthr; t++) for (int i = 0; i < len; i++) add(t);
    for (int i = 0; i < post; i++) add(POST);
}
