// w_ids.cpp -- identity of variables (C01): constructions of all kinds, in
// threads, failing and not, with jumps of the history to where billions of
// variables have been created.
#define UNCERTAINTIES_EXTERN_UDOUBLE
#define UNCERTAINTIES_EXTERN_UDOUBLE2
#include "wl_jump.h"
#include "wl_eigen.h"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/math.hpp>
#include <set>
#include <map>
#include <memory>
#include <array>
#include <sstream>

namespace unc = uncertainties;
#ifndef PART   // compiled in 4 parts, for classes of variables
#define PART 0
#endif
#if PART == 0
const char *const w_name = "ids";
enum Kind { NEW, DERIVE, MIX, BAD, BURST, DESTROY, JUMP, BULK, NKIND };
static const char *const names[] = {"new", "derive", "mix", "bad", "burst", "destroy", "jump", "bulk", 0};
const char *const *const w_ops = names;
void w_warm() { std::ostringstream s; s << 1.5 << " " << 3 << "x"; std::string t = s.str(); }
#endif

typedef unc::UReal<double> UD; typedef unc::UReal<float> UF; typedef unc::UReal<SimReal> US;
typedef unc::UReal2<double, unc::Prop::est> UE; typedef unc::UReal2<double, unc::Prop::mean> UM; typedef unc::UReal2<float, unc::Prop::est> UFE; typedef unc::UReal2<SimReal, unc::Prop::mean> USM;
enum { AGAIN = POST + 1 };
enum { NCLS = 7, NSH = 6, NPR = 6, MAXO = 3000 };
static const char *const cname[NCLS] = {"UReal<double>", "UReal<float>", "UReal<user type>", "UReal2<double, est>", "UReal2<double, mean>", "UReal2<float, est>", "UReal2<user type, mean>"};

enum { NWAY = 16 };
static inline int way_sign(int w) { w %= NWAY; return w >= 10 && w <= 13 ? -1 : 1; }
struct Box {
    int cls; std::set<int> *o;   // o: where it comes from
    int sg; bool z;   // sign of the derivatives; standard deviation zero
    Box(int c): cls(c), o(nullptr), sg(1), z(false) {}
    virtual ~Box() { NoSut n; delete o; }
    virtual unc::Id id() const = 0; virtual bool indep() const = 0; virtual long double covar(const Box &) const = 0; virtual long double correl(const Box &) const = 0;
    virtual Box *derive(int way) const = 0; virtual Box *mix(const Box &) const = 0;
};
template<typename U, int C> struct Bx: Box {
    U u;
    typedef typename U::real_type R;
    template<typename... A> Bx(A &&...a): Box(C), u(std::forward<A>(a)...) {}
    unc::Id id() const { return u.indepid(); }
    bool indep() const { return u.isindep(); }
    long double covar(const Box &b) const { return ld(cov(u, static_cast<const Bx &>(b).u)); }
    long double correl(const Box &b) const { return ld(corr(u, static_cast<const Bx &>(b).u)); }
    static Box *conv(const UD &x) { return new Bx<UF, 1>(x); }
    static Box *conv(const UF &x) { return new Bx<UD, 0>(x); }
    static Box *conv(const US &x) { return new Bx<US, 2>(x); }
    static Box *conv(const UE &x) { return new Bx<UM, 4>(x); }
    static Box *conv(const UM &x) { return new Bx<UE, 3>(x); }
    static Box *conv(const UFE &x) { return new Bx<UE, 3>(x); }
    static Box *conv(const USM &x) { return new Bx<USM, 6>(x); }
    Box *derive(int way) const {
        switch (way % NWAY) {
        case 0: return new Bx(u);
        case 1: { U t(u); return new Bx(std::move(t)); }
        case 2: { std::unique_ptr<Bx> b(new Bx()); b->u = u; return b.release(); }
        case 3: { U t(u); std::unique_ptr<Bx> b(new Bx(R(1))); b->u = std::move(t); return b.release(); }
        case 4: return conv(u);
        case 5: return new Bx(u * R(2));
        case 6: return new Bx(u + R(3));
        case 7: { std::vector<U> v; v.push_back(u); v.push_back(u); v.push_back(u); return new Bx(v[1]); }
        case 8: return new Bx(unary2(u));
        case 9: return new Bx(u / R(4) - R(1));
        case 10: return new Bx(-u);
        case 11: return new Bx(u * R(-3));
        case 12: return new Bx(R(2) - u);
        case 13: return conv(U(-u));
        case 14: return conv(U(u + u));
        default: return new Bx(+u);
        }
    }
    template<typename Q> static unc::UReal<Q> unary2(const unc::UReal<Q> &x) { return unary(x, Q(7), Q(.5)); }
    template<typename Q, unc::Prop p> static unc::UReal2<Q, p> unary2(const unc::UReal2<Q, p> &x) { return unary(x, Q(7), Q(.5), Q(0)); }
    Box *mix(const Box &b) const { return new Bx(u * R(1.5) + static_cast<const Bx &>(b).u * R(.75)); }
};
template<typename U, int C> struct Mk1 { static Box *mk(int way, double n, double s) {
    typedef typename U::real_type R;
    switch (way % 3) {
    case 0: return new Bx<U, C>(R(n), R(s));
    case 1: { U t = {R(n), R(s)}; return new Bx<U, C>(std::move(t)); }
    default: { std::unique_ptr<Bx<U, C>> b(new Bx<U, C>()); b->u = U(R(n), R(s)); return b.release(); } }
} static Box *bad() { typedef typename U::real_type R; return new Bx<U, C>(R(1), R(-2)); } };
template<typename U, int C> struct Mk2 { static Box *mk(int way, double n, double s) {
    typedef typename U::real_type R; double q = s * s;
    const R no(-1);   // no check of the moments: it takes most of the steps
    switch (way % 12) {
    case 10: return new Bx<U, C>(R(n), std::array<R, 7>{{R(q), R(0), R(3 * q * q), R(0), R(15 * q * q * q), R(0), R(105 * q * q * q * q)}});
    case 11: return new Bx<U, C>(R(n), R(s), std::array<R, 6>{{R(0), R(3), R(0), R(15), R(0), R(105)}});
    case 0: case 6: case 7: return new Bx<U, C>(R(n), std::array<R, 7>{{R(q), R(0), R(3 * q * q), R(0), R(15 * q * q * q), R(0), R(105 * q * q * q * q)}}, no);
    case 1: case 8: case 9: return new Bx<U, C>(R(n), R(s), std::array<R, 6>{{R(0), R(3), R(0), R(15), R(0), R(105)}}, no);
    case 2: return new Bx<U, C>(unc::distr::normal<U>(R(n), R(s)));
    case 3: return new Bx<U, C>(unc::distr::uniform<U>(R(n), R(n + s)));
    case 4: { static const int ks[] = {1, 2, 3, 5, 8, 12, 30, 31, 100, 1000}; return new Bx<U, C>(unc::distr::chisquare<U>(ks[(int)(s * 40) % 10])); }
    default: { std::unique_ptr<Bx<U, C>> b(new Bx<U, C>()); b->u = unc::distr::normal<U>(R(n), R(s)); return b.release(); } }
} static Box *bad() { typedef typename U::real_type R; return new Bx<U, C>(R(1), R(1), std::array<R, 6>{{R(9), R(1), R(0), R(1), R(0), R(1)}}); } };
#if PART == 1
template struct Bx<UD, 0>; template struct Mk1<UD, 0>; template struct Bx<UE, 3>; template struct Mk2<UE, 3>;
#elif PART == 2
template struct Bx<UF, 1>; template struct Mk1<UF, 1>; template struct Bx<US, 2>; template struct Mk1<US, 2>; template struct Bx<UFE, 5>; template struct Mk2<UFE, 5>;
#elif PART == 3
template struct Bx<USM, 6>; template struct Mk2<USM, 6>; template struct Bx<UM, 4>; template struct Mk2<UM, 4>;
#else
extern template struct Bx<UD, 0>; extern template struct Mk1<UD, 0>; extern template struct Bx<UE, 3>; extern template struct Mk2<UE, 3>;
extern template struct Bx<UF, 1>; extern template struct Mk1<UF, 1>; extern template struct Bx<US, 2>; extern template struct Mk1<US, 2>; extern template struct Bx<UFE, 5>; extern template struct Mk2<UFE, 5>;
extern template struct Bx<USM, 6>; extern template struct Mk2<USM, 6>; extern template struct Bx<UM, 4>; extern template struct Mk2<UM, 4>;
static Box *mk(int c, int way, double n, double s) {
    switch (c) {
    case 0: return Mk1<UD, 0>::mk(way, n, s); case 1: return Mk1<UF, 1>::mk(way, n, s); case 2: return Mk1<US, 2>::mk(way, n, s);
    case 3: return Mk2<UE, 3>::mk(way, n, s); case 4: return Mk2<UM, 4>::mk(way, n, s); case 5: return Mk2<UFE, 5>::mk(way, n, s); default: return Mk2<USM, 6>::mk(way, n, s); }
}
static Box *bad(int c) {
    switch (c) {
    case 0: return Mk1<UD, 0>::bad(); case 1: return Mk1<UF, 1>::bad(); case 2: return Mk1<US, 2>::bad();
    case 3: return Mk2<UE, 3>::bad(); case 4: return Mk2<UM, 4>::bad(); case 5: return Mk2<UFE, 5>::bad(); default: return Mk2<USM, 6>::bad(); }
}

struct World {
    const Plan &P; Box *sh[NSH], *pr[RT_MAXT][NPR]; 
    struct Or { unc::Id id; int cls; }; Or *org[RT_MAXT]; std::vector<unc::Id> bulk[RT_MAXT]; int norg[RT_MAXT];
    World(const Plan &p): P(p), wave(0) { std::memset(sh, 0, sizeof sh); std::memset(pr, 0, sizeof pr); std::memset(norg, 0, sizeof norg); for (auto &o : org) o = new Or[MAXO]; }
    ~World() { for (auto &o : org) delete[] o; Sut s; for (auto &b : sh) delete b; for (auto &t : pr) for (auto &b : t) delete b; }
    Box *&slot(int t, int i) { return t ? pr[t][i % NPR] : sh[i % NSH]; }
    Box *src(int t, int i) { return !t || i % 3 == 0 ? sh[i % NSH] : pr[t][i % NPR]; }
    void origin(int t, Box *b, const char *what) {
        NoSut n; int k = norg[t]; if (k >= MAXO) return; norg[t]++;
        Or &o = org[t][k]; o.id = b->id(); o.cls = b->cls; rt_note(o.id); rt_count_op(); rt_count_check();
        if (o.id <= 0 || !b->indep()) FAIL("not-independent", "%s of %s: indepid() is %lld, isindep() is %d", what, cname[b->cls], (long long)o.id, (int)b->indep());
        b->o = new std::set<int>; b->o->insert(t * MAXO + k);
    }
    void put(int t, int i, Box *b) { Box *&d = slot(t, i); Sut s; delete d; d = b; }
    unc::Id oid(int k) { return org[k / MAXO][k % MAXO].id; }
    void verify(Box *b, const char *what) {
        NoSut n; rt_count_check();
        if (b->o->size() == 1) { if (b->id() != oid(*b->o->begin()) || !b->indep()) FAIL("identity", "%s of %s: comes from one variable with identifier %lld, but indepid() is %lld, isindep() is %d", what, cname[b->cls], (long long)oid(*b->o->begin()), (long long)b->id(), (int)b->indep()); }
        else if (b->z) return;
        else if (b->id() >= 0 || b->indep()) FAIL("identity", "%s of %s: comes from %d variables, but indepid() is %lld, isindep() is %d", what, cname[b->cls], (int)b->o->size(), (long long)b->id(), (int)b->indep());
    }
    void pairs(std::vector<Box *> &v, const char *what) {
        NoSut n;
        for (Box *a : v) for (Box *b : v) if (a->cls == b->cls) {
            bool share = false; for (int o : *a->o) share = share || b->o->count(o);
            long double c = a->covar(*b); rt_count_check();
            if (!share && (c != 0 || (a != b && !a->z && !b->z && a->correl(*b) != 0))) FAIL("related", "%s: two variables of class %s without common origin have covariance %Lg (identifiers %lld, %lld)", what, cname[a->cls], c, (long long)a->id(), (long long)b->id());
            if (share && !a->z && !b->z && !(c * a->sg * b->sg > 0)) FAIL("unrelated", "%s: two variables of class %s with a common origin have covariance %Lg", what, cname[a->cls], c);
        }
    }
    std::vector<Box *> all(int t) { std::vector<Box *> v; for (auto b : sh) if (b) v.push_back(b); for (int q = 1; q < RT_MAXT; q++) if (t < 0 || q == t) for (auto b : pr[q]) if (b) v.push_back(b); return v; }
    void step(const Op &o, int t) {
        rt_setop("%s %d %d %d", names[o.kind], o.i[0], o.i[1], o.i[2]);
        double n = o.d[0], s = o.d[1] > .01 && o.d[1] < 10 ? o.d[1] : .5; Box *b = nullptr; int c = o.i[0] % NCLS;
        // the same values again and again, now and then without uncertainty
        bool z = false; if (o.i[3] % 2) { n = o.i[3] % 4 == 1 ? 1 : -2; s = o.i[4] % 3 ? 1 : .25; z = o.i[4] % 5 < 2; if (z) s = c < 3 && o.i[4] % 5 ? 1e-60 : 0; }   // 1e-60 is not representable as a float
        const int way = z && c >= 3 && o.kind == NEW ? 1 + 7 * (o.i[1] % 2) : o.i[1];
        switch (o.kind) {
        case NEW: attempt("construction", o, [&] { b = mk(c, way, n, s); }, [](int) {}); origin(t, b, "construction"); b->z = z; put(t, o.i[2], b); break;
        case DERIVE: { Box *x = src(t, o.i[0]); if (!x) break; attempt("derivation", o, [&] { b = x->derive(o.i[1]); }, [](int) {}); { NoSut q; b->o = new std::set<int>(*x->o); b->sg = x->sg * way_sign(o.i[1]); b->z = x->z; } verify(b, "result"); put(t, o.i[2], b); break; }
        case MIX: { Box *x = src(t, o.i[0]), *y = src(t, o.i[1]); if (!x || !y || x->cls != y->cls || x->sg != y->sg) break; attempt("sum", o, [&] { b = x->mix(*y); }, [](int) {}); { NoSut q; b->o = new std::set<int>(*x->o); b->o->insert(y->o->begin(), y->o->end()); b->sg = x->sg; b->z = x->z || y->z; } verify(b, "sum"); put(t, o.i[2], b); break; }
        case BAD: { bool threw = false; try { Sut q; b = bad(c); } catch (const std::invalid_argument &) { threw = true; } catch (...) {} if (!threw && b) { NoSut q; b->o = new std::set<int>; { Sut r; delete b; } } rt_count_op(); break; }
        case BURST: for (int k = 2 + o.i[1] % 12; k > 0; k--) { int cc = o.i[2] % 2 ? c : (c + k) % 6; { Sut q; b = mk(cc, o.i[3] % 2 ? o.i[1] : k + o.i[1], n, z ? 1 : s); } origin(t, b, "construction"); { Sut q; delete b; } } break;
        case BULK: {   // a long time of constructions
            static const int ns[] = {40, 130, 260, 530, 1030, 2060}; int k = ns[o.i[1] % 6] + o.i[4] % 9; { NoSut q; bulk[t].reserve(bulk[t].size() + k); }
            for (; k > 0; k--) { unc::Id id; { Sut q; if (o.i[2] % 4 == 3 && k % 5 == 0) { UE u(1, 1, std::array<double, 6>{{0, 3, 0, 15, 0, 105}}, -1.0); id = u.indepid(); } else if (o.i[2] % 4 == 2) { UF u(1, 1); id = u.indepid(); } else { UD u(n, s); id = u.indepid(); } }
                if (id <= 0) FAIL("not-independent", "bulk: indepid() is %lld", (long long)id); NoSut q; bulk[t].push_back(id); rt_count_op(); }
            break; }
        case DESTROY: put(t, o.i[0], nullptr); break;
        case JUMP: { NoSut q; if (t) break; if (!id_jump(o.i[0], o.i[1])) rt_probe(1); break; }
        }
        if (t == 0 || (t && P.nthr < 2)) { std::vector<Box *> v; { NoSut q; v = all(t); } pairs(v, names[o.kind]); }
    }
    static World *W;
    int wave;
    void run_ops(int t, int want) { for (auto &o : P.ops) if (o.t == want && (t == 0 || !P.cfg[1] || (o.i[5] & 1) == wave)) step(o, t); }
    static void thread(int t) { W->run_ops(t, t); }
    void run() {
        W = this; run_ops(0, 0); rt_spawn(P.nthr, thread);
        if (P.cfg[1]) { run_ops(0, AGAIN); wave = 1; rt_spawn(P.nthr, thread); }    // other threads, after the first ones ended
        rt_setop("final check");
        run_ops(0, POST);
        std::map<unc::Id, int> ids;
        for (int t = 0; t < RT_MAXT; t++) for (int k = 0; k < norg[t]; k++) {
            auto r = ids.insert(std::make_pair(org[t][k].id, t * MAXO + k)); rt_count_check();
            if (!r.second) FAIL("duplicate-id", "two variables have the same identifier %lld: %s constructed by thread %d and %s constructed by thread %d", (long long)org[t][k].id, cname[org[t][k].cls], t, cname[org[r.first->second / MAXO][r.first->second % MAXO].cls], r.first->second / MAXO);
        }
        for (int t = 0; t < RT_MAXT; t++) for (unc::Id id : bulk[t]) if (!ids.insert(std::make_pair(id, -1 - t)).second) FAIL("duplicate-id", "two variables have the same identifier %lld: one of many constructed by thread %d and %s", (long long)id, t, ids[id] < 0 ? "another one" : cname[org[ids[id] / MAXO][ids[id] % MAXO].cls]);
        std::vector<Box *> v = all(-1); for (Box *b : v) verify(b, "at the end"); pairs(v, "at the end");
    }
};
World *World::W;
void w_run(const Plan &p) { World *w = new World(p); w->run(); delete w; }
bool w_norace(const Plan &) { return true; }
int w_attrib(const Plan &p, const std::string &c, Plan &n) {
    (void)n; (void)p;
    return c == "not-independent" || c == "identity" || c == "related" || c == "unrelated" || c == "duplicate-id" ? 0 : 2;
}
static void fill(Op &o, Rng &r) { for (int k = 0; k < NI; k++) o.i[k] = r.below(60); o.d[0] = r.uniform(-3, 3); o.d[1] = r.uniform(.1, 3); }
void w_gen(Plan &p, Rng &r, bool thorough) {
    p.nthr = r.chance(85) ? r.range(2, r.chance(20) ? 5 : 3) : 0; p.cfg[0] = r.below(8); p.cfg[1] = p.nthr && r.chance(25);
    int setup = r.range(2, 6), len = r.range(2, thorough ? 10 : 5), post = r.range(1, 6); bool jumps = r.chance(35);
    int one = r.chance(30) ? r.below(NCLS) : -1, fault = r.chance(40) ? 40 : 0;
    struct { int k, w; } T[] = {{NEW, 40}, {DERIVE, 18}, {MIX, 10}, {BAD, 4}, {BURST, 12}, {DESTROY, 4}, {JUMP, jumps ? 8 : 0}, {BULK, r.chance(7) ? 10 : 0}};
    auto add = [&](int t) {
        int s = 0; for (auto &x : T) s += x.w; int q = r.below(s), k = 0; while (q >= T[k].w) q -= T[k++].w;
        Op o; o.t = t; o.kind = T[k].k; fill(o, r); if (one >= 0) o.i[0] = one + NCLS * r.below(6);
        if (o.kind == DERIVE || o.kind == MIX) o.i[0] = r.below(60);
        if ((o.kind == NEW || o.kind == DERIVE || o.kind == MIX) && r.chance(fault)) { int c = o.i[0] % NCLS; o.fk = o.kind == NEW && (c == 2 || c == 6) && r.chance(60) ? F_NUM : F_ALLOC; o.fs = r.chance(40); o.fn = r.chance(70) ? r.range(1, 6) : r.range(1, 60); o.fp = r.chance(25); }
        p.ops.push_back(o);
    };
    for (int i = 0; i < setup; i++) add(0);
    for (int t = 1; t <= p.nthr; t++) for (int i = 0; i < len; i++) add(t);
    for (int i = 0; i < post; i++) add(POST);
    if (p.cfg[1]) for (int i = r.range(0, 2); i > 0; i--) add(AGAIN);
}
#endif
