// w_stat.cpp -- the functions of stat.hpp (C13) with iterators, containers and
// memory that fail, in threads.
#define UNCERTAINTIES_EXTERN_UDOUBLE
#define UNCERTAINTIES_EXTERN_UDOUBLE2
#include "wl.h"
#include "wl_eigen.h"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/stat.hpp>
#include <array>
#include <deque>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>

#ifndef PART
#define PART 0
#endif
namespace unc = uncertainties;
typedef long double LD;
enum Kind { ITER, VECTOR, NOMV, CORR2COV, BADSIZE, CHANGE, NKIND };
static const char *const names[] = {"matrix_to_iterator", "matrix_to_vector", "nom_vector", "corr2cov", "corr2cov_bad_size", "change", 0};
enum { MAXN = 6 };

// user iterators and containers
template<typename U> struct InIt {
    typedef std::forward_iterator_tag iterator_category; typedef U value_type; typedef std::ptrdiff_t difference_type; typedef const U *pointer; typedef const U &reference;
    const U *p; InIt(): p(nullptr) {} explicit InIt(const U *q): p(q) {}
    reference operator*() const { seam(F_ITER, 1); return *p; } pointer operator->() const { seam(F_ITER, 1); return p; }
    InIt &operator++() { seam(F_ITER, 2); ++p; return *this; } InIt operator++(int) { InIt t = *this; ++*this; return t; }
    bool operator==(const InIt &o) const { return p == o.p; } bool operator!=(const InIt &o) const { return p != o.p; }
};
struct Log { std::vector<LD> v; bool started; int done; Log(): started(false), done(0) {} };   // the elements received; done: the position reached
template<typename R> struct OutIt {     // single pass: assign, advance, assign, advance...
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    struct Ref {
        Log *l; int pos;
        void put(LD x) const { int on = rt_enter(0); if (pos != (int)l->v.size()) { int n = (int)l->v.size(); if (pos < n) FAIL("iterator-misuse", "element %d written twice through an output iterator", pos); FAIL("iterator-misuse", "output iterator advanced past element %d without writing it", n); } l->v.push_back(x); rt_enter(on); }
        Ref(Log *q, int p): l(q), pos(p) {}
        Ref &operator=(const R &x) { seam(F_ITER, 3); put(ld(x)); return *this; }
    };
    Log *l; int pos;
    explicit OutIt(Log *q): l(q), pos(0) {}
    Ref operator*() { return Ref(l, pos); }
    OutIt &operator++() { seam(F_ITER, 4); ++pos; return *this; } OutIt operator++(int) { OutIt t = *this; ++*this; return t; }
};
template<typename R> struct BackIt {     // like std::back_insert_iterator: advancing it does nothing
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    Log *l; explicit BackIt(Log *q): l(q) {}
    BackIt &operator=(const R &x) { seam(F_ITER, 5); int on = rt_enter(0); l->v.push_back(ld(x)); rt_enter(on); return *this; }
    BackIt &operator*() { return *this; } BackIt &operator++() { return *this; } BackIt operator++(int) { return *this; }
};
template<typename T> struct Vec: std::vector<T> {
    typedef std::vector<T> V;
    Vec() {} explicit Vec(size_t n): V((seam(F_ITER, 6), n)) {}
    void push_back(const T &x) { seam(F_ITER, 7); V::push_back(x); } void push_back(T &&x) { seam(F_ITER, 7); V::push_back(std::move(x)); }
    T &operator[](size_t i) { seam(F_ITER, 8); return V::operator[](i); } const T &operator[](size_t i) const { seam(F_ITER, 9); return V::operator[](i); }
};
struct Lazy {        // a sequence of any size, with a 32 bit size
    typedef uint32_t size_type; typedef double value_type; uint32_t n; double x;
    Lazy(uint32_t k, double v): n(k), x(v) {} uint32_t size() const { return n; } const double &operator[](uint32_t) const { return x; }
    const double *begin() const { return &x; } const double *end() const { return &x; }
};

template<typename U> struct Mk { typedef typename U::real_type R; static U mk(double n, double s) { return U(R(n), R(s)); } static U scaled(const U &x, double k) { return x * R(k); } };
template<typename R_, unc::Prop p> struct Mk<unc::UReal2<R_, p>> {
    typedef R_ R; typedef unc::UReal2<R_, p> U;
    static U mk(double n, double s) { double q = s * s; return U(R(n), std::array<R, 7>{{R(q), R(0), R(3 * q * q), R(0), R(15 * q * q * q), R(0), R(105 * q * q * q * q)}}, R(-1)); }
    static U scaled(const U &x, double k) { return x * R(k); }
};

template<typename U> struct World {
    typedef typename U::real_type R;
    const Plan &P; std::vector<U> *x[RT_MAXT]; std::list<U> *lst[RT_MAXT]; Vec<R> *sig[RT_MAXT], *cor[RT_MAXT]; LD eps;     // [0]: shared by the threads, which only read it
    std::vector<LD> seen[RT_MAXT];
    World(const Plan &p): P(p), eps(std::is_same<R, float>::value ? 1.2e-7L : 2.3e-16L) {
        for (int t = 0; t <= P.nthr; t++) {
            x[t] = new std::vector<U>; lst[t] = new std::list<U>; sig[t] = new Vec<R>; cor[t] = new Vec<R>;
            Rng r(p.cfg[2] * 100 + t); r.next(); int n = (p.cfg[3] + t * p.cfg[4]) % MAXN; if (t == 0 && n == 0) n = 3; if (p.cfg[0] % 2 == 0 && r.chance(5)) n = r.chance(20) ? r.range(21, 44) : r.range(7, 20);
            std::vector<U> base; for (int i = 0; i < 3; i++) base.push_back(Mk<U>::mk(r.uniform(-2, 2), r.uniform(.2, 1.5)));
            for (int i = 0; i < n; i++) {
                int k = r.below(6); const U &a = base[r.below(3)], &b = t && x[0]->size() && r.chance(40) ? (*x[0])[r.below(x[0]->size())] : base[r.below(3)]; double c = r.uniform(-2, 2); U v;
                { Sut s; if (k == 0) v = a; else if (k == 1) v = Mk<U>::scaled(a, c) + b; else if (k == 2) v = a * b; else if (k == 3) v = U(R(c)); else if (k == 4) v = Mk<U>::mk(c, r.uniform(.1, 2)); else v = a - b * b; }
                Sut s; x[t]->push_back(v); }
            { Sut s; lst[t]->assign(x[t]->begin(), x[t]->end()); }
            int m = 1 + (p.cfg[5] + t) % 4; Sut s;
            bool odd = r.chance(30);   // correlations which are not known, and standard deviations which are zero
            if (p.cfg[0] % 2 == 0 && r.chance(6)) m = r.chance(25) ? r.range(25, 80) : r.range(5, 24);
            for (int i = 0; i < m; i++) static_cast<std::vector<R> *>(sig[t])->push_back(R(odd && r.chance(35) ? 0 : r.uniform(0, 3) * (odd && r.chance(10) ? 1e8 : 1)));
            for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) static_cast<std::vector<R> *>(cor[t])->push_back(odd && r.chance(20) ? R(r.chance(80) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity()) : i == j ? R(1) : R(r.uniform(-1, 1)));
            see(seen[t], t);
        }
    }
    ~World() { for (int t = 0; t <= P.nthr; t++) { Sut s; delete x[t]; delete lst[t]; delete sig[t]; delete cor[t]; } }
    void see(std::vector<LD> &o, int t) {
        NoSut q; o.clear(); for (auto &a : *x[t]) { o.push_back(ld(nom(a))); for (auto &b : *x[t]) o.push_back(ld(cov(a, b))); } for (auto &a : *lst[t]) o.push_back(ld(nom(a)));
        for (size_t i = 0; i < sig[t]->size(); i++) o.push_back(ld((*sig[t])[i])); for (size_t i = 0; i < cor[t]->size(); i++) o.push_back(ld((*cor[t])[i]));
    }
    void unchanged(int t, const char *what) { std::vector<LD> v; see(v, t); NoSut q; bool same = v.size() == seen[t].size(); for (size_t i = 0; same && i < v.size(); i++) same = v[i] == seen[t][i] || (v[i] != v[i] && seen[t][i] != seen[t][i]); if (!same) FAIL("changed", "%s: changed its arguments", what); }
    std::vector<LD> want(int src, int b, int e, bool corr_) {
        NoSut q; std::vector<LD> w; for (int i = b; i < e; i++) for (int j = b; j < e; j++) { const U &p = (*x[src])[i], &r = (*x[src])[j]; w.push_back(corr_ ? ld(corr(p, r)) : ld(cov(p, r))); } return w;
    }
    void compare(const std::vector<LD> &got, const std::vector<LD> &w, bool all, bool corr_, const char *what) {
        NoSut q; rt_count_check(); size_t n = (size_t)std::lround(std::sqrt((double)w.size()));
        if (got.size() > w.size() || (all && got.size() != w.size())) FAIL("wrong-size", "%s: %d elements instead of %d", what, (int)got.size(), (int)w.size());
        for (size_t k = 0; k < got.size(); k++) { size_t i = k / n, j = k % n; LD sc = corr_ ? 1 : std::sqrt(std::fabs(w[i * n + i] * w[j * n + j])); rt_note((uint64_t)(long long)(got[k] * 1e4L)); if (!close_to(got[k], w[k], 64 * eps * sc)) FAIL("wrong-element", "%s: element %d (row %d, column %d) is %.17Lg instead of %.17Lg", what, (int)k, (int)i, (int)j, got[k], w[k]); }
    }
    // f, with the faults of o; after a failure `failed` is called, at the end nothing fails
    template<typename F, typename C> void tries(const char *what, const Op &o, F f, C failed) { attempt(what, o, f, [&](int) { failed(); }); rt_count_op(); }

    template<typename It, typename O> static O toit(bool corr_, It b, It e, O out) { return corr_ ? unc::corr_matrix(b, e, out) : unc::cov_matrix(b, e, out); }
    template<typename It> void iter(const Op &o, int t, int src, It b, It e, int bi, int ei, bool corr_, const char *what) {
        std::vector<LD> w = want(src, bi, ei, corr_); size_t n = w.size();
        if (P.cfg[1]) { Sut s; Op q = o; attempt(what, q, [&] { for (It i = b; i != e; ++i) for (It j = b; j != e; ++j) { R r = corr_ ? corr(*i, *j) : cov(*i, *j); (void)r; } }, [](int) {}); return; }
        switch (o.i[4] % 4) {
        case 0: { Log l; int pos = -1; tries(what, o, [&] { { NoSut q; l.v.clear(); } pos = -1; pos = toit(corr_, b, e, OutIt<R>(&l)).pos; }, [&] { compare(l.v, w, false, corr_, what); unchanged(t, what); });
            compare(l.v, w, true, corr_, what); if (pos != (int)n) FAIL("wrong-position", "%s: returned position %d instead of %d", what, pos, (int)n); break; }
        case 1: { Log l; tries(what, o, [&] { { NoSut q; l.v.clear(); } toit(corr_, b, e, BackIt<R>(&l)); }, [&] { compare(l.v, w, false, corr_, what); unchanged(t, what); });
            compare(l.v, w, true, corr_, what); break; }
        case 2: { std::vector<R> *v = nullptr; tries(what, o, [&] { delete v; v = nullptr; v = new std::vector<R>; toit(corr_, b, e, std::back_inserter(*v)); }, [&] { std::vector<LD> g; if (v) for (auto &a : *v) g.push_back(ld(a)); compare(g, w, false, corr_, what); unchanged(t, what); });
            { NoSut q; std::vector<LD> g; for (auto &a : *v) g.push_back(ld(a)); compare(g, w, true, corr_, what); } { Sut s; delete v; } break; }
        default: { std::vector<R> *v; { Sut s; v = new std::vector<R>(n + 2, R(77)); } long d = -1;
            tries(what, o, [&] { d = -1; d = toit(corr_, b, e, v->begin()) - v->begin(); },
                [&] { NoSut q; size_t k = n + 2; while (k > 0 && ld((*v)[k - 1]) == 77) k--; std::vector<LD> g; for (size_t i = 0; i < k; i++) g.push_back(ld((*v)[i])); if (k > n) FAIL("wrong-size", "%s: wrote past the end", what); compare(g, w, false, corr_, what); for (size_t i = 0; i < n + 2; i++) (*v)[i] = R(77); unchanged(t, what); });
            { NoSut q; std::vector<LD> g; for (size_t i = 0; i < n; i++) g.push_back(ld((*v)[i])); if (ld((*v)[n]) != 77 || ld((*v)[n + 1]) != 77) FAIL("wrong-size", "%s: wrote past the end", what); compare(g, w, true, corr_, what); if (d != (long)n) FAIL("wrong-position", "%s: returned position %ld instead of %d", what, d, (int)n); } { Sut s; delete v; } break; }
        }
    }
    template<typename OV, typename IV> void tovec(const Op &o, int t, int src, const IV &in, bool corr_, const char *what) {
        int n = (int)in.size(); std::vector<LD> w = want(src, 0, n, corr_); OV *v = nullptr;
        tries(what, o, [&] {
            if (P.cfg[1]) { std::unique_ptr<OV> u(new OV(n * n)); auto k = u->begin(); for (auto i = in.begin(); i != in.end(); ++i) for (auto j = in.begin(); j != in.end(); ++j, ++k) *k = corr_ ? corr(*i, *j) : cov(*i, *j); v = u.release(); }
            else v = corr_ ? new OV(unc::corr_matrix<OV>(in)) : new OV(unc::cov_matrix<OV>(in)); }, [&] { unchanged(t, what); });
        { NoSut q; std::vector<LD> g; for (auto k = v->begin(); k != v->end(); ++k) g.push_back(ld(*k)); compare(g, w, true, corr_, what); } { Sut s; delete v; }
    }
    template<typename OV, typename IV> void noms(const Op &o, int t, int src, const IV &in) {
        OV *v = nullptr;
        tries("nom_vector", o, [&] { if (P.cfg[1]) { std::unique_ptr<OV> u(new OV); for (auto &a : in) u->push_back(nom(a)); v = u.release(); } else v = new OV(unc::nom_vector<OV>(in)); }, [&] { unchanged(t, "nom_vector"); });
        { NoSut q; rt_count_check(); if (v->size() != in.size()) FAIL("wrong-size", "nom_vector: %d elements instead of %d", (int)v->size(), (int)in.size()); size_t i = 0; for (auto k = v->begin(); k != v->end(); ++k, ++i) if (ld(*k) != ld(nom((*x[src])[i]))) FAIL("wrong-element", "nom_vector: element %d is %.17Lg instead of %.17Lg", (int)i, ld(*k), ld(nom((*x[src])[i]))); }
        Sut s; delete v;
    }
    template<typename OV, typename A, typename B> void c2c(const Op &o, int t, int src, const A &sg, const B &co) {
        OV *v = nullptr; size_t n = sig[src]->size();
        tries("corr2cov", o, [&] { if (P.cfg[1]) { std::unique_ptr<OV> u(new OV(n * n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) (*u)[n * i + j] = sg[i] * sg[j] * co[n * i + j]; v = u.release(); } else v = new OV(unc::corr2cov<OV>(sg, co)); }, [&] { unchanged(t, "corr2cov"); });
        { NoSut q; rt_count_check(); if (v->size() != n * n) FAIL("wrong-size", "corr2cov: %d elements instead of %d", (int)v->size(), (int)(n * n));
          for (size_t k = 0; k < n * n; k++) { LD c = ld((*cor[src])[k]), ss = ld((*sig[src])[k / n]) * ld((*sig[src])[k % n]), w = ss * c, g = ld((*v)[k]); if (ss == 0 && !std::isfinite((double)c) && g == 0) continue; if (!close_to(g, w, 8 * eps * std::fabs(w))) FAIL("wrong-element", "corr2cov: element %d is %.17Lg instead of %.17Lg", (int)k, g, w); } }
        Sut s; delete v;
    }
    template<typename A, typename B> void rejected(const A &a, const B &b, const char *how) {
        const char *got = "nothing"; std::vector<double> *v = nullptr; if (P.cfg[1]) return;
        try { Sut s; v = new std::vector<double>(unc::corr2cov<std::vector<double>>(a, b)); } catch (const std::invalid_argument &) { got = nullptr; } catch (const std::exception &) { got = "another exception"; } catch (...) { got = "another exception"; }
        rt_count_op(); rt_count_check(); if (got) FAIL("not-rejected", "corr2cov: sizes do not match (%s), threw %s", how, got);
        Sut s; delete v;
    }
    void step(const Op &o, int t) {
        rt_setop("%s %d %d %d %d %d", names[o.kind], o.i[0], o.i[1], o.i[2], o.i[3], o.i[4]);
        int src = o.i[0] % 3 ? 0 : t; int n = (int)x[src]->size(); bool corr_ = o.i[1] % 2; const std::vector<U> &v = *x[src]; const std::list<U> &ls = *lst[src];
        switch (o.kind) {
        case ITER: { const char *what = corr_ ? "corr_matrix" : "cov_matrix"; int b = 0, e = n; if (o.i[3] % 3 == 0 && n) { b = o.i[5] % n; e = b + (o.i[5] / n) % (n - b + 1); }
            switch (o.i[2] % 3) { case 0: iter(o, t, src, v.begin() + b, v.begin() + e, b, e, corr_, what); break; case 1: iter(o, t, src, ls.begin(), ls.end(), 0, n, corr_, what); break; default: iter(o, t, src, InIt<U>(v.data() + b), InIt<U>(v.data() + e), b, e, corr_, what); }
            break; }
        case VECTOR: { const char *what = corr_ ? "corr_matrix of a vector" : "cov_matrix of a vector"; switch (o.i[2] % 4) { case 0: tovec<std::vector<R>>(o, t, src, v, corr_, what); break; case 1: tovec<Vec<R>>(o, t, src, ls, corr_, what); break; case 2: tovec<Vec<R>>(o, t, src, v, corr_, what); break; default: tovec<std::deque<R>>(o, t, src, v, corr_, what); } break; }
        case NOMV: switch (o.i[2] % 4) { case 0: noms<std::vector<R>>(o, t, src, v); break; case 1: noms<Vec<R>>(o, t, src, v); break; case 2: noms<std::list<R>>(o, t, src, ls); break; default: noms<Vec<R>>(o, t, src, ls); } break;
        case CORR2COV: { const std::vector<R> &a = *sig[src], &c = *cor[src]; switch (o.i[2] % 4) { case 0: c2c<std::vector<R>>(o, t, src, a, c); break; case 1: c2c<Vec<R>>(o, t, src, *sig[src], *cor[src]); break; case 2: c2c<std::deque<R>>(o, t, src, a, *cor[src]); break; default: c2c<Vec<R>>(o, t, src, *sig[src], c); } break; }
        case BADSIZE: {
            int k = 1 + o.i[1] % 5; std::vector<double> a(k, 1.5), c;
            switch (o.i[2] % 7) {
            case 0: c.assign(k * k - 1, 1); rejected(a, c, "one less"); break; case 1: c.assign(k * k + 1, 1); rejected(a, c, "one more"); break; case 2: rejected(a, c, "empty matrix"); break;
            case 3: a.clear(); c.assign(k, 1); rejected(a, c, "empty vector"); break; case 4: c.assign(k * (k + 1), 1); rejected(a, c, "one row more"); break;
            case 5: rejected(Lazy(65536u * (1 + k % 3), 1.5), Lazy(0, 1), "the square overflows"); break;
            default: if (k == 1) k = 2; a.assign(k, 1); c.assign(k, 1); rejected(a, c, "a vector"); } break; }
        case CHANGE: if (t == 0 || n == 0) break; { std::vector<U> &own = *x[t]; if (own.empty()) break; int i = o.i[1] % own.size(), j = o.i[2] % own.size(); Sut s; own[i] = own[i] + own[j] * R(o.d[0]); lst[t]->assign(own.begin(), own.end()); } see(seen[t], t); break;
        }
    }
    static World *W;
    void ops(int t, int want) { for (auto &o : P.ops) if (o.t == want) step(o, t); }
    static void thread(int t) { W->ops(t, t); }
    void run() { W = this; ops(0, 0); rt_spawn(P.nthr, thread); ops(0, POST); for (int t = 0; t <= P.nthr; t++) unchanged(t, "at the end"); }
};
template<typename U> World<U> *World<U>::W;
template<typename U> void go(const Plan &p) { World<U> *w = new World<U>(p); w->run(); delete w; }
typedef unc::UReal<double> T0; typedef unc::UReal<SimReal> T1; typedef unc::UReal2<double, unc::Prop::est> T2; typedef unc::UReal2<SimReal, unc::Prop::mean> T3;
#if PART == 1
template void go<T1>(const Plan &);
#elif PART == 2
template void go<T2>(const Plan &);
#elif PART == 3
template void go<T3>(const Plan &);
#else
extern template void go<T1>(const Plan &); extern template void go<T2>(const Plan &); extern template void go<T3>(const Plan &);
const char *const w_name = "stat";
const char *const *const w_ops = names;
void w_warm() { std::ostringstream s; s << 1.5 << " " << 3 << "x"; std::string t = s.str(); }
void w_run(const Plan &p) { switch (p.cfg[0]) { case 1: go<T1>(p); break; case 2: go<T2>(p); break; case 3: go<T3>(p); break; default: go<T0>(p); } }
int w_attrib(const Plan &, const std::string &, Plan &n) { n.cfg[1] = 1; return 1; }     // do cov, corr and nom themselves work?
void w_gen(Plan &p, Rng &r, bool thorough) {
    int q = r.below(10); p.cfg[0] = q < 4 ? 0 : q < 6 ? 1 : q < 9 ? 2 : 3; for (int i = 2; i < 6; i++) p.cfg[i] = r.below(60);
    if ((p.cfg[0] == 1 || p.cfg[0] == 3) && p.cfg[3] % MAXN > 3) p.cfg[3] = r.below(4);
    p.nthr = r.chance(60) ? r.range(2, r.chance(20) ? 4 : 3) : 0; int setup = p.nthr ? r.range(0, 2) : r.range(2, 8), len = r.range(1, thorough ? 8 : 4), post = r.range(0, 2), fault = r.chance(65) ? 55 : 0;
    auto add = [&](int t) {
        Op o; o.t = t; int k = r.below(100); o.kind = k < 38 ? ITER : k < 60 ? VECTOR : k < 75 ? NOMV : k < 86 ? CORR2COV : k < 93 ? BADSIZE : CHANGE;
        for (int j = 0; j < NI; j++) o.i[j] = r.below(60);
        o.d[0] = r.uniform(-2, 2);
        if (o.kind < BADSIZE && r.chance(fault)) {
            int w = r.below(10); o.fk = p.cfg[0] % 2 == 1 && w < 3 ? F_NUM : w < 5 ? F_ALLOC : F_ITER; o.fs = r.chance(50); o.fn = r.chance(70) ? r.range(1, 12) : r.range(1, 60); o.fp = o.fk == F_ALLOC && r.chance(25);
        }
        repeat(p, o, r, 12);
        p.ops.push_back(o);
    };
    for (int i = 0; i < setup; i++) add(0);
    for (int t = 1; t <= p.nthr; t++) for (int i = 0; i < len; i++) add(t);
    for (int i = 0; i < post; i++) add(POST);
}
#endif
