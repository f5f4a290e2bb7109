// statics/user.cpp -- a translation unit whose static variables use the library
// (C01, C14). Compiled several times, with TU = 1, 2..., and linked in every order.
#define UNCERTAINTIES_EXTERN_UDOUBLE
#define UNCERTAINTIES_EXTERN_UDOUBLE2
#include "common.h"
#include <sstream>
#if TU % 2
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/math.hpp>
#else
#include <uncertainties/math.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/ureal.hpp>
#endif
#include <uncertainties/functions.hpp>
#if TU == 2
#include "../wl_eigen.h"
#include <uncertainties/ureals.hpp>
#include <uncertainties/stat.hpp>
#endif
#include "../wl_math.h"
namespace unc = uncertainties;
typedef unc::UReal<double> UD; typedef unc::UReal<float> UF; typedef unc::UReal<SimReal> US;
typedef unc::UReal2<double, unc::Prop::est> UE; typedef unc::UReal2<double, unc::Prop::mean> UM; typedef unc::UReal2<SimReal, unc::Prop::est> US2;
template<typename U> struct Mk { typedef typename U::real_type R; static U mk(double n, double s) { return U(R(n), R(s)); } };
template<typename R_, unc::Prop p> struct Mk<unc::UReal2<R_, p>> { typedef R_ R; typedef unc::UReal2<R_, p> U; static U mk(double n, double s) { double q = s * s; return U(R(n), std::array<R, 7>{{R(q), R(0), R(3 * q * q), R(0), R(15 * q * q * q), R(0), R(105 * q * q * q * q)}}, R(-1)); } };
template<typename U> struct G {        // a static variable: records its identifier
    U u; G(double n, double s): u(Mk<U>::mk(n, s)) { id_record((long long)u.indepid()); }
};
// first uses of the functions with tables: the results are recorded, here and then in main
template<typename R> void look(const unc::UReal<R> &y, const unc::UReal<R> &x) { val_record(ld(y.n())); val_record(ld(y.s())); val_record(ld(cov(y, x))); }
template<typename R, unc::Prop p> void look(const unc::UReal2<R, p> &y, const unc::UReal2<R, p> &x) { val_record(ld(y.n())); for (int k = 2; k <= 4; k++) val_record(ld(y.m(k))); val_record(ld(cov(y, x))); val_record(ld(y.hess(x, x))); }
static void text(const std::string &t) { double h = 0; for (unsigned char c : t) h = h * 1.37 + c; val_record(t.size()); val_record(h); }
template<typename U> void texts() {      // numbers of all sizes
    static const double ns[][2] = {{0, 0}, {1.5e20, 2e18}, {-3.7e-19, 1e-20}, {123.456, .0123}, {-.5, 3}, {99.96, .096}, {1e5, 0}, {-2.5e-9, 0}, {7, 1e6}};
    for (auto &v : ns) {
        U x = v[1] == 0 ? U(typename U::real_type(v[0])) : Mk<U>::mk(v[0], v[1]); text(unc::format(x)); text(unc::format(x, 1.5f, " +/- ")); text(unc::format(x, 2.25f)); text(x.format(4, "e"));
        std::ostringstream s; s << x; text(s.str()); }
}
template<typename R> R f_sq(const R &x) { return x * x; } template<typename R> R f_2x(const R &x) { return x + x; } template<typename R> R f_two(const R &) { return R(2); }
template<typename R> R g_xy(const R &x, const R &y) { return x * y; } template<typename R> R g_x(const R &x, const R &) { return x; } template<typename R> R g_y(const R &, const R &y) { return y; } template<typename R> R g_0(const R &, const R &) { return R(0); } template<typename R> R g_1(const R &, const R &) { return R(1); }
static void built() {        // functions built from callbacks
    UD x(.5, .25), y(2, .5); look(unc::uunary<double>(f_sq<double>, f_2x<double>)(x), x); look(unc::ubinary<double>(g_xy<double>, g_y<double>, g_x<double>)(x, y), x);
    look(unc::uunary<double>(f_sq<double>, 1e-6)(x), x); 
    UE a = Mk<UE>::mk(.5, .25), b = Mk<UE>::mk(2, .5); look(unc::uunary2<double, unc::Prop::est>(f_sq<double>, f_2x<double>, f_two<double>)(a), a);
    look(unc::ubinary2<double, unc::Prop::est>(g_xy<double>, g_y<double>, g_x<double>, g_0<double>, g_0<double>, g_1<double>)(a, b), a);
#if TU == 2
    std::vector<double> m = {4, 1, 0, 1, 3, -1, 0, -1, 2}, n = {1, 2, 3}; std::vector<UD> v = unc::ureals<std::vector<UD>>(n, m);
    for (auto &p : v) { val_record(p.n()); for (auto &q : v) val_record(cov(p, q)); } std::vector<double> c = unc::cov_matrix<std::vector<double>>(v), r = unc::corr_matrix<std::vector<double>>(v); for (int i = 0; i < 9; i++) val_record(c[i]), val_record(r[i]);
#endif
}
template<typename U> void uses() {
    typedef typename U::real_type R; U x = Mk<U>::mk(.5, .25), z = Mk<U>::mk(1, .5), w = Mk<U>::mk(2, .25);
    look(exp2(x), x); look(log10(x), x); look(log2(x), x); look(erf(x), x); look(erfc(x), x); U y = x * z; U v = y + w; look(v, x); look(v * x, w); look(y / z, z); look(U(R(3)) + y, x);
    std::string t = unc::format(x); for (char c : t) val_record(c);
    for (int k = 0; k < NFUN1; k++) { U q = fun1_ok(k, .5L) ? x : w; look(apply1(k, q), q); }
    texts<U>();
}
template<typename U> void uses2() {
    typedef typename U::real_type R; U x = unc::distr::normal<U>(R(1), R(.5)); look(x * x, x); U u = unc::distr::uniform<U>(R(0), R(1)); look(u * u, u); U c = unc::distr::chisquare<U>(3); look(c * c, c);
    U x1 = Mk<U>::mk(.5, .25), x2 = Mk<U>::mk(.5, .25), x3 = Mk<U>::mk(.5, .25); U a = x1 + x3, b = x2 * x3; U p = a * b; val_record(ld(a.hess(x1, x2))); val_record(ld(p.hess(x1, x2))); val_record(ld(p.grad(x2))); val_record(ld(p.m(3))); val_record(ld(cov(a, x2)));
}
void CAT(run_, TU)() { uses<UD>(); uses<US>(); uses<UE>(); uses<US2>(); uses2<UE>(); uses2<US2>(); uses<UM>(); uses2<UM>(); uses<UF>(); built(); }
static G<UD> a(1, 2); static G<UE> b(1, 2);
namespace { struct First { First() { uses_begin(TU); CAT(run_, TU)(); uses_end(); } } first; }
G<UM> CAT(c_, TU)(3, 1); static G<UF> d(3, 1); static G<US> e(1, 1); G<US2> CAT(f_, TU)(1, 1);
#if TU == 1
void more_ids() { for (int i = 0; i < 5; i++) { G<UD> x(1, 1); G<UE> y(1, 1); G<UF> z(1, 1); } }
#endif
