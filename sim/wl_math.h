// wl_math.h -- the mathematical functions with their exact derivatives, and
// the part of their domain where they are smooth and well conditioned.
#ifndef SIM_WL_MATH_H
#define SIM_WL_MATH_H
#include "wl.h"
typedef long double LD;
struct Fun1 { const char *name; LD f, d, dd; };
enum { NFUN1 = 24, NFUN2 = 7 };
inline bool fun1_ok(int k, LD x) {
    LD a = std::fabs(x);
    switch (k) {
    case 0: return a > .01L && a < 50; case 1: case 2: case 3: return a < 5;
    case 4: case 5: case 6: case 8: return x > .05L && x < 50; case 7: return x > -.8L && x < 50;
    case 9: return a > .05L && a < 50; case 10: case 11: return a < 10; case 12: return a < 10 && std::fabs(std::cos(x)) > .2L;
    case 13: case 14: return a < .9L; case 15: return a < 50; case 16: case 17: case 18: return a < 5; case 19: return a < 50;
    case 20: return x > 1.1L && x < 50; case 21: return a < .9L; case 22: case 23: return a < 4; }
    return false;
}
inline Fun1 fun1_ref(int k, LD x) {
    const LD L2 = std::log(2.0L), L10 = std::log(10.0L), C = 2 / std::sqrt(std::acos(-1.0L));
    Fun1 r; r.name = "?"; LD q;
    switch (k) {
    case 0: r = {"abs", std::fabs(x), x < 0 ? -1.0L : 1.0L, 0}; break;
    case 1: r = {"exp", std::exp(x), std::exp(x), std::exp(x)}; break;
    case 2: q = std::exp2(x); r = {"exp2", q, L2 * q, L2 * L2 * q}; break;
    case 3: r = {"expm1", std::expm1(x), std::exp(x), std::exp(x)}; break;
    case 4: r = {"log", std::log(x), 1 / x, -1 / (x * x)}; break;
    case 5: r = {"log10", std::log10(x), 1 / (x * L10), -1 / (x * x * L10)}; break;
    case 6: r = {"log2", std::log2(x), 1 / (x * L2), -1 / (x * x * L2)}; break;
    case 7: r = {"log1p", std::log1p(x), 1 / (1 + x), -1 / ((1 + x) * (1 + x))}; break;
    case 8: q = std::sqrt(x); r = {"sqrt", q, .5L / q, -.25L / (x * q)}; break;
    case 9: q = std::cbrt(x); r = {"cbrt", q, 1 / (3 * q * q), -2 / (9 * x * q * q)}; break;
    case 10: r = {"sin", std::sin(x), std::cos(x), -std::sin(x)}; break;
    case 11: r = {"cos", std::cos(x), -std::sin(x), -std::cos(x)}; break;
    case 12: q = std::tan(x); r = {"tan", q, 1 + q * q, 2 * q * (1 + q * q)}; break;
    case 13: q = 1 - x * x; r = {"asin", std::asin(x), 1 / std::sqrt(q), x / (q * std::sqrt(q))}; break;
    case 14: q = 1 - x * x; r = {"acos", std::acos(x), -1 / std::sqrt(q), -x / (q * std::sqrt(q))}; break;
    case 15: q = 1 + x * x; r = {"atan", std::atan(x), 1 / q, -2 * x / (q * q)}; break;
    case 16: r = {"sinh", std::sinh(x), std::cosh(x), std::sinh(x)}; break;
    case 17: r = {"cosh", std::cosh(x), std::sinh(x), std::cosh(x)}; break;
    case 18: q = std::tanh(x); r = {"tanh", q, 1 - q * q, -2 * q * (1 - q * q)}; break;
    case 19: q = 1 + x * x; r = {"asinh", std::asinh(x), 1 / std::sqrt(q), -x / (q * std::sqrt(q))}; break;
    case 20: q = x * x - 1; r = {"acosh", std::acosh(x), 1 / std::sqrt(q), -x / (q * std::sqrt(q))}; break;
    case 21: q = 1 - x * x; r = {"atanh", std::atanh(x), 1 / q, 2 * x / (q * q)}; break;
    case 22: q = C * std::exp(-x * x); r = {"erf", std::erf(x), q, -2 * x * q}; break;
    case 23: q = C * std::exp(-x * x); r = {"erfc", std::erfc(x), -q, 2 * x * q}; break;
    }
    return r;
}
struct Fun2 { const char *name; LD f, dx, dy, dxx, dyy, dxy; };
inline bool fun2_ok(int k, LD x, LD y) {
    LD a = std::fabs(x), b = std::fabs(y), q;
    if (a > 20 || b > 20) return false;
    switch (k) {
    case 0: if (b < .3L) return false; q = x / y; return std::fabs(q - std::round(q)) > .01L;
    case 1: if (b < .3L) return false; q = x / y; q -= std::floor(q); return std::fabs(q - .5L) > .01L;
    case 2: case 3: return std::fabs(x - y) > 1e-3L;
    case 4: return x > .2L && x < 5 && b < 3; case 5: case 6: return std::hypot(x, y) > .2L; }
    return false;
}
inline Fun2 fun2_ref(int k, LD x, LD y) {
    Fun2 r; r.name = "?"; LD h, L, p;
    switch (k) {
    case 0: r = {"fmod", std::fmod(x, y), 1, -std::trunc(x / y), 0, 0, 0}; break;
    case 1: r = {"remainder", std::remainder(x, y), 1, -std::round(x / y), 0, 0, 0}; break;
    case 2: r = {"fmax", std::fmax(x, y), x > y ? 1.0L : 0.0L, x > y ? 0.0L : 1.0L, 0, 0, 0}; break;
    case 3: r = {"fmin", std::fmin(x, y), x < y ? 1.0L : 0.0L, x < y ? 0.0L : 1.0L, 0, 0, 0}; break;
    case 4: p = std::pow(x, y); L = std::log(x); r = {"pow", p, p * y / x, p * L, p * y * (y - 1) / (x * x), p * L * L, p / x + p * y * L / x}; break;
    case 5: h = std::hypot(x, y); r = {"hypot", h, x / h, y / h, y * y / (h * h * h), x * x / (h * h * h), -x * y / (h * h * h)}; break;
    case 6: h = x * x + y * y; r = {"atan2", std::atan2(x, y), y / h, -x / h, -2 * x * y / (h * h), 2 * x * y / (h * h), (x * x - y * y) / (h * h)}; break;
    }
    return r;
}
// x to a whole power, and its derivatives
inline void powi_ref(LD x, int e, LD &f, LD &d, LD &dd) {
    auto pw = [](LD x, int n) { LD r = 1; for (int i = 0; i < (n < 0 ? -n : n); i++) r *= x; return n < 0 ? 1 / r : r; };
    f = pw(x, e); d = e ? e * pw(x, e - 1) : 0; dd = e && e != 1 ? e * (e - 1) * pw(x, e - 2) : 0;
}
template<typename U, typename A> U apply1f(int k, A &&x) {
    switch (k) {
    case 0: return abs(std::forward<A>(x)); case 1: return exp(std::forward<A>(x)); case 2: return exp2(std::forward<A>(x)); case 3: return expm1(std::forward<A>(x)); case 4: return log(std::forward<A>(x)); case 5: return log10(std::forward<A>(x));
    case 6: return log2(std::forward<A>(x)); case 7: return log1p(std::forward<A>(x)); case 8: return sqrt(std::forward<A>(x)); case 9: return cbrt(std::forward<A>(x)); case 10: return sin(std::forward<A>(x)); case 11: return cos(std::forward<A>(x));
    case 12: return tan(std::forward<A>(x)); case 13: return asin(std::forward<A>(x)); case 14: return acos(std::forward<A>(x)); case 15: return atan(std::forward<A>(x)); case 16: return sinh(std::forward<A>(x)); case 17: return cosh(std::forward<A>(x));
    case 18: return tanh(std::forward<A>(x)); case 19: return asinh(std::forward<A>(x)); case 20: return acosh(std::forward<A>(x)); case 21: return atanh(std::forward<A>(x)); case 22: return erf(std::forward<A>(x)); default: return erfc(std::forward<A>(x)); }
}
template<typename U, typename A, typename B> U apply2f(int k, A &&x, B &&y) {
    switch (k) {
    case 0: return fmod(std::forward<A>(x), std::forward<B>(y)); case 1: return remainder(std::forward<A>(x), std::forward<B>(y)); case 2: return fmax(std::forward<A>(x), std::forward<B>(y)); case 3: return fmin(std::forward<A>(x), std::forward<B>(y));
    case 4: return pow(std::forward<A>(x), std::forward<B>(y)); case 5: return hypot(std::forward<A>(x), std::forward<B>(y)); default: return atan2(std::forward<A>(x), std::forward<B>(y)); }
}
// ---- operands of every value category: constants, temporaries, and variables that are not const
template<typename U, typename A, typename B> U arithf(int k, A &&a, B &&b) { switch (k) { case 0: return std::forward<A>(a) + std::forward<B>(b); case 1: return std::forward<A>(a) - std::forward<B>(b); case 2: return std::forward<A>(a) * std::forward<B>(b); default: return std::forward<A>(a) / std::forward<B>(b); } }
template<typename U, typename B> void compoundf(int k, U &a, B &&b) { switch (k) { case 0: a += std::forward<B>(b); break; case 1: a -= std::forward<B>(b); break; case 2: a *= std::forward<B>(b); break; default: a /= std::forward<B>(b); } }
template<typename U> U apply1(int k, const U &x, int cat = 0) { switch (cat) { case 1: return apply1f<U>(k, U(x)); case 2: { U q(x); return apply1f<U>(k, q); } default: return apply1f<U>(k, x); } }
template<typename U> U apply2(int k, const U &x, const U &y, int cat = 0) { switch (cat) { case 1: return apply2f<U>(k, U(x), y); case 2: return apply2f<U>(k, x, U(y)); case 3: return apply2f<U>(k, U(x), U(y)); case 4: { U q(x); return apply2f<U>(k, q, U(y)); } default: return apply2f<U>(k, x, y); } }
template<typename U> U arith(int k, const U &x, const U &y, int cat = 0) { switch (cat) { case 1: return arithf<U>(k, U(x), y); case 2: return arithf<U>(k, x, U(y)); case 3: return arithf<U>(k, U(x), U(y)); case 4: { U q(x), r(y); return arithf<U>(k, q, r); } default: return arithf<U>(k, x, y); } }
template<typename U> void compound(int k, U &x, const U &y, int cat = 0) { switch (cat) { case 1: compoundf(k, x, U(y)); break; case 2: { U q(y); compoundf(k, x, q); break; } default: compoundf(k, x, y); } }
template<typename U> U sign(bool minus, const U &x, int cat = 0) { switch (cat) { case 1: return minus ? -U(x) : +U(x); case 2: { U q(x); return minus ? -q : +q; } default: return minus ? -x : +x; } }
inline int pick1(int k, LD x) { k = ((k % NFUN1) + NFUN1) % NFUN1; for (int j = 0; j < NFUN1; j++) if (fun1_ok((k + j) % NFUN1, x)) return (k + j) % NFUN1; return -1; }
inline int pick2(int k, LD x, LD y) { k = ((k % NFUN2) + NFUN2) % NFUN2; for (int j = 0; j < NFUN2; j++) if (fun2_ok((k + j) % NFUN2, x, y)) return (k + j) % NFUN2; return -1; }
#endif
