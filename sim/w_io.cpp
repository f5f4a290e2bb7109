// w_io.cpp -- stream output (C09: sinks which fail) and text (C10: ambient state
// which changes).
#define UNCERTAINTIES_EXTERN_UDOUBLE
#define UNCERTAINTIES_EXTERN_UDOUBLE2
#include "wl.h"
#include "wl_eigen.h"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/io.hpp>
#include <array>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <locale.h>
#include <iomanip>
#include <locale>
#include <memory>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef PART
#define PART 0
#endif
namespace unc = uncertainties;
typedef long double LD;
enum Kind { WRITE, SETUP, CLEAR, FORMAT, STREAM, CLOCALE, CPPLOCALE, THREADLOCALE, FENV, NKIND };
static const char *const names[] = {"write", "setup", "clear", "format", "stream", "c_locale", "cpp_locale", "thread_locale", "fp_environment", 0};
enum { NX = 8, NST = 3, NREF = 64, TXT = 480 };
struct Ref { int n; char s[TXT]; };
extern Ref *refs;     // shared with the other processes
extern const char *clocs[4];
std::locale weird(int k);

template<typename U> struct Mk { typedef typename U::real_type R; static U mk(double n, double s) { return U(R(n), R(s)); } };
template<typename R_, unc::Prop p> struct Mk<unc::UReal2<R_, p>> {
    typedef R_ R; typedef unc::UReal2<R_, p> U;
    static U mk(double n, double s) { double q = s * s; if (!(q > 0)) return U(R(n)); return U(R(n), std::array<R, 7>{{R(q), R(0), R(3 * q * q), R(0), R(15 * q * q * q), R(0), R(105 * q * q * q * q)}}, R(-1)); }
};

// the stream buffer of the simulated device: fails, throws or stops at the byte where the plan says so
struct Sink: std::streambuf {
    std::string got; int mode, failing; char area[8];
    explicit Sink(int m): mode(m), failing(0) { if (mode == 2) setp(area, area + 5); }
    std::string all() const { return got + std::string(pbase() ? pbase() : area, pptr() - pbase()); }
    // one byte to the device: false if it is not taken
    bool byte(char c) {
        int on = rt_enter(0); rt_event(0x99, (unsigned char)c);
        int due = failing ? failing : on && rt_fault_point(F_SINK_FAIL) ? 1 : on && rt_fault_point(F_SINK_THROW) ? 2 : on && rt_fault_point(F_SINK_SHORT) ? 3 : 0;
        if (due == 0) got += c;
        if (due && due < 3) failing = stays ? due : 0;
        rt_enter(on);
        if (due == 2) throw_fault(3, (int)got.size());
        return due == 0;
    }
    int stays = 0;
    bool drain() { size_t n = pptr() - pbase(), k = 0; try { while (k < n && byte(area[k])) k++; } catch (...) { keep(k, n); throw; } keep(k, n); return k == n; }
    void keep(size_t k, size_t n) { char rest[8]; std::memcpy(rest, area + k, n - k); setp(area, area + 5); std::memcpy(area, rest, n - k); pbump((int)(n - k)); }
    int_type overflow(int_type c) override {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if (mode == 2) { if (!drain()) return traits_type::eof(); *pptr() = traits_type::to_char_type(c); pbump(1); return c; }
        return byte(traits_type::to_char_type(c)) ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override {
        if (mode != 1) return std::streambuf::xsputn(s, n);
        std::streamsize k = 0; while (k < n && byte(s[k])) k++; return k;
    }
    int sync() override { rt_event(0x98, 0); return 0; }
};
struct Stream { Sink *sink; std::ostream *os; std::ostringstream *oss; int w, fill; std::string have() const { return oss ? oss->str() : sink->all(); } };

// what a text says: value, and weight of the last digit (0 for a number which is not finite or is an exact zero)
inline bool readnum(const std::string &t, int ex, LD &v, LD &unit, int &sig) {
    sig = 0; unit = 0; if (t == "nan" || t == "inf" || t == "-inf") { v = t == "nan" ? NAN : t[0] == '-' ? -INFINITY : INFINITY; return true; }
    size_t i = t[0] == '-', nd = 0, dec = 0; bool dot = false; LD m = 0; int e = 0;
    for (; i < t.size() && (isdigit((unsigned char)t[i]) || (t[i] == '.' && !dot)); i++) if (t[i] == '.') dot = true; else { m = m * 10 + (t[i] - '0'); nd++; dec += dot; if (sig || t[i] != '0') sig++; }
    if (!nd) return false;
    if (i < t.size()) { if (t[i] != 'e' || ++i >= t.size()) return false; int sg = t[i] == '-' ? -1 : 1; if (t[i] == '-' || t[i] == '+') i++; size_t k = 0; for (; i < t.size() && isdigit((unsigned char)t[i]) && k < 4; i++, k++) e = e * 10 + (t[i] - '0'); if (!k || i < t.size()) return false; e *= sg; }
    unit = std::pow(10.0L, (LD)(e + ex - (int)dec)); v = m * unit * (t[0] == '-' ? -1 : 1); return true;
}
// the text says mean n and standard deviation s, with dig digits or so
inline bool readback(const std::string &txt, const std::string &sep, LD n, LD s, float dig, LD eps) {
    std::string b = txt; int ex = 0; bool plain = !(std::isfinite(n) && std::isfinite(s) && s != 0);
    if (!b.empty() && b[0] == '(') { size_t p = b.rfind(")e"); if (p == std::string::npos || plain) return false; LD v, u; int sg; if (!readnum("1e" + b.substr(p + 2), 0, v, u, sg)) return false; ex = (int)std::lround(std::log10(v)); b = b.substr(1, p - 1); }
    for (size_t p = b.find(sep); p != std::string::npos && p <= b.size(); p = b.find(sep, p + 1)) {
        LD v, w, u, x; int sv, sw; if (!p || !readnum(b.substr(0, p), ex, v, u, sv) || !readnum(b.substr(p + sep.size()), ex, w, x, sw)) continue;
        auto is = [&](LD a, LD t, LD unit) { if (t != t) return a != a; if (std::isinf(t) || t == 0) return a == t; return std::fabs(a - t) <= .50001L * unit + 16 * eps * std::fabs(t) && (a == 0 || (a < 0) == (t < 0)); };
        if (!is(v, n, u) || !is(w, s, x)) continue;
        if (plain ? (n != 0 && std::isfinite(n) && sv != 6) || (s != 0 && std::isfinite(s) && sw != 6) : u != x || sw < (int)dig || sw > (int)dig + 1 || (v < 0 && b[0] != '-')) continue;
        return true;
    }
    return false;
}
template<typename U> struct World {
    typedef typename U::real_type R;
    const Plan &P; U *x[NX]; Stream st[RT_MAXT][NST]; std::string text[NX], deftext[NX]; locale_t tl[RT_MAXT];
    World(const Plan &p): P(p) {
        Rng r(p.cfg[2] * 1000 + 7); r.next();
        bool plain = P.prop == "C10" && r.chance(25); double last = 0;   // plain: most are without uncertainty, and near each other
        for (int i = 0; i < NX; i++) {
            double e = P.prop == "C10" && r.chance(30) ? r.range(-30, 30) : r.range(-4, 4), n = r.uniform(-9.99, 9.99) * std::pow(10, e), s = r.uniform(.1, 9.99) * std::pow(10, e + r.range(-3, 2));
            int k = r.below(12); if (k == 0) n = 0; if (k == 1) s = 0; if (k == 2) n = std::round(n), s = std::round(s) + 1; if (P.prop == "C10" && k == 3) n = std::numeric_limits<double>::infinity(); if (P.prop == "C10" && k == 4) n = std::numeric_limits<double>::quiet_NaN();
            if (plain && k > 2) { s = 0; if (last && r.chance(75) && std::isfinite(last)) n = last * r.uniform(.05, 20); n = n < 0 && k % 4 ? -n : n; last = n; k = 0; }
            x[i] = new U(Mk<U>::mk(n, s)); if (k > 8 && i) { U y = *x[i] + *x[i - 1]; *x[i] = y; }
        }
        std::memset(st, 0, sizeof st); std::memset(tl, 0, sizeof tl);
        if (P.prop == "C09") for (int t = 0; t <= P.nthr; t++) for (int i = 0; i < NST; i++) setup(st[t][i], (P.cfg[3] + i + t) % 4);
        if (P.prop == "C09") for (int i = 0; i < NX; i++) { text[i] = unc::format(*x[i]); deftext[i] = text[i]; }
    }
    ~World() { for (auto &q : x) delete q; for (auto &v : st) for (auto &s : v) drop(s); }
    void drop(Stream &s) { Sut q; delete s.os; s.os = nullptr; s.oss = nullptr; delete s.sink; s.sink = nullptr; }
    void setup(Stream &s, int mode) { drop(s); Sut q; s.w = 0; s.fill = ' '; if (mode == 3) { s.oss = new std::ostringstream; s.os = s.oss; } else { { NoSut n; s.sink = new Sink(mode); } s.os = new std::ostream(s.sink); } }
    void write(const Op &o, int t) {
        Stream &s = st[t][o.i[0] % NST]; int xi = o.i[1] % NX; const U &v = *x[xi]; std::ostream &os = *s.os;
        std::string pad = text[xi];
        int w = o.i[2] % 3 ? 0 : o.i[2] >= 57 ? 60 + 5 * o.i[3] : o.i[2] % 40; char fill = "  *0\xc3"[o.i[3] % 5]; int adj = o.i[4] % 4;
        if ((int)pad.size() < w) { std::string f(w - pad.size(), fill); pad = adj == 1 ? pad + f : f + pad; }
        if (s.sink) s.sink->stays = o.fp;
        int lim = 0;
        for (int n = o.fk ? o.fs ? 1 : o.fn : 0; ; ) {
            std::ios_base::iostate st0 = os.rdstate(), mask = os.exceptions(); size_t len0;
            { NoSut q; os.width(w); os.fill(fill); os.setf(adj == 1 ? std::ios::left : adj == 2 ? std::ios::right : adj == 3 ? std::ios::internal : std::ios::fmtflags(0), std::ios::adjustfield); len0 = s.have().size(); }
            if (n) rt_fault_arm(o.fk, n, o.fk == F_ALLOC ? o.fp : 0);
            const char *got = nullptr; std::ostream *ret = &os;
            try { Sut q; if (P.cfg[1]) ret = &(os << unc::format(v)); else ret = &(os << v); }
            catch (const SimFault &) { got = "the exception of the stream buffer"; } catch (const std::ios_base::failure &) { got = "ios_base::failure"; } catch (const std::bad_alloc &) { got = "bad_alloc"; } catch (...) { got = "another exception"; }
            int fired = n ? rt_fault_disarm() : 0; if (s.sink) { if (s.sink->failing) fired++; s.sink->failing = 0; }
            NoSut ns; rt_count_op(); rt_count_check(); std::ios_base::iostate st1 = os.rdstate(); std::string out = s.have().substr(len0); bool fail = (st1 & (std::ios::badbit | std::ios::failbit)) != 0;
            rt_note(out.size() * 16 + st1);
            if (os.exceptions() != mask) FAIL("mask-changed", "write: the exception mask of the stream was %d and is %d", (int)mask, (int)os.exceptions());
            if (ret != &os) FAIL("wrong-stream", "write: the operator did not return the stream");
            if (out.compare(0, std::string::npos, pad, 0, out.size())) FAIL("not-prefix", "write: received \"%s\" which is not a prefix of \"%s\"", out.c_str(), pad.c_str());
            if (got && (!strcmp(got, "another exception") || (!fired && strcmp(got, "ios_base::failure")))) FAIL("wrong-exception", "write: threw %s", got);
            bool alloc = got && o.fk == F_ALLOC && fired && !strcmp(got, "bad_alloc");
            if (got && !alloc && !(st1 & mask)) FAIL("wrong-exception", "write: threw %s, state %d, exception mask %d", got, (int)st1, (int)mask);
            if (!got && !st0 && (st1 & mask)) FAIL("no-exception", "write: state %d, exception mask %d, did not throw", (int)st1, (int)mask);
            if (st0) { if (!out.empty()) FAIL("not-ignored", "write: stream in state %d received \"%s\"", (int)st0, out.c_str()); if ((st1 & st0) != st0) FAIL("state-cleared", "write: state %d became %d", (int)st0, (int)st1); }
            else if (!fired) {
                if (out != pad) FAIL("incomplete", "write: nothing failed, received \"%s\" instead of \"%s\"", out.c_str(), pad.c_str());
                if (st1) FAIL("wrong-state", "write: nothing failed, state %d", (int)st1); if (got) FAIL("wrong-exception", "write: nothing failed, threw %s", got);
                if (os.width()) FAIL("width", "write: width is %d after the write", (int)os.width());
            } else { if (out != pad && !fail && !alloc) FAIL("hidden-failure", "write: received only \"%s\" of \"%s\", but the state of the stream is %d and nothing was thrown", out.c_str(), pad.c_str(), (int)st1); }
            if (unc::format(v) != deftext[xi]) FAIL("changed", "write: changed the variable");
            if (!n || !o.fs || !fired || ++lim > 200) break;
            n += n < 40 ? 1 : 7; std::ios_base::iostate m = os.exceptions(); os.exceptions(std::ios::goodbit); os.clear(); os.exceptions(m);
        }
    }
    static const char *sep(int k) { static const char *const seps[] = {" +/- ", "", " ", "\xc2\xb1", "e", " plus or minus, which is also long ", ".", "-", "; ", " +-  ", "    ", ", "}; return seps[k % 12]; }
    static float digits(const Op &o) { return o.i[2] % 4 == 0 ? 1.5f : 1.0f + (1 + o.i[2] % 23) * .25f; }
    void says(const Op &o, const Ref &w) {
        const U &v = *x[o.i[1] % NX]; const std::string t(w.s, w.n); bool def = o.kind == STREAM || o.i[3] % 3 == 0; LD n = ld(nom(v)), s = ld(sdev(v));
        rt_count_check(); if (!readback(t, def || o.i[3] % 3 == 1 ? " \xc2\xb1 " : sep(o.i[4]), n, s, def ? 1.5f : digits(o), std::numeric_limits<R>::epsilon() > 1e-10 ? 1.2e-7L : 2.3e-16L))
            FAIL("readback", "%s: mean %.17Lg, standard deviation %.17Lg, %g digits give \"%s\"", names[o.kind], n, s, def ? 1.5 : digits(o), t.c_str());
    }
    void call(const Op &o, std::string &r) {
        const U &v = *x[o.i[1] % NX];
        if (o.kind == STREAM) { r = unc::format(v); return; }
        float d = digits(o); if (o.i[3] % 3 == 0) r = unc::format(v); else if (o.i[3] % 3 == 1) r = unc::format(v, d); else r = unc::format(v, d, std::string(sep(o.i[4])));
    }
    void reference(const Op &o, Ref *r) {     // in a new process, with nothing changed
        r->n = 0; fflush(0); pid_t pid = fork(); if (pid < 0) _exit(3);
        if (pid == 0) { alarm(20); rt_enter(0); std::string s; call(o, s); if (s.size() < TXT) { std::memcpy(r->s, s.data(), s.size()); r->n = (int)s.size(); } else r->n = -1; _exit(0); }
        int stt; while (waitpid(pid, &stt, 0) < 0) ;
        if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { r->n = -2; rt_result()->violated = 0; }      // does not work at all
    }
    void text_op(const Op &o, int idx) {
        const Ref &w = refs[idx]; if (w.n < 0) return; std::string got;
        if (o.kind == FORMAT) attempt("format", o, [&] { call(o, got); }, [](int) {});
        else {
            const U &v = *x[o.i[1] % NX];
            attempt("stream output", o, [&] {
                std::ostringstream os; if (!P.cfg[1]) { if (o.i[2] % 3 == 0) os.imbue(weird(o.i[2])); os.flags(std::ios::fmtflags(std::ios::dec)); int f = o.i[3];
                    if (f & 1) os << std::showpos; if (f & 2) os << std::scientific; if (f & 4) os << std::hex; if (f & 8) os << std::uppercase; if (f & 16) os << std::fixed << std::showpoint; if (f & 32) os << std::boolalpha << std::showbase; os << std::setprecision(o.i[4] % 12); }
                os << v; got = os.str(); }, [](int) {});
        }
        NoSut n; rt_count_op(); rt_count_check(); uint64_t h = 0; for (char c : got) h = h * 31 + c; rt_note(h);
        if (got != std::string(w.s, w.n)) FAIL("text", "%s gave \"%s\", and gives \"%s\" in a new process where nothing else was done", names[o.kind], got.c_str(), std::string(w.s, w.n).c_str());
    }
    void step(const Op &o, int t, int idx) {
        rt_setop("%s %d %d %d %d %d", names[o.kind], o.i[0], o.i[1], o.i[2], o.i[3], o.i[4]);
        if (P.prop == "C09") {
            Stream &s = st[t][o.i[0] % NST];
            switch (o.kind) {
            case WRITE: write(o, t); break;
            case SETUP: { { NoSut q; if (o.i[1] % 4 == 0) setup(s, o.i[2] % 4); } Sut q; try { s.os->clear(); s.os->exceptions(std::ios_base::iostate(o.i[3] % 8)); if (o.i[4] % 6 == 0) s.os->setstate(std::ios_base::iostate(o.i[5] % 8)); if (o.i[4] % 2) *s.os << std::unitbuf; else *s.os << std::nounitbuf; } catch (const std::ios_base::failure &) {} break; }
            case CLEAR: { Sut q; s.os->clear(); break; }
            }
            return;
        }
        switch (o.kind) {
        case FORMAT: case STREAM: text_op(o, idx); break;
        case CLOCALE: if (!P.cfg[1]) { NoSut q; int cats[3] = {LC_ALL, LC_NUMERIC, LC_NUMERIC}; const char *l = clocs[o.i[1] % 3]; rt_event(0x97, o.i[1]); if (l) { setlocale(cats[o.i[2] % 3], l); rt_fired(F_LOCALE); } } break;
        case CPPLOCALE: if (!P.cfg[1]) { NoSut q; rt_event(0x96, o.i[1]); std::locale::global(o.i[1] % 4 == 0 ? std::locale::classic() : weird(o.i[1])); rt_fired(F_LOCALE); } break;
        case THREADLOCALE: if (!P.cfg[1]) { NoSut q; rt_event(0x95, o.i[1]); const char *l = clocs[o.i[1] % 3]; if (o.i[1] % 4 == 3) uselocale(LC_GLOBAL_LOCALE); else if (l) { locale_t n = newlocale(LC_ALL_MASK, l, (locale_t)0); if (n) { uselocale(n); rt_fired(F_LOCALE); } } } break;
        case FENV: if (!P.cfg[1]) { NoSut q; if (o.i[1] % 2) std::feraiseexcept(FE_ALL_EXCEPT); else std::feclearexcept(FE_ALL_EXCEPT); errno = o.i[2] % 3 == 0 ? ERANGE : o.i[2] % 3 == 1 ? EDOM : 0; rt_fired(F_FENV); } break;
        }
    }
    static World *W;
    void ops(int t, int want) { for (size_t i = 0; i < P.ops.size(); i++) if (P.ops[i].t == want) step(P.ops[i], t, (int)i % NREF); }
    static void thread(int t) { W->ops(t, t); }
    void run() {
        W = this;
        if (P.prop == "C10") {
            refs = (Ref *)mmap(0, NREF * sizeof(Ref), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            for (size_t i = 0; i < P.ops.size() && i < NREF; i++) if (P.ops[i].kind == FORMAT || P.ops[i].kind == STREAM) {
                size_t j = 0; const Op &a = P.ops[i];
                while (j < i && !(P.ops[j].kind == a.kind && P.ops[j].i[1] % NX == a.i[1] % NX && (a.kind == STREAM || (P.ops[j].i[2] == a.i[2] && P.ops[j].i[3] == a.i[3] && P.ops[j].i[4] == a.i[4])))) j++;
                if (j < i) refs[i] = refs[j]; else reference(a, &refs[i]);
            }
        }
        ops(0, 0); rt_spawn(P.nthr, thread); ops(0, POST); rt_setop("end"); setlocale(LC_ALL, "C"); std::locale::global(std::locale::classic()); uselocale(LC_GLOBAL_LOCALE);
        if (P.prop == "C10") { NoSut n; for (size_t i = 0; i < P.ops.size() && i < NREF; i++) if ((P.ops[i].kind == FORMAT || P.ops[i].kind == STREAM) && refs[i].n >= 0) says(P.ops[i], refs[i]); }
    }
};
template<typename U> World<U> *World<U>::W;
template<typename U> void go(const Plan &p) { World<U> *w = new World<U>(p); w->run(); delete w; }
typedef unc::UReal<double> T0; typedef unc::UReal<SimReal> T1; typedef unc::UReal2<double, unc::Prop::est> T2; typedef unc::UReal<long double> T3; typedef unc::UReal2<float, unc::Prop::mean> T4; typedef unc::UReal<float> T5;
#if PART == 1
template void go<T1>(const Plan &); template void go<T5>(const Plan &);
#elif PART == 2
template void go<T2>(const Plan &); template void go<T4>(const Plan &);
#elif PART == 3
template void go<T3>(const Plan &);
#else
extern template void go<T1>(const Plan &); extern template void go<T2>(const Plan &); extern template void go<T3>(const Plan &); extern template void go<T4>(const Plan &); extern template void go<T5>(const Plan &);
const char *const w_name = "io";
const char *const *const w_ops = names;
Ref *refs;
const char *clocs[4] = {"C"};
// facets with which any number written through a stream is not as in the classic locale
struct WPunct: std::numpunct<char> { int k; explicit WPunct(int q): k(q) {} char do_decimal_point() const override { return k % 2 ? ',' : '_'; } char do_thousands_sep() const override { return k % 3 ? '\'' : '.'; } std::string do_grouping() const override { return "\1\2"; } std::string do_truename() const override { return "si"; } std::string do_falsename() const override { return "no"; } };
struct WPut: std::num_put<char> {
    iter_type put(iter_type i, char c) const { rt_event(0x94, 0); *i++ = c; *i++ = '#'; return i; }
    iter_type do_put(iter_type i, std::ios_base &, char, bool) const override { return put(i, 'b'); } iter_type do_put(iter_type i, std::ios_base &, char, long) const override { return put(i, 'l'); }
    iter_type do_put(iter_type i, std::ios_base &, char, unsigned long) const override { return put(i, 'u'); } iter_type do_put(iter_type i, std::ios_base &, char, long long) const override { return put(i, 'L'); }
    iter_type do_put(iter_type i, std::ios_base &, char, unsigned long long) const override { return put(i, 'U'); } iter_type do_put(iter_type i, std::ios_base &, char, double) const override { return put(i, 'd'); }
    iter_type do_put(iter_type i, std::ios_base &, char, long double) const override { return put(i, 'D'); } iter_type do_put(iter_type i, std::ios_base &, char, const void *) const override { return put(i, 'p'); }
};
std::locale weird(int k) { NoSut n; std::locale l(std::locale::classic(), new WPunct(k)); return k % 5 == 0 ? std::locale(l, new WPut) : l; }
void w_warm() {
    std::ostringstream s; s << 1.5 << " " << 3 << "x"; std::string t = s.str(); try { s.exceptions(std::ios::badbit); s.setstate(std::ios::badbit); } catch (const std::ios_base::failure &e) { t = e.what(); }
    int n = 1; for (const char *c : {"de_DE.UTF-8", "ps_AF.UTF-8"}) { if (setlocale(LC_ALL, c)) clocs[n] = c; n++; locale_t l = newlocale(LC_ALL_MASK, c, (locale_t)0); (void)l; }
    setlocale(LC_ALL, "C"); { std::locale l = weird(1), m = weird(5); std::ostringstream q; q.imbue(l); q << 1234.5; q.imbue(m); q << 1234; }
}
void w_run(const Plan &p) { if (clocs[1] && clocs[2]) rt_probe(2); switch (p.cfg[0]) { case 1: go<T1>(p); break; case 2: go<T2>(p); break; case 3: go<T3>(p); break; case 4: go<T4>(p); break; case 5: go<T5>(p); break; default: go<T0>(p); } }
bool w_norace(const Plan &) { return true; }
int w_attrib(const Plan &p, const std::string &c, Plan &n) {
    if (p.prop == "C10") { if (c == "text" || c == "readback") return 0;
        bool faults = false; for (auto &o : p.ops) faults = faults || o.fk;
        if (c == "assert" && !faults) return 0;     // in a new process the same call works
        n.cfg[1] = 1; no_schedule(n); no_faults(n); return 1; }
    static const char *const own[] = {"wrong-stream", "not-prefix", "no-exception", "not-ignored", "state-cleared", "incomplete", "wrong-state", "width", "hidden-failure", "changed"};
    for (auto k : own) if (c == k) return 0;
    n.cfg[1] = 1; return 1;       // does writing the string work?
}
void w_gen(Plan &p, Rng &r, bool thorough) {
    int q = r.below(20); p.cfg[0] = q < 8 ? 0 : q < 10 ? 1 : q < 14 ? 2 : q < 15 ? 3 : q < 17 ? 4 : 5; p.cfg[2] = r.below(10000); p.cfg[3] = r.below(4); bool c9 = p.prop == "C09";
    p.nthr = r.chance(c9 ? 35 : 65) ? r.range(2, r.chance(20) ? 4 : 3) : 0; int setup = r.range(1, 5), len = r.range(1, thorough ? 7 : 4), post = r.range(0, 3), fault = r.chance(75) ? 60 : 0;
    if (!p.nthr) setup += r.range(2, 8);
    int hot = r.below(60);
    auto add = [&](int t) {
        if (p.ops.size() >= NREF) return;
        Op o; o.t = t; int k = r.below(100);
        for (int j = 0; j < NI; j++) o.i[j] = r.below(60);
        if (c9) {
            o.kind = k < 70 ? WRITE : k < 88 ? SETUP : CLEAR; if (r.chance(50)) o.i[0] = 0;
            if (o.kind == WRITE && r.chance(fault)) { int w = r.below(10); o.fk = w < 4 ? F_SINK_FAIL : w < 7 ? F_SINK_THROW : w < 9 ? F_SINK_SHORT : F_ALLOC; o.fs = r.chance(40); o.fn = r.range(1, 24); o.fp = r.chance(60); }
        } else {
            o.kind = k < 45 ? FORMAT : k < 68 ? STREAM : k < 77 ? CLOCALE : k < 88 ? CPPLOCALE : k < 94 ? THREADLOCALE : FENV; if (r.chance(30)) o.i[1] = hot;
            if (o.kind == FORMAT && r.chance(fault / 6)) { o.fk = F_ALLOC; o.fn = r.range(1, 12); o.fs = r.chance(40); }
        }
        repeat(p, o, r, 30);
        p.ops.push_back(o);
    };
    for (int i = 0; i < setup; i++) add(0);
    for (int t = 1; t <= p.nthr; t++) for (int i = 0; i < len; i++) add(t);
    for (int i = 0; i < post; i++) add(POST);
}
#endif
