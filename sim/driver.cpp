// driver.cpp -- seeds, forked runs, schedules, minimisation, replay.
#include "wl.h"
#include <algorithm>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstdlib>
#include <cstdarg>
#include <ctime>
#include <signal.h>
#include <sched.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

__attribute__((weak)) bool w_norace(const Plan &) { return false; }
static RtResult *R;   // shared with the child
struct Outcome { bool bad; std::string cls, msg; uint64_t hash; };
static double now() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static std::string strf(const char *f, ...) { char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static int wall_limit = 40;
static const Plan *G;
static RtConfig *rt_config() { static RtConfig c; return &c; }
static void child() { rt_begin(rt_config(), R); w_run(*G); rt_finish(); _exit(0); }

static Outcome run(const Plan &p, bool verbose = false) {
    std::memset(R, 0, sizeof *R);
    fflush(0);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        alarm(wall_limit);
        RtConfig &c = *rt_config(); std::memset(&c, 0, sizeof c);
        c.garbage = p.garbage; c.rot = p.rot; c.norace = w_norace(p);
        for (auto &x : p.pre) if (c.npre < RT_MAXPRE) c.pre[c.npre++] = x;
        for (auto &x : p.weak) if (c.nweak < RT_MAXPRE) c.weak[c.nweak++] = x;
        sim_flavour = 0; G = &p; rt_on_stack(child);
    }
    int st; while (waitpid(pid, &st, 0) < 0) ;
    Outcome o; o.bad = false; o.hash = R->hash;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && R->done) return o;
    o.bad = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 101 && R->violated) { o.cls = R->cls; o.msg = R->msg; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "simulator error during: %s\n", R->curop); exit(3); }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "run was killed\n"); exit(3); }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.cls = "hang"; o.msg = strf("no end within %d s, during %s", wall_limit, R->curop); }
    else if (WIFSIGNALED(st)) { o.cls = strf("crash:%d", WTERMSIG(st)); o.msg = strf("killed by signal %d (%s) during %s", WTERMSIG(st), strsignal(WTERMSIG(st)), R->curop); }
    else { o.cls = "exit"; o.msg = strf("the process ended (status %x) during %s", st, R->curop); }
    return o;
}

// ---------------------------------------------------------------- replay file
static std::string save(const Plan &p, const Outcome *o) {
    std::ostringstream s;
    s << "simulation-replay 1\nworkload " << w_name << "\nproperty " << p.prop << "\ncfg";
    for (int i = 0; i < NCFG; i++) s << ' ' << p.cfg[i];
    s << "\nthreads " << p.nthr << "\ngarbage " << p.garbage << "\nrot " << p.rot << "\n";
    for (auto &x : p.ops) {
        s << "op " << x.t << ' ' << w_ops[x.kind];
        for (int k = 0; k < NI; k++) s << ' ' << x.i[k];
        for (int k = 0; k < ND; k++) s << strf(" %a", x.d[k]);
        s << ' ' << fault_names[x.fk] << ' ' << x.fn << ' ' << x.fp << ' ' << x.fs << "\n";
    }
    for (auto &x : p.pre) s << "pre " << x.t << ' ' << x.ev << ' ' << x.to << "\n";
    for (auto &x : p.weak) s << "weak " << x.t << ' ' << x.ev << ' ' << x.depth << "\n";
    if (o) { std::string m = o->msg; for (auto &c : m) if (c == '\n') c = ' '; s << "expect " << o->cls << "\nmessage " << m << strf("\nhash %016llx\n", (unsigned long long)o->hash); }
    return s.str();
}
static bool load(const char *f, Plan &p, Outcome &e) {
    std::ifstream in(f); std::string l; if (!std::getline(in, l) || l != "simulation-replay 1") return false;
    while (std::getline(in, l)) {
        std::istringstream s(l); std::string k; s >> k;
        if (k == "workload") { std::string w; s >> w; if (w != w_name) return false; }
        else if (k == "property") s >> p.prop;
        else if (k == "cfg") for (int i = 0; i < NCFG; i++) s >> p.cfg[i];
        else if (k == "threads") s >> p.nthr; else if (k == "garbage") s >> p.garbage; else if (k == "rot") s >> p.rot;
        else if (k == "op") {
            Op x; std::string n, d; s >> x.t >> n; for (x.kind = 0; w_ops[x.kind] && n != w_ops[x.kind]; x.kind++) ;
            if (!w_ops[x.kind]) return false;
            for (int i = 0; i < NI; i++) s >> x.i[i];
            for (int i = 0; i < ND; i++) { s >> d; x.d[i] = strtod(d.c_str(), 0); }
            s >> d; for (x.fk = 0; x.fk < F_KINDS && d != fault_names[x.fk]; x.fk++) ;
            s >> x.fn >> x.fp >> x.fs; p.ops.push_back(x);
        }
        else if (k == "pre") { RtPre x; s >> x.t >> x.ev >> x.to; p.pre.push_back(x); }
        else if (k == "weak") { RtWeak x; s >> x.t >> x.ev >> x.depth; p.weak.push_back(x); }
        else if (k == "expect") s >> e.cls; else if (k == "hash") { std::string h; s >> h; e.hash = strtoull(h.c_str(), 0, 16); } else if (k == "message") e.msg = l.size() > 8 ? l.substr(8) : "";
    }
    return true;
}

// Is the violation one of the property of the plan? (see w_attrib)
static bool counts(const Plan &p, const std::string &cls) {
    Plan n = p; int a = w_attrib(p, cls, n);
    if (a == 3) { Outcome o = run(n); return o.bad && o.cls == cls; }
    if (a != 1) return a == 0;
    return !run(n).bad;
}

// --------------------------------------------------------------- minimisation
static Plan minimise(Plan p, const std::string &cls, double budget, int &tries) {
    double end = now() + budget; tries = 0;
    auto still = [&](const Plan &q) { if (now() > end) return false; tries++; Outcome o = run(q); return o.bad && o.cls == cls && counts(q, cls); };
    for (bool again = true; again && now() < end; ) {
        again = false;
        { Plan q = p; q.weak.clear(); if (p.weak.size() && still(q)) p = q, again = true; }
        { Plan q = p; q.pre.clear(); if (p.pre.size() && still(q)) p = q, again = true; }
        for (size_t n = p.ops.size() / 2; n >= 1; n /= 2)
            for (size_t i = 0; i + n <= p.ops.size(); ) {
                Plan q = p; q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + n);
                if (still(q)) p = q, again = true; else i += n;
            }
        for (size_t i = 0; i < p.pre.size(); ) { Plan q = p; q.pre.erase(q.pre.begin() + i); if (still(q)) p = q, again = true; else i++; }
        for (size_t i = 0; i < p.weak.size(); ) { Plan q = p; q.weak.erase(q.weak.begin() + i); if (still(q)) p = q, again = true; else i++; }
        for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].fk) { Plan q = p; Op &o = q.ops[i]; o.fk = o.fn = o.fp = o.fs = 0; if (still(q)) p = q, again = true; }
        for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].fp) { Plan q = p; q.ops[i].fp = 0; if (still(q)) p = q, again = true; }
    }
    // fewer threads
    while (p.nthr > 0) {
        bool used = false; for (auto &o : p.ops) if (o.t == p.nthr) used = true;
        if (used) break;
        Plan q = p; q.nthr--; if (still(q)) p = q; else break;
    }
    // simpler numbers
    for (size_t i = 0; i < p.ops.size() && now() < end; i++) for (int k = 0; k < ND; k++) {
        double &v = p.ops[i].d[k]; if (v == 0 || v == 1 || v == 2) continue;
        for (double w : {1.0, 2.0, std::round(v * 4) / 4}) { if (w == v) continue; Plan q = p; q.ops[i].d[k] = w; if (still(q)) { p = q; break; } }
    }
    return p;
}

static std::string jesc(const std::string &s) {
    std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) r += strf("\\u%04x", c); else r += c; } return r;
}

// one program, by its number
static Plan make(const std::string &prop, uint64_t seed, uint64_t n, bool thorough) {
    Rng r(seed * 0x2545F4914F6CDD1Dull + n * 0x9E3779B97F4A7C15ull + 12345); r.next();
    for (char c : prop) r.s = r.s * 31 + c; r.next();
    Plan p; p.prop = prop; p.garbage = r.range(1, 254); p.rot = r.below(3);
    w_gen(p, r, thorough);
    return p;
}
static void schedule(Plan &p, Rng &r, const uint32_t *tev, const std::vector<RtPre> &conf) {
    p.pre.clear(); p.weak.clear(); p.rot = r.below(4); p.garbage = r.range(1, 254);
    int k = r.chance(70) ? r.range(1, 4) : r.range(1, 24);
    uint64_t tot = 0; for (int t = 1; t <= p.nthr; t++) tot += tev[t];
    if (!tot) return;
    for (int j = 0; j < k; j++) {
        RtPre x; x.to = r.range(1, p.nthr);
        if (conf.size() && r.chance(65)) { const RtPre &c = conf[r.below(conf.size())]; x.t = c.t; long e = (long)c.ev + r.range(-1, 2); x.ev = e < 1 ? 1 : e; }
        else { uint64_t q = r.next() % tot; int t = 1; while (q >= tev[t]) q -= tev[t++]; x.t = t; x.ev = 1 + q; }
        p.pre.push_back(x);
    }
    if (conf.size() && r.chance(25)) for (int j = r.range(1, 3); j > 0; j--) { const RtPre &c = conf[r.below(conf.size())]; RtWeak w; w.t = c.t; w.ev = c.ev; w.depth = r.range(1, 3); p.weak.push_back(w); }
    std::sort(p.pre.begin(), p.pre.end(), [](const RtPre &a, const RtPre &b) { return a.t != b.t ? a.t < b.t : a.ev < b.ev; });
}

int main(int argc, char **argv) {
    // no randomisation of addresses, where that is permitted
    { int per = personality(0xffffffff); if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) { setenv("SIM_ASLR", "1", 1); if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); } }
    rt_init();
    setvbuf(stdout, 0, _IOLBF, 0);
    std::string mode = argc > 1 ? argv[1] : "";
    R = (RtResult *)mmap(0, sizeof(RtResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (getenv("SIM_WALL")) wall_limit = atoi(getenv("SIM_WALL"));
    w_warm();
    if (mode == "replay") {
        Plan p; Outcome e; e.bad = false; e.hash = 0;
        if (!load(argv[2], p, e)) { fprintf(stderr, "cannot read replay file\n"); return 3; }
        Outcome o = run(p, argc > 3);
        if (!o.bad) { printf("no violation hash=%016llx\n", (unsigned long long)o.hash); return 0; }
        std::string m = o.msg; for (auto &c : m) if (c == '\n') c = ' ';
        auto strip = [](std::string t) { for (size_t i; (i = t.find(" @")) != std::string::npos; ) { size_t j = i + 2; while (j < t.size() && isxdigit(t[j])) j++; t.erase(i, j - i); } return t; };
        // code addresses depend on the build; a number in the message may come from memory which does not belong to the run
        auto nonum = [&](std::string t) { std::string r; t = strip(t); for (size_t i = 0; i < t.size(); ) if (isdigit(t[i]) || t.compare(i, 3, "nan") == 0 || t.compare(i, 3, "inf") == 0) { if (r.size() && r.back() == '-') r.pop_back(); r += '#'; while (i < t.size() && (isalnum(t[i]) || t[i] == '.' || ((t[i] == '-' || t[i] == '+') && t[i - 1] == 'e'))) i++; } else r += t[i++]; return r; };
        bool same = o.cls == e.cls && (strip(m) == strip(e.msg) || (e.hash && e.hash == o.hash && nonum(m) == nonum(e.msg)));
        printf("%s: %s\nhash=%016llx %s\n", o.cls.c_str(), m.c_str(), (unsigned long long)o.hash, same ? "REPRODUCED" : "DIFFERENT");
        return same ? 1 : 4;
    }
    if (mode == "hashes") {   // determinism test: hashes property seed from count
        std::string prop = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int from = atoi(argv[4]), cnt = atoi(argv[5]);
        for (int n = from; n < from + cnt; n++) {
            Plan p = make(prop, seed, n, false); Outcome o = run(p);
            printf("%d - %016llx %s\n", n, (unsigned long long)o.hash, o.cls.c_str());
            uint32_t tev[RT_MAXT]; std::memcpy(tev, R->tev, sizeof tev); std::vector<RtPre> conf;
            for (int i = 0; i < R->nconf; i++) { RtPre c; c.t = R->conf[i].t; c.ev = R->conf[i].ev; c.to = 0; conf.push_back(c); }
            Rng r(n * 77 + seed); schedule(p, r, tev, conf); o = run(p);
            printf("%d s %016llx %s\n", n, (unsigned long long)o.hash, o.cls.c_str());
        }
        return 0;
    }
    if (mode != "batch" || argc < 9) { fprintf(stderr, "usage: sim batch PROP SEED WORKER NWORKERS MAXPROGS SECONDS OUTDIR [thorough]\n       sim replay FILE [v]\n"); return 3; }
    std::string prop = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int wk = atoi(argv[4]), nw = atoi(argv[5]);
    long maxp = atol(argv[6]); double secs = atof(argv[7]); std::string out = argv[8]; bool thorough = argc > 9 && !strcmp(argv[9], "thorough");
    { cpu_set_t set; CPU_ZERO(&set); cpu_set_t have; CPU_ZERO(&have); sched_getaffinity(0, sizeof have, &have);
      int nc = CPU_COUNT(&have), want = (getenv("SIM_CPU") ? atoi(getenv("SIM_CPU")) : wk) % (nc ? nc : 1), c = -1; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &have) && want-- == 0) { c = i; break; }
      if (c >= 0) { CPU_SET(c, &set); sched_setaffinity(0, sizeof set, &set); } }
    int nsched = thorough ? 10 : 5;
    double start = now(), end = start + secs;
    uint64_t runs = 0, progs = 0, events = 0, switches = 0, allocs = 0, ops = 0, checks = 0, atomics = 0, syncs = 0, rcs = 0, fired[F_KINDS] = {0}, probes[32] = {0};
    std::set<uint64_t> inter, plans, states; std::string sample, othermsg; long lastn = -1; uint64_t otherprop = 0;
    auto absorb = [&](bool count) {
        runs++; events += R->events; switches += R->switches; allocs += R->allocs; ops += R->ops; checks += R->checks; atomics += R->atomics; syncs += R->syncs; rcs += R->racechecks;
        for (int i = 0; i < F_KINDS; i++) fired[i] += R->fired[i];
        for (int i = 0; i < 32; i++) probes[i] += R->probes[i];
        bool nontriv = R->switches; for (int i = 1; i < F_KINDS; i++) nontriv = nontriv || R->fired[i];
        if (count && nontriv && states.size() < 4000000) states.insert(R->hash);
        if (R->switches && inter.size() < 4000000) inter.insert(R->switchhash);
    };
    for (uint64_t n = wk; (long)(n / nw) < maxp && now() < end; n += nw) {
        Plan p = make(prop, seed, n, thorough); lastn = n;
        auto bad = [&](const Plan &pl, const Outcome &o) {
            Outcome o2 = run(pl);
            if (!o2.bad || o2.cls != o.cls || o2.hash != o.hash) {
                if (o.cls == "hang" && !o2.bad) { fprintf(stderr, "run slower than %d s once, not repeated: ignored\n", wall_limit); return; }
                printf("{\"error\": \"violation did not repeat: %s / %s, seed %llu program %llu\"}\n", jesc(o.cls + ": " + o.msg).c_str(), jesc(o2.cls + ": " + o2.msg).c_str(), (unsigned long long)seed, (unsigned long long)n);
                { std::ofstream f(out + strf("/unrepeatable-%s-%d.sim", prop.c_str(), wk)); f << save(pl, &o); }
                exit(3);
            }
            if (!counts(pl, o.cls)) { otherprop++; if (othermsg.empty()) othermsg = o.cls + ": " + o.msg; return; }
            int tries; Plan m = minimise(pl, o.cls, thorough ? 120 : 40, tries); Outcome fin = run(m);
            if (!fin.bad || fin.cls != o.cls) { m = pl; fin = run(m); }
            std::string file = out + strf("/%s-seed%llu-%llu.sim", prop.c_str(), (unsigned long long)seed, (unsigned long long)n);
            { std::ofstream f(file); f << save(m, &fin); }
            int nf = 0; for (auto &x : m.ops) if (x.fk) nf++;
            printf("{\"violation\": \"%s\", \"message\": \"%s\", \"replay\": \"%s\", \"seed\": %llu, \"program\": %llu, \"ops\": [%d, %d], \"preemptions\": [%d, %d], \"faults\": %d, \"shrink_runs\": %d, \"runs\": %llu}\n",
                   jesc(fin.cls).c_str(), jesc(fin.msg).c_str(), jesc(file).c_str(), (unsigned long long)seed, (unsigned long long)n, (int)pl.ops.size(), (int)m.ops.size(), (int)pl.pre.size(), (int)m.pre.size(), nf, tries, (unsigned long long)runs);
            exit(1);
        };
        Outcome o = run(p); absorb(true); progs++;
        if (sample.empty() && n >= (uint64_t)nw) sample = save(p, 0);
        if (o.bad) { bad(p, o); continue; }
        if (p.nthr < 2) continue;
        uint32_t tev[RT_MAXT]; std::memcpy(tev, R->tev, sizeof tev);
        std::vector<RtPre> conf; { std::set<std::pair<int, uint32_t>> s; for (int i = 0; i < R->nconf; i++) s.insert({R->conf[i].t, R->conf[i].ev}); for (auto &x : s) { RtPre c; c.t = x.first; c.ev = x.second; c.to = 0; conf.push_back(c); } }
        Rng r(seed * 1000003 + n * 7919 + 5);
        for (int k = 0; k < nsched && now() < end; k++) {
            Plan q = p; schedule(q, r, tev, conf);
            Outcome oo = run(q); absorb(true);
            if (oo.bad) bad(q, oo);
            for (int i = 0; i < R->nconf && conf.size() < 8000; i += 7) { RtPre c; c.t = R->conf[i].t; c.ev = R->conf[i].ev; c.to = 0; conf.push_back(c); }
        }
    }
    printf("{\"worker\": %d, \"programs\": %llu, \"runs\": %llu, \"events\": %llu, \"switches\": %llu, \"allocs\": %llu, \"ops\": %llu, \"checks\": %llu, \"atomics\": %llu, \"syncs\": %llu, \"racechecks\": %llu, \"interleavings\": %llu, \"distinct\": %llu, \"last_program\": %ld, \"wall\": %.2f, \"fired\": {",
           wk, (unsigned long long)progs, (unsigned long long)runs, (unsigned long long)events, (unsigned long long)switches, (unsigned long long)allocs, (unsigned long long)ops, (unsigned long long)checks, (unsigned long long)atomics, (unsigned long long)syncs, (unsigned long long)rcs, (unsigned long long)inter.size(), (unsigned long long)states.size(), lastn, now() - start);
    for (int i = 1; i < F_KINDS; i++) printf("%s\"%s\": %llu", i > 1 ? ", " : "", fault_names[i], (unsigned long long)fired[i]);
    printf("}, \"probes\": ["); for (int i = 0; i < 32; i++) printf("%s%llu", i ? ", " : "", (unsigned long long)probes[i]);
    printf("], \"otherprop\": %llu, \"othermsg\": \"%s\", \"sample\": \"%s\"}\n", (unsigned long long)otherprop, jesc(othermsg).c_str(), jesc(sample).c_str());
    { std::ofstream f(out + strf("/inter-%s-%d.bin", prop.c_str(), wk), std::ios::binary); for (auto x : inter) f.write((const char *)&x, 8); }
    { std::ofstream f(out + strf("/states-%s-%d.bin", prop.c_str(), wk), std::ios::binary); for (auto x : states) f.write((const char *)&x, 8); }
    return 0;
}
