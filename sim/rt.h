// rt.h -- interface of the simulator runtime (see DESIGN.md, "Simulator").
#ifndef SIM_RT_H
#define SIM_RT_H
#include <stddef.h>
#include <stdint.h>

enum { RT_MAXT = 8 };            // simulated threads, main (0) included
enum { RT_MAXPRE = 64, RT_MAXCONF = 4096 };

enum FaultKind {                 // what is injected; counted when it really fires
    F_NONE, F_ALLOC, F_ALLOC_ALL, F_NUM, F_CALLBACK, F_SINK_FAIL, F_SINK_THROW,
    F_SINK_SHORT, F_LOCALE, F_ITER, F_INIT, F_WEAK, F_CASFAIL, F_PREEMPT, F_REENTRY, F_FASTFWD, F_FENV,
    F_KINDS
};
extern const char *const fault_names[F_KINDS];

struct RtPre { int t; uint32_t ev; int to; };      // when thread t executes its ev-th event, run thread `to` instead
struct RtWeak { int t; uint32_t ev; int depth; };  // that event, if an atomic load, may see an older store; if a weak CAS, fails

struct RtConfig {
    int npre; RtPre pre[RT_MAXPRE];
    int nweak; RtWeak weak[RT_MAXPRE];
    uint8_t garbage;             // fills new memory
    int rot;                     // who runs when the running thread ends or blocks
    uint64_t maxev;
    int norace;                  // do not report data races (interleavings are still explored around them)
};

struct RtResult {                // shared memory, written by the run, read by the driver
    int done;                    // 1 finished without violation
    int violated;
    char cls[128], msg[1600];
    uint64_t hash;               // of every event, in order
    uint64_t switchhash;         // of the sequence of context switches (the interleaving)
    uint64_t events, switches, allocs, ops, checks, atomics, syncs, racechecks;
    uint32_t tev[RT_MAXT];
    uint64_t fired[F_KINDS];
    uint64_t probes[32];
    int nconf; struct { int t; uint32_t ev; } conf[RT_MAXCONF]; // events on data shared by threads
    char curop[256];             // operation in progress (for crashes)
    uint64_t pc;
};

extern "C" {
void rt_init(void);
void rt_on_stack(void (*f)(void));                          // once per process, before any run
void rt_begin(const RtConfig *, RtResult *); // in the forked child
void rt_spawn(int nthreads, void (*fn)(int tid));   // runs threads 1..nthreads to completion under the scheduler
void rt_finish(void);                        // leak check, final hash
[[noreturn]] void rt_violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
int rt_tid(void);
int rt_enter(int on);                        // switch instrumentation of the calling thread; returns the previous state
void rt_fault_arm(int kind, int nth, int persistent);  // for the calling thread
int rt_fault_disarm(void);                   // number of times it fired since armed
int rt_fault_count(void);                    // opportunities seen since armed
int rt_fault_point(int kind);                // is the injected failure due here? (called by seams)
void rt_fired(int kind);
void rt_event(int kind, uint64_t data);      // a scheduling point of a seam, hashed
void rt_note(uint64_t data);                 // hash only
void rt_probe(int n);
void rt_setop(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void rt_lock(void *m); void rt_unlock(void *m); // simulated mutex for workloads
RtResult *rt_result(void);
void rt_count_check(void); void rt_count_op(void);
int rt_is_arena(const void *p);
}

// Library code runs inside a Sut; seams called back by it use a NoSut.
struct Sut { int old; Sut(): old(rt_enter(1)) {} ~Sut() { rt_enter(old); } };
struct NoSut { int old; NoSut(): old(rt_enter(0)) {} ~NoSut() { rt_enter(old); } };
#endif
