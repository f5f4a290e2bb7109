// rt.cpp -- the simulator runtime.
//
// The code under test is compiled with clang -fsanitize=thread but linked with
// the functions below instead of the ThreadSanitizer runtime. So every access
// to memory which is not the stack of the accessing thread, every atomic
// operation, every static-variable guard, mutex, once flag and allocation done
// by the code under test comes here. Real threads are used, but exactly one
// runs at any time; this file decides which. It also contains a vector-clock
// race detector (C++11 happens-before), a never-reusing allocator which
// detects out of bounds and after-free accesses, and the fault points.
//
// No C++ library templates here: this file is not instrumented and must not
// share template instantiations with the code that is.
#include <ucontext.h>
#include "rt.h"
#include <new>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

const char *const fault_names[F_KINDS] = {
    "none", "alloc_fail_once", "alloc_fail_persistent", "numeric_throw", "callback_throw", "sink_fail", "sink_throw",
    "sink_short", "locale_switch", "iterator_throw", "static_init_throw", "stale_atomic_load", "weak_cas_fail",
    "preemption", "reentry", "id_fast_forward", "fp_environment_disturbed"};

extern "C" char __data_start, _end, __bss_start, edata;

// ---------------------------------------------------------------- memory map
static const u64 ARENA = 0x100000000000ull, REGION = 64ull << 20, NREG = RT_MAXT + 1;  // last region: static initialisation
static const u64 ARENA_SZ = REGION * NREG;
static const u64 ASTATE = 0x110000000000ull;      // one byte per 8 bytes of arena
static const u64 ASHADOW = 0x120000000000ull;     // Cells of the arena
static const u64 DSHADOW = 0x130000000000ull;     // Cells of the data segment
static const u64 STACKS = 0x140000000000ull, STACK_SZ = 1ull << 20;
enum { ST_FREED = 0xFD };

struct Vc { u32 c[RT_MAXT]; };
struct Cell {
    u32 wclk, wev; u8 wtid, wmask, watomic, used;
    u32 rclk[RT_MAXT], rev[RT_MAXT]; u8 rmask[RT_MAXT]; u8 ratomic[RT_MAXT];
};

static inline void vjoin(Vc &a, const Vc &b) { for (int i = 0; i < RT_MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ------------------------------------------------------------------- threads
enum { T_NONE, T_RUN, T_BLOCK, T_DONE };
struct Thread {
    int tid, state; volatile int sem; const void *blockon;
    u32 ev; int prei; u32 nextpre;
    Vc vc, acqpend, relfence; int hasrelf;
    u64 stlo, sthi;
    // faults
    int fk, fn, fpersist, fcount, ffired;
    // spin detection
    u64 spinaddr, spinval; int spins;
    // shadow call stack
    u64 cs[64]; int csn;
    char op[200];
};
static Thread th[RT_MAXT];
static __thread Thread *self __attribute__((tls_model("initial-exec")));
static __thread int t_in __attribute__((tls_model("initial-exec")));
static int g_active, g_nthr, g_cur, g_phase, g_static = 1;
static RtConfig cfg;
static RtResult dummy_res, *res = &dummy_res;
static void (*g_fn)(int);
static u64 dlo, dhi;
static u64 main_tls_lo, main_tls_hi;
static int cs_skip;

static inline void fold(u64 x) { u64 h = (res->hash ^ x) * 0x9E3779B97F4A7C15ull; res->hash = h ^ (h >> 29); }

static void post(Thread *t) { __atomic_store_n(&t->sem, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, &t->sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void await(Thread *t) {
    while (!__atomic_exchange_n(&t->sem, 0, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &t->sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}

// ------------------------------------------------------------------ allocator
struct Hdr { u64 size; u64 link; u32 magic; u8 kind, live, reg, mark; u32 seq; };  // 32 bytes, followed by 16 bytes of red zone
static u64 bump[NREG], lastblk[NREG]; static int mapped;
enum { K_NEW = 1, K_NEWA, K_MALLOC };
static u32 allocseq;

static void *must_map(u64 at, u64 size) {
    void *p = mmap((void *)at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED || (u64)p != at) { static const char m[] = "simulator: mmap failed\n"; if (write(2, m, sizeof m)) {} _exit(3); }
    return p;
}
static void map_all() {
    if (mapped) return;
    mapped = 1;
    must_map(ARENA, ARENA_SZ); must_map(ASTATE, ARENA_SZ / 8);
    must_map(ASHADOW, ARENA_SZ / 8 * sizeof(Cell));
    dlo = (u64)&__data_start & ~7ull; dhi = ((u64)&_end + 7) & ~7ull;
    must_map(DSHADOW, (dhi - dlo) / 8 * sizeof(Cell));
    must_map(STACKS, STACK_SZ * RT_MAXT);
    for (u64 i = 0; i < NREG; i++) bump[i] = ARENA + i * REGION + 64;
}
static inline int in_arena(u64 a) { return a - ARENA < ARENA_SZ; }
static inline u8 *st8(u64 a) { return (u8 *)(ASTATE + (a - ARENA) / 8); }
static inline Cell *cell(u64 a) {
    if (in_arena(a)) return (Cell *)(ASHADOW + (a - ARENA) / 8 * sizeof(Cell));
    if (a - dlo < dhi - dlo) return (Cell *)(DSHADOW + (a - dlo) / 8 * sizeof(Cell));
    return 0;
}

static void *arena_alloc(u64 n, u64 align, int kind) {
    map_all();
    int r = g_static ? RT_MAXT : self ? self->tid : 0;
    if (align < 16) align = 16;
    u64 a = bump[r] + sizeof(Hdr) + 16; a = (a + align - 1) & ~(align - 1);
    if (a + n + 64 > ARENA + (r + 1) * REGION) rt_violation("arena-exhausted", "more than %llu bytes allocated", (unsigned long long)REGION);
    Hdr *h = (Hdr *)(a - 16 - sizeof(Hdr));
    h->size = n; h->magic = 0xA110CA7E; h->kind = kind; h->live = 1; h->reg = r; h->mark = 0; h->seq = ++allocseq;
    h->link = lastblk[r]; lastblk[r] = (u64)h;
    bump[r] = (a + n + 15) & ~15ull;
    if (!g_static) memset((void *)a, cfg.garbage, n);
    u8 *s = st8(a); u64 i = 0;
    for (; i + 8 <= n; i += 8) *s++ = 8;
    if (i < n) *s = n - i;
    return (void *)a;
}
static void access(u64 a, u64 n, int write, int atomic, u64 pc);
static void arena_free(void *p, int kind) {
    u64 a = (u64)p; Hdr *h = (Hdr *)(a - 16 - sizeof(Hdr));
    if ((a & 15) || h->magic != 0xA110CA7E) rt_violation("bad-free", "free of %p, which is not the start of an allocated block", p);
    if (!h->live) rt_violation("double-free", "block of %llu bytes freed twice", (unsigned long long)h->size);
    if (h->kind != kind) rt_violation("free-mismatch", "block of %llu bytes allocated with kind %d, freed with kind %d", (unsigned long long)h->size, h->kind, kind);
    if (g_active && h->size) { int o = t_in; t_in = 1; access(a, h->size, 1, 0, (u64)__builtin_return_address(0)); t_in = o; }
    h->live = 0;
    memset(st8(a), ST_FREED, (h->size + 7) / 8);
    if (!g_static && g_active) memset(p, 0xDD, h->size);
}
extern "C" int rt_is_arena(const void *p) { return in_arena((u64)p); }

extern "C" int rt_fault_point(int kind) {
    Thread *t = self;
    if (!t || t->fk == F_NONE) return 0;
    int k = t->fk == F_ALLOC_ALL ? F_ALLOC : t->fk;
    if (k != kind) return 0;
    int c = ++t->fcount;
    if (c == t->fn || (t->fpersist && c > t->fn)) {
        t->ffired++; res->fired[t->fk == F_ALLOC && t->fpersist ? F_ALLOC_ALL : t->fk]++;
        fold(0xFA000000ull + kind); return 1;
    }
    return 0;
}
extern "C" void rt_fault_arm(int kind, int nth, int persistent) { Thread *t = self; t->fk = kind; t->fn = nth; t->fpersist = persistent; t->fcount = t->ffired = 0; }
extern "C" int rt_fault_disarm(void) { Thread *t = self; t->fk = F_NONE; return t->ffired; }
extern "C" int rt_fault_count(void) { return self->fcount; }
extern "C" void rt_fired(int kind) { res->fired[kind]++; }

static void sched_event(u64 tag);
static void *sut_alloc(u64 n, u64 al, int kind) {   // null if the injected failure is due
    res->allocs++;
    sched_event(0xA1ull << 48 | n);
    if (rt_fault_point(F_ALLOC)) return 0;
    return arena_alloc(n, al, kind);
}
extern "C" void *__real_malloc(size_t); extern "C" void __real_free(void *);
extern "C" void *__real_realloc(void *, size_t); extern "C" void *__real_calloc(size_t, size_t);
extern "C" int __real_posix_memalign(void **, size_t, size_t); extern "C" void *__real_aligned_alloc(size_t, size_t);

static inline int sut_mem() { return (g_active && t_in) || g_static; }
extern "C" void *__wrap_malloc(size_t n) {
    if (g_static) return arena_alloc(n, 16, K_MALLOC);
    if (!sut_mem()) return __real_malloc(n);
    void *p = sut_alloc(n, 16, K_MALLOC); if (!p) errno = ENOMEM; return p;
}
extern "C" void __wrap_free(void *p) { if (p && in_arena((u64)p)) arena_free(p, K_MALLOC); else __real_free(p); }
extern "C" void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" void *__wrap_realloc(void *p, size_t n) {
    if (p && !in_arena((u64)p)) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    void *q = __wrap_malloc(n); if (!q) return 0;
    Hdr *h = (Hdr *)((u64)p - 16 - sizeof(Hdr)); memcpy(q, p, h->size < n ? h->size : n); arena_free(p, K_MALLOC); return q;
}
extern "C" int __wrap_posix_memalign(void **r, size_t al, size_t n) {
    if (!sut_mem()) return __real_posix_memalign(r, al, n);
    void *p = g_static ? arena_alloc(n, al, K_MALLOC) : sut_alloc(n, al, K_MALLOC); if (!p) return ENOMEM; *r = p; return 0;
}
extern "C" void *__wrap_aligned_alloc(size_t al, size_t n) {
    if (!sut_mem()) return __real_aligned_alloc(al, n);
    return g_static ? arena_alloc(n, al, K_MALLOC) : sut_alloc(n, al, K_MALLOC);
}
static void *new_impl(size_t n, size_t al, int kind) {
    if (g_static) return arena_alloc(n, al, kind);
    if (sut_mem()) return sut_alloc(n, al, kind);
    if (al > 16) { void *p = 0; return __real_posix_memalign(&p, al, n ? n : 1) ? 0 : p; }
    return __real_malloc(n ? n : 1);
}
static void del_impl(void *p, int kind) { if (!p) return; if (in_arena((u64)p)) arena_free(p, kind); else __real_free(p); }
void *operator new(size_t n) { void *p = new_impl(n, 16, K_NEW); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = new_impl(n, 16, K_NEWA); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return new_impl(n, 16, K_NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return new_impl(n, 16, K_NEWA); }
void *operator new(size_t n, std::align_val_t a) { void *p = new_impl(n, (size_t)a, K_NEW); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { void *p = new_impl(n, (size_t)a, K_NEWA); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { del_impl(p, K_NEW); }
void operator delete[](void *p) noexcept { del_impl(p, K_NEWA); }
void operator delete(void *p, size_t) noexcept { del_impl(p, K_NEW); }
void operator delete[](void *p, size_t) noexcept { del_impl(p, K_NEWA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del_impl(p, K_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del_impl(p, K_NEWA); }
void operator delete(void *p, std::align_val_t) noexcept { del_impl(p, K_NEW); }
void operator delete[](void *p, std::align_val_t) noexcept { del_impl(p, K_NEWA); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { del_impl(p, K_NEW); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { del_impl(p, K_NEWA); }

// ------------------------------------------------------------------ violation
static int put_stack(char *b, int n, Thread *t) {
    int o = 0;
    for (int i = t->csn - 1, k = 0; i >= 0 && k < 6; i--, k++) if (i < 64) o += snprintf(b + o, n - o, " @%llx", (unsigned long long)t->cs[i]);
    return o;
}
extern "C" void rt_violation(const char *cls, const char *fmt, ...) {
    t_in = 0;
    RtResult *r = res;
    if (!r->violated) {
        r->violated = 1;
        snprintf(r->cls, sizeof r->cls, "%s", cls);
        va_list ap; va_start(ap, fmt);
        int n = vsnprintf(r->msg, sizeof r->msg, fmt, ap); va_end(ap);
        if (n > (int)sizeof r->msg - 400) n = sizeof r->msg - 400;
        Thread *t = self;
        if (t) {
            n += snprintf(r->msg + n, sizeof r->msg - n, " [thread %d, during: %s]", t->tid, t->op);
            put_stack(r->msg + n, sizeof r->msg - n, t);
        }
    }
    if (!g_active) { fprintf(stderr, "simulator: %s: %s\n", cls, r->msg); _exit(3); }
    _exit(101);
}
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    const char *b = strrchr(f, '/');
    (void)fn; (void)l;
    rt_violation("assert", "assertion failed in %s: %s", b ? b + 1 : f, e);
}
static void on_terminate() {
    t_in = 0;
    const char *what = "no exception"; char buf[200];
    if (std::type_info *ti = abi::__cxa_current_exception_type()) { int s; char *d = abi::__cxa_demangle(ti->name(), 0, 0, &s); snprintf(buf, sizeof buf, "%s", d ? d : ti->name()); what = buf; }
    rt_violation("terminate", "std::terminate called (%s)", what);
}

// ------------------------------------------------------------------ scheduler
static int next_runnable(int from) {
    for (int i = 0; i < g_nthr; i++) { int k = 1 + (from + i) % g_nthr; if (th[k].state == T_RUN) return k; }
    return -1;
}
static void do_switch(int to) {
    Thread *me = self; Thread *n = &th[to];
    if (n == me) return;
    res->switches++;
    u64 h = (res->switchhash ^ ((u64)me->tid << 40 | (u64)to << 32 | me->ev)) * 0x9E3779B97F4A7C15ull; res->switchhash = h ^ (h >> 31);
    fold(0x5700000000ull | (u64)to);
    g_cur = to; post(n); await(me);
}
static void block_here(const void *on) {
    Thread *me = self;
    me->state = T_BLOCK; me->blockon = on;
    int k = g_phase == 1 ? next_runnable(me->tid + cfg.rot) : -1;
    if (k < 0) rt_violation("deadlock", "no thread can run");
    do_switch(k);
}
static void wake_all(const void *on) { for (int i = 0; i < RT_MAXT; i++) if (th[i].state == T_BLOCK && th[i].blockon == on) { th[i].state = T_RUN; th[i].blockon = 0; } }

static void sched_event(u64 tag) {
    Thread *t = self;
    u32 ev = ++t->ev;
    fold((u64)t->tid << 56 ^ tag);
    if (++res->events > cfg.maxev) rt_violation("no-progress", "run did not end within %llu events", (unsigned long long)cfg.maxev);
    if (ev == t->nextpre) {
        int to = cfg.pre[t->prei].to;
        int i = t->prei + 1; while (i < cfg.npre && !(cfg.pre[i].t == t->tid && cfg.pre[i].ev > ev)) i++;
        t->prei = i; t->nextpre = i < cfg.npre ? cfg.pre[i].ev : 0;
        if (g_phase == 1) {
            if (to < 1 || to > g_nthr || th[to].state != T_RUN) to = next_runnable(t->tid);
            if (to > 0 && to != t->tid) { res->fired[F_PREEMPT]++; do_switch(to); }
        }
    }
}
static void yield_other() {
    if (g_phase != 1 || !self) return;
    int k = next_runnable(self->tid); if (k > 0 && k != self->tid) do_switch(k);
}
static void conf(int t, u32 ev) { if (res->nconf < RT_MAXCONF && t > 0) { auto &c = res->conf[res->nconf++]; c.t = t; c.ev = ev; } }

static const char *acc(int w, int at) { return w ? (at ? "atomic write" : "write") : (at ? "atomic read" : "read"); }

static void where(u64 a, char *b, int n) {
    if (in_arena(a)) snprintf(b, n, "heap");
    else snprintf(b, n, "static data @%llx", (unsigned long long)a);
}
static void access(u64 a, u64 n, int write, int atomic, u64 pc) {
    Thread *t = self;
    if (!t || !n) return;
    if (a - t->stlo < t->sthi - t->stlo) return;
    int ar = in_arena(a);
    if (!ar && !(a - dlo < dhi - dlo)) return;
    (void)pc;
    sched_event((u64)(1 + write + 2 * atomic) << 50 | (a & 0xFFFFFFFFFFFFull));
    u32 myclk = t->vc.c[t->tid];
    for (u64 g = a & ~7ull; g < a + n; g += 8) {
        unsigned lo = g < a ? a - g : 0, hi = a + n - g < 8 ? a + n - g : 8;
        if (ar) {
            u8 s = *st8(g);
            if (s == ST_FREED) rt_violation("use-after-free", "%s of freed memory", acc(write, atomic));
            if (hi > s) rt_violation("out-of-bounds", "%s outside of any allocated block", acc(write, atomic));
        }
        u8 mask = (u8)((0xFF >> (8 - hi)) & (0xFF << lo));
        Cell *c = cell(g);
        if (g_phase) res->racechecks++;
        if (c->used) {
            if (c->wmask & mask && c->wtid != t->tid) {
                if (c->wtid) conf(c->wtid, c->wev), conf(t->tid, t->ev);
                if (!cfg.norace && c->wclk > t->vc.c[c->wtid] && !(atomic && c->watomic)) {
                    char w[64]; where(g, w, sizeof w);
                    rt_violation("race", "data race on %s: %s by thread %d not ordered with earlier %s by thread %d", w, acc(write, atomic), t->tid, acc(1, c->watomic), c->wtid);
                }
            }
            if (write) for (int r = 0; r < RT_MAXT; r++) if (r != t->tid && c->rmask[r] & mask) {
                if (r) conf(r, c->rev[r]), conf(t->tid, t->ev);
                if (!cfg.norace && c->rclk[r] > t->vc.c[r] && !(atomic && c->ratomic[r])) {
                    char w[64]; where(g, w, sizeof w);
                    rt_violation("race", "data race on %s: %s by thread %d not ordered with earlier %s by thread %d", w, acc(1, atomic), t->tid, acc(0, c->ratomic[r]), r);
                }
            }
        }
        c->used = 1;
        if (write) { c->wclk = myclk; c->wev = t->ev; c->wtid = t->tid; c->wmask = mask; c->watomic = atomic; }
        else {
            if (c->rclk[t->tid] == myclk && c->ratomic[t->tid] == atomic) c->rmask[t->tid] |= mask;
            else { c->rmask[t->tid] = mask; c->ratomic[t->tid] = atomic; }
            c->rclk[t->tid] = myclk; c->rev[t->tid] = t->ev;
        }
    }
}
#define ON (t_in && g_active)
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { Thread *t = self; if (ON && t) { if (t->csn < 64) t->cs[t->csn] = (u64)pc; t->csn++; } }
void __tsan_func_exit() { Thread *t = self; if (ON && t && t->csn > 0) t->csn--; }
#define RW(n) \
void __tsan_read##n(void *a) { if (ON) access((u64)a, n, 0, 0, PC); } \
void __tsan_write##n(void *a) { if (ON) access((u64)a, n, 1, 0, PC); } \
void __tsan_unaligned_read##n(void *a) { if (ON) access((u64)a, n, 0, 0, PC); } \
void __tsan_unaligned_write##n(void *a) { if (ON) access((u64)a, n, 1, 0, PC); } \
void __tsan_volatile_read##n(void *a) { if (ON) access((u64)a, n, 0, 0, PC); } \
void __tsan_volatile_write##n(void *a) { if (ON) access((u64)a, n, 1, 0, PC); } \
void __tsan_unaligned_volatile_read##n(void *a) { if (ON) access((u64)a, n, 0, 0, PC); } \
void __tsan_unaligned_volatile_write##n(void *a) { if (ON) access((u64)a, n, 1, 0, PC); } \
void __tsan_read_write##n(void *a) { if (ON) { access((u64)a, n, 0, 0, PC); access((u64)a, n, 1, 0, PC); } } \
void __tsan_unaligned_read_write##n(void *a) { if (ON) { access((u64)a, n, 0, 0, PC); access((u64)a, n, 1, 0, PC); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (ON) access((u64)a, n, 0, 0, PC); }
void __tsan_write_range(void *a, size_t n) { if (ON) access((u64)a, n, 1, 0, PC); }
void __tsan_vptr_update(void **a, void *v) { if (ON && *a != v) access((u64)a, 8, 1, 0, PC); }
void __tsan_vptr_read(void **a) { if (ON) access((u64)a, 8, 0, 0, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (ON) { access((u64)s, n, 0, 0, PC); access((u64)d, n, 1, 0, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (ON) { access((u64)s, n, 0, 0, PC); access((u64)d, n, 1, 0, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { if (ON) access((u64)d, n, 1, 0, PC); return memset(d, v, n); }
size_t __real_strlen(const char *);
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (ON) access((u64)s, n + 1, 0, 0, PC); return n; }
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (ON) { access((u64)a, n, 0, 0, PC); access((u64)b, n, 0, 0, PC); } return __real_memcmp(a, b, n); }
}

// ------------------------------------------------- synchronisation objects
enum { HIST = 4 };
struct Sync {
    const void *addr; Vc vc; int owner, count, kind; u32 readers;
    u64 seq; struct { u64 val, seq; int tid; u32 clk; Vc rel; } h[HIST]; u64 seen[RT_MAXT];
};
enum { NSYNC = 4096 };
static Sync *syncs; static int nsyncs;
static Sync *sync_of(const void *a) {
    if (!syncs) { syncs = (Sync *)mmap(0, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    u64 i = ((u64)a >> 2) * 0x9E3779B97F4A7C15ull >> 52;
    for (;; i = (i + 1) % NSYNC) {
        if (syncs[i].addr == a) return &syncs[i];
        if (!syncs[i].addr) { if (++nsyncs > NSYNC - 16) rt_violation("sync-exhausted", "too many synchronisation objects"); syncs[i].addr = a; syncs[i].owner = -1; return &syncs[i]; }
    }
}
static void acquire(Sync *s) { vjoin(self->vc, s->vc); }
static void release(Sync *s) { vjoin(s->vc, self->vc); self->vc.c[self->tid]++; }

// ------------------------------------------------------------------ atomics
enum { MO_RLX, MO_CONS, MO_ACQ, MO_REL, MO_AR, MO_SC };
static inline int is_acq(int m) { return m == MO_CONS || m == MO_ACQ || m == MO_AR || m == MO_SC; }
static inline int is_rel(int m) { return m == MO_REL || m == MO_AR || m == MO_SC; }
static int weak_at(u32 ev) {
    for (int i = 0; i < cfg.nweak; i++) if (cfg.weak[i].t == self->tid && cfg.weak[i].ev == ev) return cfg.weak[i].depth;
    return 0;
}
static void at_sync(Sync *s, u64 cur) {   // bring the history up to date with plain initialisation
    if (!s->seq || s->h[s->seq % HIST].val != cur) {
        memset(s->h, 0, sizeof s->h); s->seq += HIST;
        s->h[s->seq % HIST].val = cur; s->h[s->seq % HIST].seq = s->seq; s->h[s->seq % HIST].tid = self->tid; s->h[s->seq % HIST].clk = self->vc.c[self->tid];
        memset(&s->vc, 0, sizeof s->vc);
        for (int i = 0; i < RT_MAXT; i++) s->seen[i] = s->seq;
    }
}
static void at_pre(u64 a, int size, int write) { res->atomics++; access(a, size, write, 1, 0); if (g_phase == 1) conf(self->tid, self->ev); }
static u64 at_load(u64 a, int size, u64 cur, int mo) {
    Thread *t = self; Sync *s = sync_of((void *)a); at_sync(s, cur); (void)size;
    u64 q = s->seq;
    if (mo != MO_SC && cfg.nweak) if (int d = weak_at(t->ev)) {
        for (; d > 0 && q > 1; d--) {
            u64 p = q - 1;
            if (s->h[p % HIST].seq != p || p < s->seen[t->tid]) break;
            if (s->h[q % HIST].clk <= t->vc.c[s->h[q % HIST].tid]) break;   // the newer store happens before this load
            q = p;
        }
        if (q != s->seq) res->fired[F_WEAK]++;
    }
    s->seen[t->tid] = q;
    if (is_acq(mo)) vjoin(t->vc, s->h[q % HIST].rel); else vjoin(t->acqpend, s->h[q % HIST].rel);
    u64 v = s->h[q % HIST].val;
    fold(0xA70000000000ull ^ v);
    if (t->spinaddr == a && t->spinval == v) { if (++t->spins > 60) { t->spins = 0; yield_other(); } }
    else { t->spinaddr = a; t->spinval = v; t->spins = 0; }
    return v;
}
static void at_store(u64 a, u64 prev, u64 val, int mo, int rmw) {
    Thread *t = self; Sync *s = sync_of((void *)a); at_sync(s, prev);
    Vc rel; memset(&rel, 0, sizeof rel);
    if (rmw) rel = s->h[s->seq % HIST].rel;                            // release sequence
    if (is_rel(mo)) vjoin(rel, t->vc); else if (t->hasrelf) vjoin(rel, t->relfence);
    u64 q = ++s->seq; auto &h = s->h[q % HIST];
    h.val = val; h.seq = q; h.tid = t->tid; h.clk = t->vc.c[t->tid]; h.rel = rel;
    s->seen[t->tid] = q;
    t->vc.c[t->tid]++;
    fold(0xA80000000000ull ^ val);
    if (val != prev) t->spins = 0;
}
static void at_rmw(u64 a, u64 prev, u64 val, int mo) {
    Thread *t = self; Sync *s = sync_of((void *)a); at_sync(s, prev);
    if (is_acq(mo)) vjoin(t->vc, s->h[s->seq % HIST].rel); else vjoin(t->acqpend, s->h[s->seq % HIST].rel);
    at_store(a, prev, val, mo, 1);
}
extern "C" {
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int mo) { if (!ON || !self) return __atomic_load_n(a, __ATOMIC_SEQ_CST); at_pre((u64)a, B / 8, 0); return (T)at_load((u64)a, B / 8, (u64)*a, mo); } \
void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { if (!ON || !self) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } at_pre((u64)a, B / 8, 1); T o = *a; at_store((u64)a, (u64)o, (u64)v, mo, 0); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { if (!ON || !self) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_pre((u64)a, B / 8, 1); T o = *a; at_rmw((u64)a, (u64)o, (u64)v, mo); *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { if (!ON || !self) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); at_pre((u64)a, B / 8, 1); T o = *a, n = o + v; at_rmw((u64)a, (u64)o, (u64)n, mo); *a = n; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { if (!ON || !self) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); at_pre((u64)a, B / 8, 1); T o = *a, n = o - v; at_rmw((u64)a, (u64)o, (u64)n, mo); *a = n; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { if (!ON || !self) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); at_pre((u64)a, B / 8, 1); T o = *a, n = o & v; at_rmw((u64)a, (u64)o, (u64)n, mo); *a = n; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { if (!ON || !self) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); at_pre((u64)a, B / 8, 1); T o = *a, n = o | v; at_rmw((u64)a, (u64)o, (u64)n, mo); *a = n; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { if (!ON || !self) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); at_pre((u64)a, B / 8, 1); T o = *a, n = o ^ v; at_rmw((u64)a, (u64)o, (u64)n, mo); *a = n; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { if (!ON || !self) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); at_pre((u64)a, B / 8, 1); T o = *a, n = ~(o & v); at_rmw((u64)a, (u64)o, (u64)n, mo); *a = n; return o; } \
static int cas##B(volatile T *a, T *c, T v, int mo, int fmo, int weak) { \
    if (!ON || !self) return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    at_pre((u64)a, B / 8, 1); T o = *a; int same = o == *c; \
    if (same && weak && cfg.nweak && weak_at(self->ev)) { res->fired[F_CASFAIL]++; same = 0; } \
    if (same) { at_rmw((u64)a, (u64)o, (u64)v, mo); *a = v; return 1; } \
    u64 r; { int nw = cfg.nweak; cfg.nweak = 0; r = at_load((u64)a, B / 8, (u64)o, fmo); cfg.nweak = nw; } *c = (T)r; return 0; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { return cas##B(a, c, v, mo, fmo, 0); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return cas##B(a, c, v, mo, fmo, 1); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { cas##B(a, &c, v, mo, fmo, 0); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (!ON || !self) { __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
    sched_event(0xFEull << 48);
    if (is_acq(mo)) vjoin(self->vc, self->acqpend);
    if (is_rel(mo)) { self->relfence = self->vc; self->hasrelf = 1; self->vc.c[self->tid]++; }
}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------ mutexes, guards, once, cond
static inline u64 maddr(const void *m) { u64 a = (u64)m; return in_arena(a) || a - dlo < dhi - dlo ? a & 0xFFFFFFFFFFFFull : 1; }
static void mtx_lock(void *m, int recursive) {
    Sync *s = sync_of(m); res->syncs++;
    sched_event(0xE1ull << 48 | maddr(m)); if (g_phase == 1) conf(self->tid, self->ev);
    if (recursive && s->owner == self->tid) { s->count++; return; }
    while (s->owner != -1) block_here(s);
    s->owner = self->tid; s->count = 1; acquire(s);
}
static int mtx_try(void *m, int recursive) {
    Sync *s = sync_of(m); res->syncs++;
    sched_event(0xE2ull << 48 | maddr(m)); if (g_phase == 1) conf(self->tid, self->ev);
    if (recursive && s->owner == self->tid) { s->count++; return 1; }
    if (s->owner != -1) { if (++self->spins > 60) { self->spins = 0; yield_other(); } return 0; }
    s->owner = self->tid; s->count = 1; acquire(s); return 1;
}
static void mtx_unlock(void *m) {
    Sync *s = sync_of(m);
    if (s->owner != self->tid) rt_violation("bad-unlock", "mutex unlocked by a thread which does not hold it");
    if (--s->count) return;
    release(s); s->owner = -1; wake_all(s);
    sched_event(0xE3ull << 48 | maddr(m)); if (g_phase == 1) conf(self->tid, self->ev);
}
extern "C" void rt_lock(void *m) { mtx_lock(m, 0); }
extern "C" void rt_unlock(void *m) { mtx_unlock(m); }

template<typename F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static inline int simth() { return g_active && self; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (simth()) { mtx_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; } static auto f = (int (*)(pthread_mutex_t *))0; if (!f) f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (simth()) return mtx_try(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) ? 0 : EBUSY; return real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (simth()) { mtx_unlock(m); return 0; } static auto f = (int (*)(pthread_mutex_t *))0; if (!f) f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return f(m); }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!simth()) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock")(m);
    Sync *s = sync_of(m); res->syncs++; sched_event(0xE4ull << 48); while (s->owner != -1) block_here(s); s->readers++; acquire(s); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!simth()) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock")(m);
    Sync *s = sync_of(m); res->syncs++; sched_event(0xE5ull << 48); while (s->owner != -1 || s->readers) block_here(s); s->owner = self->tid; acquire(s); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!simth()) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock")(m);
    Sync *s = sync_of(m); release(s); if (s->owner == self->tid) s->owner = -1; else if (s->readers) s->readers--; wake_all(s); sched_event(0xE6ull << 48); return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!simth()) return real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait")(c, m);
    Sync *s = sync_of(m); release(s); s->owner = -1; s->count = 0; wake_all(s); block_here(sync_of(c)); mtx_lock(m, 0); return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { if (!simth()) return real<int (*)(pthread_cond_t *)>("pthread_cond_signal")(c); wake_all(sync_of(c)); sched_event(0xE7ull << 48); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!simth()) return real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast")(c); wake_all(sync_of(c)); sched_event(0xE7ull << 48); return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!simth()) return real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once")(o, fn);
    Sync *s = sync_of(o); res->syncs++; sched_event(0xE8ull << 48); if (g_phase == 1) conf(self->tid, self->ev);
    for (;;) {
        if (*(volatile int *)o == 2) { acquire(s); return 0; }
        if (s->owner == self->tid) rt_violation("deadlock", "recursive once initialisation");
        if (s->owner == -1) break;
        block_here(s);
    }
    s->owner = self->tid;
    try { fn(); } catch (...) { s->owner = -1; wake_all(s); throw; }
    release(s); *(volatile int *)o = 2; s->owner = -1; wake_all(s); sched_event(0xE9ull << 48); return 0;
}
int sched_yield(void) { if (simth()) { sched_event(0xEAull << 48); yield_other(); return 0; } return syscall(SYS_sched_yield); }
static u64 simclock;
int usleep(unsigned us) { if (simth()) { simclock += us * 1000ull; sched_event(0xEBull << 48); yield_other(); return 0; } struct timespec ts = {us / 1000000, (us % 1000000) * 1000}; return syscall(SYS_nanosleep, &ts, 0); }
int nanosleep(const struct timespec *ts, struct timespec *rem) { if (simth()) { simclock += ts->tv_sec * 1000000000ull + ts->tv_nsec; sched_event(0xEBull << 48); yield_other(); return 0; } return syscall(SYS_nanosleep, ts, rem); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) { if (simth()) { sched_event(0xEBull << 48); yield_other(); return 0; } return syscall(SYS_clock_nanosleep, c, fl, ts, rem); }
int clock_gettime(clockid_t c, struct timespec *ts) { if (simth() && t_in) { simclock += 1000; ts->tv_sec = 1600000000 + simclock / 1000000000; ts->tv_nsec = simclock % 1000000000; return 0; } return syscall(SYS_clock_gettime, c, ts); }
time_t time(time_t *r) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (r) *r = ts.tv_sec; return ts.tv_sec; }

int __cxa_guard_acquire(__cxxabiv1::__guard *g) {
    u8 *b = (u8 *)g;
    if (!simth()) { if (b[0]) return 0; b[1] = 1; return 1; }
    if (b[0]) { acquire(sync_of(g)); return 0; }
    Sync *s = sync_of(g); res->syncs++; sched_event(0xECull << 48 | maddr(g)); if (g_phase == 1) conf(self->tid, self->ev);
    for (;;) {
        if (b[0]) { acquire(s); return 0; }
        if (s->owner == self->tid) rt_violation("deadlock", "recursive initialisation of a static variable");
        if (s->owner == -1) break;
        rt_probe(0); block_here(s);
    }
    s->owner = self->tid; b[1] = 1; return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard *g) noexcept {
    u8 *b = (u8 *)g; b[1] = 0;
    if (!simth()) { b[0] = 1; return; }
    Sync *s = sync_of(g);
    // the inline fast path reads the guard with an acquire load: give it the clock
    { u8 prev = b[0]; at_store((u64)b, prev, 1, MO_REL, 0); }
    b[0] = 1; vjoin(s->vc, self->vc); self->vc.c[self->tid]++; s->owner = -1; wake_all(s);
    sched_event(0xEDull << 48); if (g_phase == 1) conf(self->tid, self->ev);
}
void __cxa_guard_abort(__cxxabiv1::__guard *g) noexcept {
    u8 *b = (u8 *)g; b[1] = 0; if (!simth()) return;
    Sync *s = sync_of(g); s->owner = -1; wake_all(s); sched_event(0xEEull << 48); if (g_phase == 1) conf(self->tid, self->ev);
}
}

// ------------------------------------------------------------------- interface
extern "C" int rt_tid(void) { return self ? self->tid : 0; }
extern "C" int rt_enter(int on) { int o = t_in; t_in = on; return o; }
extern "C" void rt_event(int kind, u64 data) { if (simth()) { sched_event((u64)kind << 40 ^ data); if (g_phase == 1) conf(self->tid, self->ev); } }
extern "C" void rt_note(u64 d) { fold(d); }
extern "C" void rt_probe(int n) { res->probes[n]++; }
extern "C" RtResult *rt_result(void) { return res; }
extern "C" void rt_count_check(void) { res->checks++; }
extern "C" void rt_count_op(void) { res->ops++; }
extern "C" void rt_setop(const char *fmt, ...) {
    Thread *t = self; va_list ap; va_start(ap, fmt); vsnprintf(t->op, sizeof t->op, fmt, ap); va_end(ap);
    snprintf(res->curop, sizeof res->curop, "thread %d: %s", t->tid, t->op); t->csn = 0;
}
// The main thread of a run is on a stack at a fixed address too, so that what is read from
// stale stack memory is the same in every execution.
extern "C" void rt_on_stack(void (*f)(void)) {
    static ucontext_t a, b; getcontext(&b); b.uc_stack.ss_sp = (void *)STACKS; b.uc_stack.ss_size = STACK_SZ; b.uc_link = 0;
    makecontext(&b, f, 0); swapcontext(&a, &b);
}
extern "C" void rt_init(void) { map_all(); g_static = 0; std::set_terminate(on_terminate); }

static void setpre(Thread *t) { int i = 0; while (i < cfg.npre && cfg.pre[i].t != t->tid) i++; t->prei = i; t->nextpre = i < cfg.npre ? cfg.pre[i].ev : 0; }
extern "C" void rt_begin(const RtConfig *c, RtResult *r) {
    cfg = *c; res = r; if (!cfg.maxev) cfg.maxev = 20000000;
    memset(th, 0, sizeof th);
    for (int i = 0; i < RT_MAXT; i++) { th[i].tid = i; th[i].vc.c[i] = 1; }
    self = &th[0]; self->state = T_RUN; g_nthr = 0; g_phase = 0; g_cur = 0;
    self->stlo = STACKS; self->sthi = STACKS + STACK_SZ;
    setpre(self);
    g_active = 1;
}
static void *thread_main(void *p) {
    Thread *t = (Thread *)p; self = t; t_in = 0;
    await(t);
    g_fn(t->tid);
    t->fk = F_NONE; t_in = 1;   // for the thread_local destructors of the code under test, which run now
    snprintf(t->op, sizeof t->op, "thread exit");
    return 0;
}
// The turn is passed on by a thread-specific destructor, which runs after the C++ thread_local destructors.
static pthread_key_t exitkey;
static void thread_exit(void *p) {
    Thread *t = (Thread *)p;
    t_in = 0; t->state = T_DONE; wake_all(t);
    vjoin(th[0].acqpend, t->vc);
    int k = next_runnable(t->tid + cfg.rot);
    if (k < 0) { for (int i = 1; i <= g_nthr; i++) if (th[i].state == T_BLOCK) { self = t; rt_violation("deadlock", "the remaining threads are all blocked"); } k = 0; }
    u64 h = (res->switchhash ^ ((u64)t->tid << 40 | (u64)k << 32 | t->ev)) * 0x9E3779B97F4A7C15ull; res->switchhash = h ^ (h >> 31);
    fold(0x5E00000000ull | (u64)k);
    self = 0; g_cur = k; post(&th[k]);
}
static void *thread_tramp(void *p) { pthread_setspecific(exitkey, p); return thread_main(p); }
extern "C" void rt_spawn(int n, void (*fn)(int)) {
    int oin = t_in; t_in = 0;
    if (n > RT_MAXT - 1) n = RT_MAXT - 1;
    if (n < 1) { t_in = oin; return; }
    { static bool have; if (!have) pthread_key_create(&exitkey, thread_exit); have = true; }
    g_fn = fn; g_nthr = n;
    pthread_t p[RT_MAXT];
    for (int i = 1; i <= n; i++) {
        Thread *t = &th[i]; t->state = T_RUN; t->vc = th[0].vc; t->vc.c[i]++; t->sem = 0; t->fk = F_NONE;
        t->stlo = STACKS + i * STACK_SZ; t->sthi = t->stlo + STACK_SZ; setpre(t);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void *)t->stlo, STACK_SZ);
        if (pthread_create(&p[i], &at, thread_tramp, t)) { fprintf(stderr, "simulator: pthread_create failed\n"); _exit(3); }
        pthread_attr_destroy(&at);
    }
    th[0].vc.c[0]++;
    g_phase = 1; th[0].state = T_BLOCK;
    memset(&th[0].acqpend, 0, sizeof(Vc));
    int k = next_runnable(cfg.rot); g_cur = k; post(&th[k]); await(&th[0]);
    for (int i = 1; i <= n; i++) { int a = g_active; g_active = 0; pthread_join(p[i], 0); g_active = a; }
    g_phase = 2; th[0].state = T_RUN; vjoin(th[0].vc, th[0].acqpend); memset(&th[0].acqpend, 0, sizeof(Vc));
    for (int i = 1; i <= n; i++) { res->tev[i] = th[i].ev; th[i].state = T_NONE; }
    t_in = oin;
}

// leak check: conservative reachability from all writable data
static u64 *mstack; static int mn;
static void mark_word(u64 v) {
    if (!in_arena(v)) return;
    u64 g = v & ~7ull; u8 s = *st8(g); if (s == 0 || s == ST_FREED) { if (g == v && g >= ARENA + 8) { g -= 8; s = *st8(g); } if (s == 0 || s == ST_FREED) return; }
    u64 a = g; while (*st8(a - 8) == 8 && a > ARENA + 64) a -= 8;   // start of the block: preceded by red zone
    Hdr *h = (Hdr *)(a - 16 - sizeof(Hdr));
    if (h->magic != 0xA110CA7E || !h->live || h->mark) return;
    h->mark = 1; mstack[mn++] = a;
}
static void mark_range(u64 lo, u64 hi) { for (lo = (lo + 7) & ~7ull; lo + 8 <= hi; lo += 8) mark_word(*(u64 *)lo); }
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) &p = i->dlpi_phdr[k];
        if (p.p_type == PT_TLS && i->dlpi_tls_data) mark_range((u64)i->dlpi_tls_data, (u64)i->dlpi_tls_data + p.p_memsz);
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { u64 lo = i->dlpi_addr + p.p_vaddr; mark_range(lo, lo + p.p_memsz); }
    }
    return 0;
}
extern "C" void rt_finish(void) {
    t_in = 0; res->tev[0] = th[0].ev;
    u64 nlive = 0;
    for (int r = 0; r < RT_MAXT; r++) for (u64 b = lastblk[r]; b; b = ((Hdr *)b)->link) if (((Hdr *)b)->live) nlive++;
    if (nlive) {
        mstack = (u64 *)mmap(0, (nlive + 4096) * 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        dl_iterate_phdr(phdr_cb, 0);
        for (u64 b = lastblk[RT_MAXT]; b; b = ((Hdr *)b)->link) { Hdr *h = (Hdr *)b; if (h->live) { u64 a = b + sizeof(Hdr) + 16; mark_range(a, a + h->size); } }
        while (mn) { u64 a = mstack[--mn]; Hdr *h = (Hdr *)(a - 16 - sizeof(Hdr)); mark_range(a, a + h->size); }
        u64 nl = 0, bytes = 0;
        for (int r = 0; r < RT_MAXT; r++) for (u64 b = lastblk[r]; b; b = ((Hdr *)b)->link) { Hdr *h = (Hdr *)b; if (h->live && !h->mark) { nl++; bytes += h->size; } }
        if (nl) rt_violation("leak", "%llu blocks (%llu bytes) allocated by the library are no longer reachable and were not freed", (unsigned long long)nl, (unsigned long long)bytes);
    }
    res->done = 1; g_active = 0;
}
