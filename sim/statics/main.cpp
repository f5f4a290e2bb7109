// statics/main.cpp -- the records of the static initialisers, compared with the
// same work done in main. Its own data are constant initialised.
#include "common.h"
#include <cstdlib>
#include <unistd.h>
void run_1(); void run_2(); void run_3();
enum { N = 16384 };
static long long ids[N]; static int nids; static double vals[4][N]; static int nvals[4], cur; static const char *where = "a static initialiser"; static double again[N]; static int nagain;
void id_record(long long i) { if (i <= 0) { printf("C01 not-independent: a static variable has identifier %lld\n", i); exit(1); } for (int k = 0; k < nids; k++) if (ids[k] == i) { printf("C01 duplicate-id: variables %d and %d, constructed in %s, have identifier %lld\n", k, nids, where, i); exit(1); } if (nids < N) ids[nids++] = i; }
void val_record(long double x) { if (cur) { if (nvals[cur] < N) vals[cur][nvals[cur]++] = (double)x; } else if (nagain < N) again[nagain++] = (double)x; }
void uses_begin(int tu) { cur = tu; } void uses_end() { cur = 0; }
extern "C" { int rt_enter(int) { return 0; } void rt_event(int, uint64_t) {} int rt_fault_point(int) { return 0; } int rt_fault_count() { return 0; }
void rt_violation(const char *c, const char *m, ...) { printf("C14 %s: %s in %s\n", c, m, where); fflush(stdout); _exit(1); } }
void more_ids();
int main() {
    where = "main";
    void (*run[])() = {run_1, run_2, run_3};
    for (int t = 1; t <= 3; t++) { nagain = 0; run[t - 1](); 
        if (nagain != nvals[t]) { printf("C14 wrong-value: %d results from the static initialiser of unit %d, %d from main\n", nvals[t], t, nagain); return 1; }
        for (int i = 0; i < nagain; i++) if (!(again[i] == vals[t][i] || (again[i] != again[i] && vals[t][i] != vals[t][i]))) { printf("C14 wrong-value: result %d of unit %d is %.17g from its static initialiser and %.17g from main\n", i, t, vals[t][i], again[i]); return 1; } }
    more_ids();
    printf("ok %d ids %d results\n", nids, nvals[1] + nvals[2] + nvals[3]);
}
