/* A sequentialised OpenMP runtime and the memory-access callbacks of
 * -fsanitize=thread, linked into an instrumented kernel in place of libgomp
 * and libtsan.  The threads of a parallel region are coroutines; at every
 * scheduling point the controller (mc/omp.py) picks who runs next, so that all
 * interleavings within the preemption bound can be enumerated.            */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <ucontext.h>

#define MAXT 8
#define MAXD (1 << 16)
#define MAXLOG (1 << 18)
#define NSITE 4096
#define HASH (1 << 19)
#define STACK (512 * 1024)

static ucontext_t main_ctx, ctx[MAXT];
static char *stacks[MAXT];
static int state[MAXT];            /* 0 finished, 1 runnable, 2 at barrier, 3 wants a lock */
static void *want[MAXT];
static void (*body)(void *);
static void *body_arg;
static int team = 0, cur = -1, nested = 0;

static int threads = 2;
static int prefix[MAXD], nprefix;
static int opts[MAXD], chosen[MAXD], costly[MAXD], ndec;
static long n_access, n_region, n_yield, n_conflict, n_bad, n_deadlock, n_epoch;

static uintptr_t sites[NSITE];     /* yield here */
static int nsites;
static uintptr_t found[NSITE];     /* sites of conflicting accesses */
static int nfound;
static int reduce;                 /* threads of an epoch without conflicts run in order: any order is equivalent */
static unsigned char epoch_on[1 << 16], epoch_found[1 << 16];
static void mark(void) { epoch_found[n_epoch & 0xffff] = 1; }

typedef struct { uintptr_t g, pc; int t, w; } entry;
static entry logv[MAXLOG];
static int nlog;
typedef struct { uintptr_t g; uint32_t r, w; int epoch; } cell;
static cell cells[HASH];
static int epoch = 0;

static void *lock_owner_key[64]; static int lock_owner[64]; static int nlocks;

/* work sharing */
static long ws_next, ws_end, ws_incr, ws_chunk; static int ws_guided, ws_live, ws_gen, ws_thread_gen[MAXT];
static int single_gen, single_thread[MAXT];

static cell *find(uintptr_t g)
{
    size_t h = (g * 0x9E3779B97F4A7C15ull) >> 45;
    h &= HASH - 1;
    while (cells[h].epoch == epoch && cells[h].g != g) h = (h + 1) & (HASH - 1);
    if (cells[h].epoch != epoch) { cells[h].epoch = epoch; cells[h].g = g; cells[h].r = cells[h].w = 0; }
    return &cells[h];
}

static void add_found(uintptr_t pc)
{
    for (int i = 0; i < nfound; i++) if (found[i] == pc) return;
    if (nfound < NSITE) found[nfound++] = pc;
}

static void end_epoch(void)
{
    epoch++; n_epoch++;
    for (int i = 0; i < nlog; i++) {
        cell *c = find(logv[i].g);
        if (logv[i].w) c->w |= 1u << logv[i].t; else c->r |= 1u << logv[i].t;
    }
    for (int i = 0; i < nlog; i++) {
        cell *c = find(logv[i].g);
        uint32_t all = c->r | c->w;
        if (c->w && (all & (all - 1))) { n_conflict++; add_found(logv[i].pc); epoch_found[(n_epoch - 1) & 0xffff] = 1; }
    }
    nlog = 0;
}

static int decide(int n, int cost)
{
    int c = 0;
    if (n <= 1) return 0;
    if (reduce && !cost && !epoch_on[n_epoch & 0xffff]) return 0;
    if (ndec < nprefix) { c = prefix[ndec]; if (c >= n) { n_bad++; c = 0; } }
    if (ndec < MAXD) { opts[ndec] = n; chosen[ndec] = c; costly[ndec] = cost; ndec++; } else n_bad++;
    return c;
}

static int runnable(int t)
{
    if (state[t] == 1) return 1;
    if (state[t] == 3) {
        for (int i = 0; i < nlocks; i++) if (lock_owner_key[i] == want[t] && lock_owner[i] >= 0) return 0;
        return 1;
    }
    return 0;
}

static void give(int t)            /* from the current coroutine or main to t */
{
    int me = cur;
    if (me == t) return;
    cur = t;
    if (me < 0) swapcontext(&main_ctx, &ctx[t]); else swapcontext(&ctx[me], &ctx[t]);
}

static void pick(void)             /* the current thread can not go on */
{
    int list[MAXT], n = 0;
    for (;;) {
        n = 0;
        for (int t = 0; t < team; t++) if (runnable(t)) list[n++] = t;
        if (n) break;
        int waiting = 0, blocked = 0;
        for (int t = 0; t < team; t++) { waiting += state[t] == 2; blocked += state[t] == 3; }
        if (waiting && !blocked) {  /* everybody alive is at the barrier */
            end_epoch();
            for (int t = 0; t < team; t++) if (state[t] == 2) state[t] = 1;
            continue;
        }
        if (blocked) { n_deadlock++; for (int i = 0; i < nlocks; i++) lock_owner[i] = -1; continue; }
        /* all finished */
        int me = cur; cur = -1;
        if (me >= 0) swapcontext(&ctx[me], &main_ctx);
        return;
    }
    give(list[decide(n, 0)]);
}

static void point(void)            /* the current thread could be preempted here */
{
    int list[MAXT], n = 0;
    if (cur < 0) return;
    n_yield++;
    list[n++] = cur;
    for (int t = 0; t < team; t++) if (t != cur && runnable(t)) list[n++] = t;
    give(list[decide(n, 1)]);
}

static void access_at(uintptr_t a, size_t size, int w, uintptr_t pc)
{
    if (cur < 0) return;
    n_access++;
    for (int i = 0; i < nsites; i++) if (sites[i] == pc) { point(); break; }
    for (uintptr_t g = a >> 3; g <= (a + size - 1) >> 3; g++)
        if (nlog < MAXLOG) { logv[nlog].g = g; logv[nlog].pc = pc; logv[nlog].t = cur; logv[nlog].w = w; nlog++; } else n_bad++;
}

#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(n) \
    void __tsan_read##n(void *a) { access_at((uintptr_t)a, n, 0, PC); } \
    void __tsan_write##n(void *a) { access_at((uintptr_t)a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void *a) { access_at((uintptr_t)a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void *a) { access_at((uintptr_t)a, n, 1, PC); } \
    void __tsan_volatile_read##n(void *a) { access_at((uintptr_t)a, n, 0, PC); } \
    void __tsan_volatile_write##n(void *a) { access_at((uintptr_t)a, n, 1, PC); } \
    void __tsan_unaligned_volatile_read##n(void *a) { access_at((uintptr_t)a, n, 0, PC); } \
    void __tsan_unaligned_volatile_write##n(void *a) { access_at((uintptr_t)a, n, 1, PC); } \
    void __tsan_read_write##n(void *a) { access_at((uintptr_t)a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long s) { if (s) access_at((uintptr_t)a, s, 0, PC); }
void __tsan_write_range(void *a, unsigned long s) { if (s) access_at((uintptr_t)a, s, 1, PC); }
void __tsan_vptr_read(void **a) { access_at((uintptr_t)a, 8, 0, PC); }
void __tsan_vptr_update(void **a, void *v) { access_at((uintptr_t)a, 8, 1, PC); }
void __tsan_func_entry(void *p) { }
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { access_at((uintptr_t)s, n, 0, PC); access_at((uintptr_t)d, n, 1, PC); } return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) access_at((uintptr_t)d, n, 1, PC); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { access_at((uintptr_t)s, n, 0, PC); access_at((uintptr_t)d, n, 1, PC); } return memmove(d, s, n); }

#define ATOM(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int mo) { access_at((uintptr_t)a, b / 8, 0, PC); return *a; } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { access_at((uintptr_t)a, b / 8, 1, PC); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { access_at((uintptr_t)a, b / 8, 1, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { access_at((uintptr_t)a, b / 8, 1, PC); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { access_at((uintptr_t)a, b / 8, 1, PC); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { access_at((uintptr_t)a, b / 8, 1, PC); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { access_at((uintptr_t)a, b / 8, 1, PC); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { access_at((uintptr_t)a, b / 8, 1, PC); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { access_at((uintptr_t)a, b / 8, 1, PC); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { access_at((uintptr_t)a, b / 8, 1, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { access_at((uintptr_t)a, b / 8, 1, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { access_at((uintptr_t)a, b / 8, 1, PC); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { }
void __tsan_atomic_signal_fence(int mo) { }

/* ---- locks ---- */
static int lock_slot(void *k)
{
    for (int i = 0; i < nlocks; i++) if (lock_owner_key[i] == k) return i;
    if (nlocks < 64) { lock_owner_key[nlocks] = k; lock_owner[nlocks] = -1; return nlocks++; }
    n_bad++; return 0;
}
static void acquire(void *k)
{
    if (cur < 0) return;
    int s = lock_slot(k);
    mark();
    point();
    while (lock_owner[s] >= 0) { state[cur] = 3; want[cur] = k; pick(); state[cur] = 1; }
    lock_owner[s] = cur;
}
static void release(void *k) { if (cur >= 0) lock_owner[lock_slot(k)] = -1; }
static int the_critical, the_atomic;
void GOMP_critical_start(void) { acquire(&the_critical); }
void GOMP_critical_end(void) { release(&the_critical); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start(void) { acquire(&the_atomic); }
void GOMP_atomic_end(void) { release(&the_atomic); }
void omp_init_lock(void *k) { }
void omp_destroy_lock(void *k) { }
void omp_set_lock(void *k) { acquire(k); }
void omp_unset_lock(void *k) { release(k); }

/* ---- regions ---- */
static void barrier(void) { if (cur < 0 || nested) return; state[cur] = 2; pick(); }
void GOMP_barrier(void) { barrier(); }

static void entry_point(void)
{
    body(body_arg);
    state[cur] = 0;
    pick();
}

static void start(void (*fn)(void *), void *data, unsigned nt)
{
    int n = nt && (int)nt < threads ? (int)nt : threads;
    if (cur >= 0) { nested++; fn(data); nested--; return; }
    if (n > MAXT) n = MAXT;
    n_region++;
    team = n; body = fn; body_arg = data; nlog = 0; nlocks = 0; single_gen = 0;
    for (int t = 0; t < n; t++) {
        if (!stacks[t]) stacks[t] = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&ctx[t]);
        ctx[t].uc_stack.ss_sp = stacks[t]; ctx[t].uc_stack.ss_size = STACK; ctx[t].uc_link = &main_ctx;
        makecontext(&ctx[t], entry_point, 0);
        state[t] = 1; single_thread[t] = 0; ws_thread_gen[t] = 0;
    }
    pick();
    end_epoch();
    team = 0; ws_live = 0; ws_gen = 0;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) { start(fn, data, nt); }
static void *old_data; static void (*old_fn)(void *);
void GOMP_parallel_start(void (*fn)(void *), void *data, unsigned nt) { old_fn = fn; old_data = data; }
void GOMP_parallel_end(void) { }

static void ws_set(long s, long e, long inc, long chunk, int guided)
{
    ws_next = s; ws_end = e; ws_incr = inc ? inc : 1; ws_chunk = chunk > 0 ? chunk : 1; ws_guided = guided; ws_live = 1;
}
static bool ws_take(long *a, long *b)
{
    mark();
    point();
    long left = ws_incr > 0 ? (ws_end - ws_next + ws_incr - 1) / ws_incr : (ws_next - ws_end - ws_incr - 1) / -ws_incr;
    if (left <= 0) return false;
    long n = ws_chunk;
    if (ws_guided) { long g = left / (2 * (team ? team : 1)); if (g > n) n = g; }
    if (n > left) n = left;
    *a = ws_next; *b = ws_next + n * ws_incr; ws_next = *b;
    return true;
}
static bool ws_start(long s, long e, long inc, long chunk, int g, long *a, long *b)
{
    int t = cur < 0 ? 0 : cur;
    if (cur < 0 || ++ws_thread_gen[t] > ws_gen) { ws_gen = ws_thread_gen[t]; ws_set(s, e, inc, chunk, g); }
    return ws_take(a, b);
}
#define LOOP(name, g) \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long s, long e, long inc, long chunk, unsigned flags) { ws_set(s, e, inc, chunk, g); start(fn, data, nt); } \
    bool GOMP_loop_##name##_start(long s, long e, long inc, long chunk, long *a, long *b) { return ws_start(s, e, inc, chunk, g, a, b); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return ws_take(a, b); }
LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1) LOOP(static, 0)
#define LOOPR(name) \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long s, long e, long inc, unsigned flags) { ws_set(s, e, inc, 1, 0); start(fn, data, nt); } \
    bool GOMP_loop_##name##_start(long s, long e, long inc, long *a, long *b) { return ws_start(s, e, inc, 1, 0, a, b); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return ws_take(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) { }
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
bool GOMP_single_start(void)
{
    if (cur < 0) return true;
    mark();
    point();
    if (++single_thread[cur] > single_gen) { single_gen = single_thread[cur]; return true; }
    return false;
}
int omp_get_num_threads(void) { return cur < 0 || nested ? 1 : team; }
int omp_get_thread_num(void) { return cur < 0 || nested ? 0 : cur; }
int omp_get_max_threads(void) { return threads; }
int omp_get_num_procs(void) { return threads; }
int omp_in_parallel(void) { return cur >= 0; }
void omp_set_num_threads(int n) { }
void omp_set_dynamic(int n) { }
int omp_get_dynamic(void) { return 0; }
int omp_get_level(void) { return cur >= 0; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_nested(void) { return 0; }
void omp_set_nested(int n) { }
double omp_get_wtime(void) { return 0.; }

/* ---- controller ---- */
void mc_reset_sites(int red) { nsites = 0; nfound = 0; reduce = red; memset(epoch_on, 0, sizeof epoch_on); memset(epoch_found, 0, sizeof epoch_found); }
int mc_adopt(void)                 /* conflicting sites become scheduling points */
{
    int before = nsites;
    for (int i = 0; i < nfound; i++) {
        int k = 0;
        for (; k < nsites; k++) if (sites[k] == found[i]) break;
        if (k == nsites && nsites < NSITE) sites[nsites++] = found[i];
    }
    int more = nsites - before;
    for (int i = 0; i < 1 << 16; i++) if (epoch_found[i] && !epoch_on[i]) { epoch_on[i] = 1; more += reduce; }
    return more;
}
void mc_begin(int nthreads, const int *pre, int n)
{
    threads = nthreads; nprefix = n < MAXD ? n : MAXD;
    memcpy(prefix, pre, nprefix * sizeof(int));
    ndec = 0; cur = -1; nested = 0; team = 0; ws_live = 0; ws_gen = 0;
    n_access = n_region = n_yield = n_conflict = n_bad = n_deadlock = n_epoch = 0;
}
int mc_end(int *o, int *c, int *k, long *st)
{
    memcpy(o, opts, ndec * sizeof(int)); memcpy(c, chosen, ndec * sizeof(int)); memcpy(k, costly, ndec * sizeof(int));
    st[0] = n_access; st[1] = n_region; st[2] = n_yield; st[3] = n_conflict; st[4] = n_bad; st[5] = n_deadlock; st[6] = nfound; st[7] = n_epoch;
    return ndec;
}
