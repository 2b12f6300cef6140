/* Contracts on runtime/dispatch_generic.c (worker pool). The queue is used through its
 * contract (proved in harness/queue.c), handlers and message memory through theirs.
 *
 * Worker threads: monitor argument. Whenever the worker holds no lock, the rest of the
 * program may have queued any number of messages and may have requested the shutdown; both
 * are chosen arbitrarily at every acquisition of the lock. */
#include "gv.h"
#include "thread_api.h"
#include "queue.h"
#include "server_private.h"

static void* x_lock; static unsigned x_locks;              /* lock held now */
static unsigned x_signals; static void* x_signal;
static int x_thr; static int (*x_fn[4])(void*); static void* x_arg[4];
static unsigned x_joins, x_cleanups, x_invokes, x_mtx_live, x_cnd_live, x_q_live;
static int x_enq; static void* x_enq_q; static void* x_enq_m; static int x_enq_fail;
static struct gracht_message* x_inv_m; static struct gracht_message* x_cln_m;
static int x_env;                                       /* other threads act at lock points */
static int g_stage; static void* g_job;                 /* 0 none, 1 taken, 2 executed */
static uint64_t g_len;                                  /* messages waiting */
static uint64_t g_taken, g_done, g_put;                 /* taken = done (+1 while one is in hand) */
static int g_shutdown;                                  /* shutdown has been requested */
static struct gracht_server* const g_srv = (struct gracht_server*)0x5000;
static void env_step(void* m);

static int gv_lock(mtx_t* m) { GV_ASSERT(x_lock == NULL, "no lock is held when another is taken"); x_lock = m; x_locks++; if (x_env) env_step(m); return 0; }
static int gv_unlock(mtx_t* m) { GV_ASSERT(x_lock == (void*)m, "releases the lock it holds"); x_lock = NULL; return 0; }
static int gv_cnd_wait(cnd_t* c, mtx_t* m) { (void)c; GV_ASSERT(x_lock == (void*)m, "waits holding the lock"); GV_ASSERT(g_len == 0 && !g_shutdown, "sleeps only when there is nothing to do"); if (x_env) env_step(m); return 0; }
static int gv_cnd_signal(cnd_t* c) { x_signals++; x_signal = c; return 0; }
static int gv_mtx_init(mtx_t* m, int t) { (void)m; (void)t; x_mtx_live++; return 0; }
static void gv_mtx_destroy(mtx_t* m) { GV_ASSERT(x_lock != (void*)m, "lock not destroyed while held"); x_mtx_live--; }
static int gv_cnd_init(cnd_t* c) { (void)c; x_cnd_live++; return 0; }
static void gv_cnd_destroy(cnd_t* c) { (void)c; x_cnd_live--; }
static int x_fail_thread = -1, x_fail_queue = -1;
static int gv_thrd_create(thrd_t* t, int (*fn)(void*), void* arg)
{
    (void)t;
    if (x_thr == x_fail_thread) return thrd_error;
    if (x_thr < 4) { x_fn[x_thr] = fn; x_arg[x_thr] = arg; }
    x_thr++;
    return thrd_success;
}
static int gv_thrd_join(thrd_t t, int* code);
static int gv_q_construct(struct gr_queue* q, size_t n) { (void)q; GV_ASSERT(n > 1 && (n & (n - 1)) == 0, "capacity the queue contract covers"); if (x_thr == x_fail_queue) return -1; x_q_live++; return 0; }
static void gv_q_destroy(struct gr_queue* q) { (void)q; x_q_live--; }
static int gv_q_enqueue(struct gr_queue* q, void* p)
{
    GV_ASSERT(x_lock != NULL, "queue touched only under its worker's lock");
    GV_ASSERT(p != NULL, "a message");
    x_enq_fail = gv_bool();
    if (x_enq_fail) return -1;
    x_enq++; x_enq_q = q; x_enq_m = p;
    return 0;
}
static void* gv_q_dequeue(struct gr_queue* q);
#define mtx_init gv_mtx_init
#define mtx_destroy gv_mtx_destroy
#define mtx_lock gv_lock
#define mtx_unlock gv_unlock
#define cnd_init gv_cnd_init
#define cnd_destroy gv_cnd_destroy
#define cnd_wait gv_cnd_wait
#define cnd_signal gv_cnd_signal
#define thrd_create gv_thrd_create
#define thrd_join gv_thrd_join
#define gr_queue_construct gv_q_construct
#define gr_queue_destroy gv_q_destroy
#define gr_queue_enqueue gv_q_enqueue
#define gr_queue_dequeue gv_q_dequeue
#define malloc gv_malloc
#define free gv_free
#include "runtime/dispatch_generic.c"
#undef malloc
#undef free

static struct gracht_worker W;
static void env_step(void* m)
{
    (void)m;
    uint64_t more = gv_nd();
    GV_ASSUME(g_len + more >= g_len);
    g_len += more;
    if (!g_shutdown && gv_bool()) { g_shutdown = 1; W.state = WORKER_SHUTDOWN_REQUEST; }
}
static int gv_thrd_join(thrd_t t, int* code) { (void)t; (void)code; GV_ASSERT(x_lock == NULL, "joins without a lock"); x_joins++; return thrd_success; }
static void* gv_q_dequeue(struct gr_queue* q)
{
    GV_ASSERT(q == &W.job_queue, "own queue");
    GV_ASSERT(x_lock == (void*)&W.sync_object || g_shutdown, "queue touched only under its lock while others may");
    GV_ASSERT(g_stage == 0, "previous message finished first");
    if (g_len == 0) return NULL;
    g_len--; g_taken++;
    g_job = (void*)(uintptr_t)gv_nd();
    GV_ASSUME(g_job != NULL);
    g_stage = 1;
    return g_job;
}
void server_invoke_action(struct gracht_server* s, struct gracht_message* m)
{
    GV_ASSERT(x_lock == NULL, "handlers run without the worker's lock");
    if (x_env) {
        GV_ASSERT(s == g_srv && (void*)m == g_job && g_stage == 1, "executes the message it took, once");
        g_stage = 2;
    }
    x_invokes++; x_inv_m = m;
    GV_ASSERT(x_env || x_cln_m != m, "not executed after release");
}
void server_cleanup_message(struct gracht_server* s, struct gracht_message* m)
{
    if (x_env) {
        GV_ASSERT(s == g_srv && (void*)m == g_job, "releases the message it took");
        GV_ASSERT(g_stage == 2 || (g_stage == 1 && g_shutdown), "released after execution, or unexecuted only at shutdown");
        g_stage = 0; g_done++; g_job = NULL;
    }
    x_cleanups++; x_cln_m = m;
}

/* one worker, from start to end of its life */
void h_worker(void)
{
    struct gracht_worker_context* c;
    x_env = 1; g_stage = 0; g_shutdown = 0; g_taken = g_done = 0; x_lock = NULL; x_thr = 0; x_fail_thread = x_fail_queue = -1;
    gv_live_blocks = 0; gv_malloc_may_fail = 0; g_job = NULL; x_cln_m = NULL; x_inv_m = NULL;
    GV_ASSERT(initialize_worker(g_srv, &W) == 0 && x_thr == 1, "started");
    c = x_arg[0];
    GV_ASSERT(c->worker == &W && c->server == g_srv, "started on its own worker and server");
    g_len = gv_nd();
    worker_dowork(c);
    GV_ASSERT(x_lock == NULL, "lock released");
    GV_ASSERT(g_shutdown, "works until asked to stop");
    GV_ASSERT(g_len == 0 && g_stage == 0 && g_taken == g_done, "every message released before the worker ends");
    GV_ASSERT(gv_live_blocks == 0, "context released once");
    GV_REACH("worker ends");
}
/* any pool, any worker's turn */
void h_dispatch(void)
{
    int n = (int)gv_range(1, 1 << 20), rr = (int)gv_range(0, 1 << 20);
    struct gracht_message* m = (malloc)(sizeof(struct gracht_message) + 16);
    GV_ASSUME(rr < n && m != NULL);
    struct gracht_worker* w = (malloc)(sizeof(struct gracht_worker) * (size_t)n);
    GV_ASSUME(w != NULL);
    struct gracht_worker_pool P = { .workers = w, .worker_count = n, .rr_index = rr };
    m->server = g_srv;
    for (int i = 0; i < 2; i++) {
        x_enq = x_invokes = x_cleanups = x_signals = 0; x_cln_m = NULL;
        gracht_worker_pool_dispatch(&P, m);
        GV_ASSERT(x_lock == NULL, "lock released");
        if (x_enq) {
            GV_ASSERT(x_enq == 1 && x_enq_m == (void*)m && x_enq_q == (void*)&w[rr].job_queue, "queued once, at the worker whose turn it is");
            GV_ASSERT(x_signals >= 1 && x_signal == (void*)&w[rr].signal, "and that worker is woken");
            GV_ASSERT(!x_invokes && !x_cleanups, "left to the worker");
        } else {
            GV_ASSERT(x_enq_fail && x_invokes == 1 && x_inv_m == m && x_cleanups == 1 && x_cln_m == m, "a full queue: executed here once, then released once");
        }
        GV_COVER(x_enq && i == 1, "queued"); GV_COVER(!x_enq && i == 1, "full");
        rr = rr + 1 == n ? 0 : rr + 1;
    }
    gracht_worker_pool_dispatch(NULL, m); gracht_worker_pool_dispatch(&P, NULL);
}
/* creating and destroying a pool, through the public interface */
#ifndef GV_N
#define GV_N 3
#endif
void h_pool(void)
{
    struct gracht_worker_pool* P = NULL;
    int n = (int)gv_range(0, GV_N), r;
    struct gracht_message* m = (malloc)(sizeof(struct gracht_message) + 16); GV_ASSUME(m != NULL); m->server = g_srv;
    gv_live_blocks = 0; gv_malloc_may_fail = gv_bool();
    x_fail_thread = (int)gv_range(0, GV_N) - 1; x_fail_queue = (int)gv_range(0, GV_N) - 1;
    r = gracht_worker_pool_create(g_srv, n, gv_bool() ? &P : NULL);
    gv_malloc_may_fail = 0;
    if (r == 0) {
        GV_ASSERT(x_thr == n && x_q_live == n && x_mtx_live == n && x_cnd_live == (unsigned)n, "as many workers as asked for");
        void* seen[GV_N + 1];
        for (int i = 0; i < n + 1 && n; i++) {
            x_enq = x_invokes = x_cleanups = x_signals = 0; x_cln_m = NULL;
            gracht_worker_pool_dispatch(P, m);
            GV_ASSERT(x_lock == NULL, "lock released");
            GV_ASSERT((x_enq == 1 && x_enq_m == (void*)m && x_signals >= 1 && !x_invokes && !x_cleanups) ||
                      (x_enq == 0 && x_invokes == 1 && x_inv_m == m && x_cleanups == 1 && x_cln_m == m), "queued once and signalled, or executed and released once");
            seen[i] = x_enq ? x_enq_q : NULL;
            for (int j = 0; j < i; j++)
                if (seen[i] && seen[j]) GV_ASSERT((seen[i] == seen[j]) == (i - j == n), "every worker in turn");
        }
        x_signals = 0;
        int sig = x_signals; (void)sig;
        gracht_worker_pool_destroy(P);
        GV_ASSERT(x_joins == n, "every worker is waited for");
        GV_ASSERT(x_signals >= n, "every worker is told to stop");
        for (int i = 0; i < n; i++) gv_live_blocks--; /* contexts belong to the (stubbed) threads */
        GV_COVER(n == GV_N, "full pool");
    } else {
        GV_COVER(x_thr > 0, "refused after some started");
        GV_ASSERT(x_joins == x_thr, "started workers are stopped");
        gv_live_blocks -= x_thr;
    }
    GV_ASSERT(gv_live_blocks == 0 && x_q_live == 0 && x_mtx_live == 0 && x_cnd_live == 0, "nothing kept");
    gracht_worker_pool_destroy(NULL);
}
