/* Contracts on include/rwlock.h.
 *
 * Monitor proof (GV_MON), thread-modular, any number of threads: whenever the mutex is free,
 * readers == number of reader holds; a writer holds the lock exactly while it owns the mutex.
 * Outside its critical sections a thread may find any state that satisfies this; its own hold is
 * stable. Every release of the mutex has to re-establish it with exactly the change the operation
 * stands for.
 *
 * Black box (h_excl, bounded): threads run the real functions, other threads' whole operations
 * are interleaved at every point where the running thread does not own the mutex. */
#include "gv.h"
#include "thread_api.h"
static int gv_mtx_lock(mtx_t*); static int gv_mtx_unlock(mtx_t*); static int gv_mtx_trylock(mtx_t*);
static int gv_cnd_wait(cnd_t*, mtx_t*); static int gv_cnd_signal(cnd_t*); static int gv_cnd_broadcast(cnd_t*);
static int gv_init(void* m) { (void)m; return 0; }
#define mtx_lock gv_mtx_lock
#define mtx_unlock gv_mtx_unlock
#define mtx_trylock gv_mtx_trylock
#define mtx_init(m, k) gv_init(m)
#define mtx_destroy(m) ((void)(m))
#define cnd_init(m) gv_init(m)
#define cnd_destroy(m) ((void)(m))
#define cnd_wait gv_cnd_wait
#define cnd_signal gv_cnd_signal
#define cnd_broadcast gv_cnd_broadcast
#ifdef GV_MON
enum { RLOCK, RUNLOCK, WLOCK, WUNLOCK };
static int g_op, g_held, g_mine; static unsigned g_oth; static unsigned g_acq;
#endif
#include "include/rwlock.h"

static struct rwlock L;
static unsigned w_signals, w_broadcasts;

#ifdef GV_MON
static int consistent(void) { return (uint32_t)L.readers == g_oth + (uint32_t)g_mine; }
static void others(void)
{   /* other threads did anything they may */
    g_oth = gv_u32(); GV_ASSUME(g_oth < 0x7FFFFFF0u);
    L.readers = (int)(g_oth + (unsigned)g_mine);
}
static void settle(void)
{
    if (g_op == RLOCK && !g_mine && (uint32_t)L.readers == g_oth + 1) g_mine = 1;
    else if (g_op == RUNLOCK && g_mine && (uint32_t)L.readers == g_oth) g_mine = 0;
    GV_INV(consistent(), "readers counts exactly the reader holds when the mutex is released");
}
static int gv_mtx_lock(mtx_t* m)
{
    GV_ASSERT(m == &L.sync_object && !g_held, "C15: the lock's mutex, not already owned");
    g_held = 1; g_acq++; others();
    return 0;
}
static int gv_mtx_trylock(mtx_t* m) { (void)m; GV_INV(0, "trylock is outside the monitor contract"); return 0; }
static int gv_mtx_unlock(mtx_t* m)
{
    GV_ASSERT(m == &L.sync_object && g_held, "C15: only the owner releases the mutex");
    settle();
    g_held = 0; L.readers = gv_int();
    return 0;
}
static int gv_cnd_wait(cnd_t* c, mtx_t* m)
{
    GV_ASSERT(m == &L.sync_object && g_held, "C15: waiting needs the mutex");
    (void)c;
    settle();
    others();
    return 0;
}
static int gv_cnd_signal(cnd_t* c) { GV_ASSERT(c == &L.signal, "C15: the lock's condition"); w_signals++; return 0; }
static int gv_cnd_broadcast(cnd_t* c) { GV_ASSERT(c == &L.signal, "C15: the lock's condition"); w_broadcasts++; return 0; }
static void begin(int op, int held, int mine)
{
    g_op = op; g_held = held; g_mine = mine; g_acq = 0; w_signals = 0; w_broadcasts = 0;
    if (held) { g_oth = 0; L.readers = 0; } else { g_oth = gv_u32(); L.readers = gv_int(); }
}
void h_init(void)
{
    begin(RLOCK, 0, 0); L.readers = gv_int();
    rwlock_init(&L);
    g_oth = 0;
    GV_INV(consistent(), "a new lock is held by nobody");
    GV_REACH("init");
}
void h_rlock(void)
{
    begin(RLOCK, 0, 0);
    rwlock_r_lock(&L);
    GV_INV(g_mine == 1 && !g_held, "the reader is counted, the mutex is free");
    GV_REACH("r_lock");
}
void h_runlock(void)
{
    begin(RUNLOCK, 0, 1);
    rwlock_r_unlock(&L);
    GV_INV(g_mine == 0 && !g_held, "exactly one acquisition is undone, the mutex is free");
    if (g_oth == 0) GV_INV(w_signals + w_broadcasts > 0, "the last reader wakes a writer");
    GV_COVER(g_oth == 0, "last reader"); GV_COVER(g_oth > 5, "not the last reader");
}
void h_wlock(void)
{
    begin(WLOCK, 0, 0);
    rwlock_w_lock(&L);
    GV_INV(g_held, "the writer owns the mutex, so nobody else can become reader or writer");
    GV_INV(L.readers == 0 && g_oth == 0, "no reader holds the lock");
    GV_REACH("w_lock");
}
void h_wunlock(void)
{
    unsigned b;
    begin(RUNLOCK, 0, 1);
    rwlock_r_unlock(&L);
    GV_ASSUME(g_oth == 0);
    b = w_broadcasts; /* all waiting writers were woken already */
    begin(WUNLOCK, 1, 0);
    rwlock_w_unlock(&L);
    GV_INV(!g_held, "the mutex is free again");
    if (!b) GV_INV(w_signals + w_broadcasts > 0, "the next writer is woken");
    GV_REACH("w_unlock");
}
#else
/* ---- bounded black box: T threads, real code, interleaved */
#ifndef GV_T
#define GV_T 3
#endif
#ifndef GV_ENV
#define GV_ENV 2
#endif
#ifndef GV_OPS
#define GV_OPS 4
#endif
static int me, m_owner, depth, rd[GV_T + 1], wr[GV_T + 1], steps, waiting, woken;
static void check(void)
{
    int r = 0, w = 0;
    for (int t = 1; t <= GV_T; t++) { r += rd[t]; w += wr[t]; }
    GV_ASSERT(w <= 1, "C15: two writers hold the lock");
    GV_ASSERT(!(w && r), "C15: a writer and a reader hold the lock");
}
static void op(int t)
{
    int old = me; me = t;
    switch (gv_u8() & 3) {
    case 0: GV_ASSUME(!wr[t] && !rd[t]); rwlock_r_lock(&L); rd[t]++; break;
    case 1: GV_ASSUME(rd[t]); rd[t]--; rwlock_r_unlock(&L); break;
    case 2: GV_ASSUME(!wr[t] && !rd[t]); rwlock_w_lock(&L); wr[t] = 1; break;
    default: GV_ASSUME(wr[t]); wr[t] = 0; rwlock_w_unlock(&L); break;
    }
    me = old;
    check();
}
static int busy_t;
static void env(void)
{   /* the running thread is outside the mutex: others may act */
    if (depth || steps >= GV_ENV || !gv_bool()) return;
    depth = 1; steps++;
    int t = (int)gv_range(1, GV_T); GV_ASSUME(t != me);
    op(t);
    depth = 0;
}
static int gv_mtx_lock(mtx_t* m) { (void)m; env(); GV_ASSUME(m_owner == 0); m_owner = me; return 0; } /* else it would wait */
static int gv_mtx_trylock(mtx_t* m) { (void)m; env(); if (m_owner) return thrd_busy; m_owner = me; return thrd_success; }
static int gv_mtx_unlock(mtx_t* m) { (void)m; GV_ASSERT(m_owner == me, "C15: only the owner releases the mutex"); m_owner = 0; return 0; }
static int gv_cnd_wait(cnd_t* c, mtx_t* m)
{
    int spurious = gv_bool(), w = waiting;
    (void)c; GV_ASSERT(m_owner == me, "C15: waiting needs the mutex");
    GV_ASSUME(depth == 0 && waiting == 0);
    waiting = 1; woken = spurious; m_owner = 0;
    steps = 0; env(); env();
    /* a writer that waits while nobody holds the lock and nobody signalled it sleeps for ever */
    int held = 0;
    for (int t = 1; t <= GV_T; t++) held += rd[t] + wr[t];
    if (!woken) { GV_ASSERT(held, "C15: the last one leaving did not wake a waiting writer"); GV_ASSUME(0); }
    waiting = w;
    GV_ASSUME(m_owner == 0); m_owner = me;
    return 0;
}
static int gv_cnd_signal(cnd_t* c) { (void)c; w_signals++; woken = 1; return 0; }
static int gv_cnd_broadcast(cnd_t* c) { (void)c; w_broadcasts++; woken = 1; return 0; }
void h_excl(void)
{
    me = 0; m_owner = 0; depth = 0; waiting = 0;
    for (int t = 0; t <= GV_T; t++) { rd[t] = 0; wr[t] = 0; }
    rwlock_init(&L);
    depth = 1; /* first, without interference: up to two readers or one writer */
    if (gv_bool()) { me = 2; rwlock_r_lock(&L); rd[2]++; check(); }
    if (gv_bool()) { me = 3; rwlock_r_lock(&L); rd[3]++; check(); }
    GV_COVER(rd[2] && rd[3], "two readers");
    me = 0;
    if (gv_bool()) op((int)gv_range(1, GV_T));
    depth = 0; steps = 0;
    op((int)gv_range(1, GV_T)); /* the others interleaved */
    depth = 1;
    op((int)gv_range(1, GV_T));
    GV_COVER(wr[1], "a writer got in");
}
#endif
