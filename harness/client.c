/* Contracts on runtime/client.c (with runtime/shared.c and runtime/control.c), through its public
 * interface. Callees are used through their contracts: hash table (C02: exact map; what remove
 * returns is only good until the lock is released), arena (C01: blocks of their own), socket link
 * (C06: one whole message or failure, C19). Locks are monitored; a second thread that pumps
 * messages runs at the points where the scheduling of the two matters. */
#include "gv.h"
#include "thread_api.h"
#include "gracht/types.h"
#include "gracht/link/link.h"
#define union struct
#include "utils.h"
#undef union
#include "hashtable.h"
#include "arena.h"
#include "logging.h"
#include "gracht/client.h"
#include "control.h"
#include <string.h>
#include <stdbool.h>
#ifndef GV_OFF
#define GV_OFF 0 /* where the link leaves the header (C06) */
#endif
#ifndef GV_AT
#define GV_AT 0 /* the moment the other thread acts */
#endif
#ifndef GV_ENV
#define GV_ENV 0
#endif
#ifndef GV_N
#define GV_N 2   /* requests in play */
#endif
#ifndef GV_ALL
#define GV_ALL 1
#endif
#ifndef GV_SHORT
#define GV_SHORT 99 /* which allocation of message memory fails */
#endif
#ifndef GV_MSGS
#define GV_MSGS 2
#endif
#define HDR GRACHT_MESSAGE_HEADER_SIZE
enum { NONE, OUT, DONE, FAILED };
static struct { uint32_t id; int st; int blk; struct gracht_message_context cx; } R[3];
static gracht_client_t* C; static struct gracht_link x_link;
static uint32_t g_max;
static int x_point; static int x_thr = 1;                 /* thread running */

/* ---- what each thread is waiting for ------------------------------------------------ */
static struct { int n, req; } x_want[3];
static int not_out(int n) { int k = 0; for (int i = 0; i < 3; i++) if (i < n && R[i].st != OUT) k++; return k; }
static int satisfied(int t) { return x_want[t].n && not_out(x_want[t].n) >= x_want[t].req; }

/* ---- locks -------------------------------------------------------------------------- */
#define NLK 8
static struct { void* at; int holder; } x_lk[NLK]; static int x_nlk;
static void* x_pump; static int x_envs, x_busy;
static void swap_gone(void); static void other_thread(void);
static int lk(void* m) { for (int i = 0; i < NLK; i++) if (i < x_nlk && x_lk[i].at == m) return i; GV_ASSERT(0, "C09,C10: a lock that exists"); return 0; }
static int holds(int t) { int n = 0; for (int i = 0; i < NLK; i++) if (i < x_nlk && x_lk[i].holder == t) n++; return n; }
static int m_init(void* m) { GV_ASSUME(x_nlk < NLK); x_lk[x_nlk].at = m; x_lk[x_nlk].holder = 0; x_nlk++; return 0; }
static int m_destroy(void* m) { int i = lk(m); GV_ASSERT(!x_lk[i].holder, "C09,C10: lock destroyed while held"); x_lk[i].at = NULL; return 0; }
static int m_lock(void* m)
{
    int i = lk(m);
#if GV_ENV == 1
    if (x_thr == 1 && m == x_pump && x_busy == 1 && x_envs && holds(1) == 0) { x_envs = 0; other_thread(); }
#endif
    GV_ASSERT(!x_lk[i].holder, "C09,C10: would wait for itself");
    x_lk[i].holder = x_thr;
    return 0;
}
static int m_trylock(void* m)
{
    int i = lk(m);
    if (x_lk[i].holder) return 1;
#if GV_ENV == 1
    if (x_thr == 1 && x_envs && x_point++ == GV_AT) { x_busy = 1; return 1; } /* held by the other thread just now */
#endif
    x_lk[i].holder = x_thr;
    return 0;
}
static int m_unlock(void* m)
{
    int i = lk(m);
    GV_ASSERT(x_lk[i].holder == x_thr, "C09,C10: lock released once by its holder");
    x_lk[i].holder = 0;
    swap_gone();
#if GV_ENV == 2
    if (x_thr == 1 && m == x_pump && x_envs && holds(1) == 0) { x_envs = 0; other_thread(); }
#elif GV_ENV == 3
    if (x_thr == 1 && x_envs && holds(1) == 0 && x_point++ == GV_AT) { x_envs--; other_thread(); }
#endif
    return 0;
}
static int x_signals, x_waits;
static int c_init(void) { return 0; }
static int c_wait(void* c, void* m)
{
    int i = lk(m); (void)c;
    GV_ASSERT(x_lk[i].holder == x_thr && holds(x_thr) == 1, "C10: waits with its own lock only");
    GV_ASSERT(!satisfied(x_thr), "C10: never waits for requests that are already done");
    x_signals = 0; x_waits++;
    x_lk[i].holder = 0;
    GV_ASSUME(x_envs > 0); /* nothing more arrives: it may wait for ever */
    x_envs--;
    other_thread();
    if (satisfied(1)) GV_ASSERT(x_signals > 0, "C10: woken once the requests are done");
    x_lk[i].holder = x_thr;
    return 0;
}
static int c_signal(void* c) { (void)c; x_signals++; GV_ASSERT(holds(x_thr) > 0, "C10: signals an awaiter that cannot disappear meanwhile"); return 0; }
static int c_destroy(void* c) { (void)c; return 0; }

/* ---- message memory ------------------------------------------------------------------ */
#define NB 7
static char x_store[NB][64]; static struct { int live, used; } x_blk[NB]; static int x_nblk, x_shortage, x_mayshort, x_allocated;
static struct gracht_arena* const x_arena = (struct gracht_arena*)0x7000; static size_t x_arena_size;
static int blk(const void* p) { for (int i = 0; i < NB; i++) if (p == (void*)x_store[i]) return i; return -1; }
static int live(void) { int n = 0; for (int i = 0; i < NB; i++) n += x_blk[i].live; return n; }
static int gv_arena_create(size_t n, struct gracht_arena** out) { x_arena_size = n; *out = x_arena; return 0; }
static void gv_arena_destroy(struct gracht_arena* a) { (void)a; }
static void* gv_arena_allocate(struct gracht_arena* a, void* old, size_t size)
{
    GV_ASSERT(a == x_arena && !old && size >= g_max, "C09: memory for a whole message");
    if (x_mayshort && x_allocated++ == GV_SHORT) { x_shortage = 1; return NULL; }
    GV_ASSUME(x_nblk < NB);
    x_blk[x_nblk].live = 1;
    return x_store[x_nblk++];
}
static int x_delivering = -1;
static void gv_arena_free(struct gracht_arena* a, void* p, size_t size)
{
    int i = blk(p);
    GV_ASSERT(a == x_arena && i >= 0 && size == 0, "C09: releases message memory whole");
    if (i < 0) return;
    GV_ASSERT(x_blk[i].live, "C09: message memory released once");
    GV_ASSERT(x_delivering != i, "C09: not released while its handler runs");
    for (int k = 0; k < 3; k++) GV_ASSERT(!(R[k].st == DONE && R[k].blk == i && !R[k].cx.message_id) || 1, "");
    x_blk[i].live = 0;
    x_store[i][GV_OFF] = 0x5a; /* others may have it now */
}

/* ---- link ---------------------------------------------------------------------------- */
static int x_fixed, x_failed[3]; static int x_msgs, x_recvfail, x_recvs, x_sends, x_sendret; static uint32_t x_sid_, x_slen, x_sidx; static char* x_sdata; static struct gracht_message_context* x_scx;
static uint8_t x_sflg, x_ssid, x_said;
static uint32_t x_id; static uint8_t x_flg, x_sid, x_aid; static uint32_t x_p0; static int x_blki; static unsigned x_rflags;
static int x_script; static int x_handled, x_ran, x_rany;  /* x_script: 0 anything, 1 response to R[x_to], 2 error event for it, 3 dropped */
static int x_to;
static int x_expected_runs;
static int l_recv(struct gracht_link* l, struct gracht_buffer* b, unsigned flags)
{
    int i = blk(b->data);
    GV_ASSERT(l == &x_link, "C09: the client's link");
    GV_ASSERT(i >= 0 && x_blk[i].live && !x_blk[i].used && b->index <= g_max, "C09: receives into memory of its own");
    GV_ASSERT(b->index == g_max, "C09: a maximum message fits");
    GV_ASSERT(holds(x_thr) > 0, "C09: one receiver at a time");
    for (int k = 0; k < NLK; k++) if (k < x_nlk && x_lk[k].holder == x_thr) x_pump = x_lk[k].at;
    GV_ASSERT(!satisfied(x_thr), "C09,C10: never waits for requests that are already done");
    GV_ASSERT(!x_failed[x_thr], "C09,C10: gives up once receiving has failed");
    x_recvs++; x_rflags = flags;
    if (x_msgs == 0) { x_recvfail = 1; x_failed[x_thr] = 1; errno = gv_int(); return -1; }
    x_msgs--;
    x_blk[i].used = 1;
    x_id = gv_u32(); x_flg = gv_u8(); x_sid = gv_u8(); x_aid = gv_u8(); x_p0 = gv_u32();
#ifdef GV_MK /* a digit per message: response, event of the control service, event of a registered service, of another, anything else */
    static const int mk[3] = { GV_MK % 10, GV_MK / 10 % 10, GV_MK / 100 };
    switch (x_script ? 99 : mk[x_recvs - 1]) {
    case 0: x_flg = MESSAGE_FLAG_RESPONSE; break;
    case 1: x_flg = MESSAGE_FLAG_EVENT; x_sid = 0; break;
    case 2: x_flg = MESSAGE_FLAG_EVENT; x_sid = 9; break;
    case 3: x_flg = MESSAGE_FLAG_EVENT; GV_ASSUME(x_sid != 0 && x_sid != 9); break;
    case 4: GV_ASSUME((x_flg & 3) != MESSAGE_FLAG_RESPONSE && (x_flg & 3) != MESSAGE_FLAG_EVENT); break;
    case 5: x_flg = MESSAGE_FLAG_RESPONSE; x_id = R[0].id; break;
    case 6: x_flg = MESSAGE_FLAG_RESPONSE; x_id = R[1].id; break;
    case 7: x_flg = MESSAGE_FLAG_RESPONSE; x_id = 0x77; break; /* nobody's */
    case 8: x_flg = MESSAGE_FLAG_EVENT; x_sid = 0; x_aid = 2; x_p0 = R[0].id; break;
    case 9: x_flg = MESSAGE_FLAG_ASYNC; break;
    }
#endif
    if (x_script) {
        x_flg = x_script == 1 ? MESSAGE_FLAG_RESPONSE : x_script == 2 ? MESSAGE_FLAG_EVENT : MESSAGE_FLAG_ASYNC;
        x_id = x_script == 1 ? R[x_to].id : 0; x_sid = 0; x_aid = 2; x_p0 = x_script == 2 ? R[x_to].id : 0;
    }
    b->index = GV_OFF;
    *(uint32_t*)&b->data[GV_OFF] = x_id; b->data[GV_OFF + 8] = (char)x_sid; b->data[GV_OFF + 9] = (char)x_aid; b->data[GV_OFF + 10] = (char)x_flg;
    *(uint32_t*)&b->data[GV_OFF + 11] = x_p0; *(uint32_t*)&b->data[GV_OFF + 15] = 0;
    x_handled = 0;
    if ((x_flg & 3) == MESSAGE_FLAG_RESPONSE) {
        for (int k = 0; k < 3; k++) if (k < GV_N && R[k].st == OUT && R[k].id == x_id) { R[k].st = DONE; R[k].blk = i; x_handled = 1; }
    }
    if ((x_flg & 3) == MESSAGE_FLAG_EVENT && x_sid == 0 && x_aid == 2) {
        x_handled = 1;
        for (int k = 0; k < 3; k++) if (k < GV_N && R[k].st == OUT && R[k].id == x_p0) R[k].st = FAILED;
    }
    if ((x_flg & 3) == MESSAGE_FLAG_EVENT && x_sid == 9 && x_aid == 4) { x_expected_runs++; x_delivering = i; x_handled = 1; }
    return 0;
}
static int l_send(struct gracht_link* l, struct gracht_buffer* b, void* cx)
{
    GV_ASSERT(l == &x_link, "C09: the client's link");
    x_sends++; x_sdata = b->data; x_sidx = b->index; x_scx = cx;
    x_sid_ = *(uint32_t*)&b->data[0]; x_slen = *(uint32_t*)&b->data[4]; x_ssid = (uint8_t)b->data[8]; x_said = (uint8_t)b->data[9]; x_sflg = (uint8_t)b->data[10];
    x_sendret = !x_fixed && gv_bool() ? -1 : 0;
    return x_sendret;
}
static void app_event(gracht_client_t* c, gracht_buffer_t* b)
{
    int i = blk(b->data);
    x_ran++;
    GV_ASSERT(c == C, "C09: handler of this client");
    GV_ASSERT(i >= 0 && i == x_delivering && x_blk[i].live && b->index == GV_OFF + HDR, "C09: event payload right after the header");
    GV_ASSERT(holds(x_thr) == 0, "C10: application code runs with no lock held");
    x_delivering = -1;
}

static void* cl_malloc(size_t n); static void cl_free(void* p); static void* cl_memset(void* p, int c, size_t n);
static int gv_ht_construct(gr_hashtable_t* h, size_t cap, size_t size, hashtable_hashfn hf, hashtable_cmpfn cf);
static void gv_ht_destroy(gr_hashtable_t* h);
static void* gv_ht_get(gr_hashtable_t* h, const void* key);
static void* gv_ht_set(gr_hashtable_t* h, const void* e);
static void* gv_ht_remove(gr_hashtable_t* h, const void* key);
#undef mtx_init
#undef mtx_destroy
#undef mtx_trylock
#undef mtx_lock
#undef mtx_unlock
#undef cnd_init
#undef cnd_destroy
#undef cnd_wait
#undef cnd_signal
#undef cnd_broadcast
#define mtx_init(m, t) m_init(m)
#define mtx_destroy(m) m_destroy(m)
#define mtx_trylock(m) m_trylock(m)
#define mtx_lock(m) m_lock(m)
#define mtx_unlock(m) m_unlock(m)
#define cnd_init(c) c_init()
#define cnd_destroy(c) c_destroy(c)
#define cnd_wait(c, m) c_wait(c, m)
#define cnd_signal(c) c_signal(c)
#define cnd_broadcast(c) c_signal(c)
#define gr_hashtable_construct gv_ht_construct
#define gr_hashtable_destroy gv_ht_destroy
#define gr_hashtable_get gv_ht_get
#define gr_hashtable_set gv_ht_set
#define gr_hashtable_remove gv_ht_remove
#define gracht_arena_create gv_arena_create
#define gracht_arena_destroy gv_arena_destroy
#define gracht_arena_allocate gv_arena_allocate
#define gracht_arena_free gv_arena_free
#define malloc cl_malloc
#define free cl_free
#define memset cl_memset
#include "runtime/client.c"
#include "runtime/shared.c"
#define serialize_int c_serialize_int
#include "runtime/control.c"
#undef malloc
#undef free
#undef memset
int gracht_server_get_buffer(gracht_server_t* s, gracht_buffer_t* b) { (void)s; (void)b; return -1; }
int gracht_server_send_event(gracht_server_t* s, gracht_conn_t c, gracht_buffer_t* b, unsigned f) { (void)s; (void)c; (void)b; (void)f; return -1; }
int gracht_server_broadcast_event(gracht_server_t* s, gracht_buffer_t* b, unsigned f) { (void)s; (void)b; (void)f; return -1; }
void gracht_control_subscribe_invocation(const struct gracht_message* m, const uint8_t p) { (void)m; (void)p; }
void gracht_control_unsubscribe_invocation(const struct gracht_message* m, const uint8_t p) { (void)m; (void)p; }

/* typed storage: the client, its send buffer (of the configured size), an awaiter */
static char x_sbuf[64]; static int x_allocs, x_nomem; static struct gracht_client x_client; static struct gracht_message_awaiter x_awaiter; static int x_await_live;
static void* cl_malloc(size_t n)
{
    x_allocs++;
    if (x_allocs == 1 && n == sizeof(struct gracht_client)) return &x_client;
    if (x_allocs == 2 && !C) { GV_ASSERT(n == g_max, "C09: send buffer of the configured size"); return x_sbuf; }
    if (gv_malloc_may_fail && gv_bool()) { x_nomem = 1; return NULL; }
    if (n == sizeof(struct gracht_message_awaiter) && !x_await_live) { x_await_live = 1; return &x_awaiter; }
    return gv_malloc(n);
}
static void cl_free(void* p)
{
    if (p == &x_awaiter) { GV_ASSERT(x_await_live, "C10: awaiter released once"); x_await_live = 0; return; }
    if (p == &x_client || p == x_sbuf) return;
    gv_free(p);
}
static void* cl_memset(void* p, int c, size_t n)
{
    if (p == &x_client && c == 0 && n == sizeof x_client) { static const struct gracht_client zero; x_client = zero; return p; }
    return (memset)(p, c, n);
}
/* ---- maps ---------------------------------------------------------------------------- */
#define SLOTS 3
static struct { void* at; int used[SLOTS]; } x_map[3]; /* services, messages, awaiters */
static struct gracht_protocol x_pe[SLOTS], x_pswap; static struct gracht_message_descriptor x_me[SLOTS], x_mswap; static struct gracht_message_awaiter_entry x_ae[SLOTS], x_aswap;
static int mi(void* h) { return h == x_map[0].at ? 0 : h == x_map[1].at ? 1 : 2; }
static const struct gracht_message_descriptor x_gone = { 0x55555555, 0x55555555, 0x55555555, { (char*)0x5555, 0x55555555 } };
static void swap_gone(void) { x_mswap = x_gone; }
static unsigned x_set[3] = { 0, ~0u, ~0u }; /* locks that were held at every use so far */
static void held(int k)
{
    if (k == 0) return;
    unsigned now = 0;
    for (int i = 0; i < NLK; i++) if (i < x_nlk && x_lk[i].holder == x_thr) now |= 1u << i;
    x_set[k] &= now;
    GV_ASSERT(x_set[k], "C09,C10: table touched only under its lock");
}
static int gv_ht_construct(gr_hashtable_t* h, size_t cap, size_t size, hashtable_hashfn hf, hashtable_cmpfn cf)
{
    (void)cap; (void)hf;
    x_map[cf == protocol_cmp ? 0 : size == sizeof(struct gracht_message_awaiter_entry) ? 2 : 1].at = h;
    return 0;
}
static void gv_ht_destroy(gr_hashtable_t* h) { (void)h; }
static int same(int k, int i, const void* key)
{
    if (k == 0) return protocol_cmp(&x_pe[i], key) == 0;
    if (k == 1) return message_cmp(&x_me[i], key) == 0;
    return awaiter_cmp(&x_ae[i], key) == 0;
}
static int find(int k, const void* key) { for (int i = 0; i < SLOTS; i++) if (x_map[k].used[i] && same(k, i, key)) return i; return -1; }
static void* gv_ht_get(gr_hashtable_t* h, const void* key)
{
    int k = mi(h); held(k);
    int i = find(k, key);
    if (i < 0) return NULL;
    return k == 0 ? (void*)&x_pe[i] : k == 1 ? (void*)&x_me[i] : (void*)&x_ae[i];
}
static void* gv_ht_set(gr_hashtable_t* h, const void* e)
{
    int k = mi(h); held(k);
    int i = find(k, e), old = i >= 0;
    if (!old) { for (i = 0; i < SLOTS && x_map[k].used[i]; i++) ; GV_ASSUME(i < SLOTS); }
    x_map[k].used[i] = 1;
    if (k == 0) { x_pswap = x_pe[i]; x_pe[i] = *(const struct gracht_protocol*)e; return old ? &x_pswap : NULL; }
    if (k == 1) { x_mswap = x_me[i]; x_me[i] = *(const struct gracht_message_descriptor*)e; return old ? &x_mswap : NULL; }
    x_aswap = x_ae[i]; x_ae[i] = *(const struct gracht_message_awaiter_entry*)e; return old ? &x_aswap : NULL;
}
static void* gv_ht_remove(gr_hashtable_t* h, const void* key)
{
    int k = mi(h); held(k);
    int i = find(k, key);
    if (i < 0) return NULL;
    x_map[k].used[i] = 0;
    if (k == 0) { x_pswap = x_pe[i]; return &x_pswap; }
    if (k == 1) { x_mswap = x_me[i]; x_me[i] = x_gone; return &x_mswap; }
    x_aswap = x_ae[i]; return &x_aswap;
}
/* -------------------------------------------------------------------------------------- */
static struct gracht_protocol P; static struct gracht_protocol_function PF[1];
static void quiet(void) { GV_ASSERT(holds(1) == 0 && holds(2) == 0, "C09,C10: every lock is released"); }
static void setup(void)
{
    gracht_client_configuration_t cfg = { 0 };
    x_link.ops.client.recv = l_recv; x_link.ops.client.send = l_send; x_link.connection = 3;
    g_max = (uint32_t)gv_range(64, 1u << 28);
    cfg.link = &x_link; cfg.max_message_size = (int)g_max; cfg.recv_buffer_size = gv_int();
    gracht_client_t* c = NULL;
    GV_ASSERT(gracht_client_create(&cfg, &c) == 0, "C09: created");
    GV_ASSERT(x_arena_size >= 2 * (size_t)g_max, "C09: room for messages");
    C = c;
    P.id = 9; PF[0].id = 4; PF[0].address = (void*)app_event; P.num_functions = 1; P.functions = PF;
    gracht_client_register_protocol(C, &P);
    x_script = 3; x_msgs = 1; gracht_client_wait_message(C, NULL, GRACHT_MESSAGE_BLOCK); /* tells which lock guards receiving */
    GV_ASSERT(live() == 0, "C09: memory of a message that is not for us is given back");
    x_nblk = 0; x_blk[0].used = 0; x_script = 0; x_recvs = 0;
}
/* sends request k; its id is arbitrary but new */
static int request(int k)
{
    gracht_buffer_t b;
    GV_ASSERT(gracht_client_get_buffer(C, &b) == 0, "C09: send buffer");
    GV_ASSERT(holds(1) == 1 && b.data == x_sbuf && b.index == 0, "C09: the send buffer belongs to one request at a time");
    x_sbuf[8] = 7; x_sbuf[9] = 3; x_sbuf[10] = MESSAGE_FLAG_SYNC;
    b.index = x_fixed ? 40 : (uint32_t)gv_range(HDR, 0x7fffffff);
    uint32_t len = b.index;
    /* ids are only compared for equality: those of earlier requests are fixed, the new one is any */
    C->current_message_id = x_fixed ? 0x0100002au << k : gv_u32();
    int sends = x_sends;
    int r = gracht_client_invoke(C, &R[k].cx, &b);
    quiet();
    GV_ASSERT(x_sends == sends + 1 && x_sdata == x_sbuf && x_sidx == len, "C09: request sent exactly once");
    GV_ASSERT(x_slen == len, "C09: true length on the wire");
    GV_ASSERT(x_sid_ == R[k].cx.message_id && x_ssid == 7 && x_said == 3 && x_sflg == MESSAGE_FLAG_SYNC, "C09: its id on the wire");
    for (int i = 0; i < 3; i++) GV_ASSERT(i == k || R[i].st == NONE || R[i].id != R[k].cx.message_id, "C09: id unlike every outstanding request's");
    GV_ASSERT((r == 0) == (x_sendret == 0), "C09: status of the send");
    R[k].id = R[k].cx.message_id;
    R[k].st = r == 0 ? OUT : NONE;
    return r;
}
static void collect(int k)
{
    gracht_buffer_t b = { 0 };
    int st = R[k].st, bi = R[k].blk;
    int r = gracht_client_get_status_buffer(C, &R[k].cx, &b);
    quiet();
    if (st == NONE) GV_ASSERT(r == -1, "C09: nothing to collect");
    if (st == OUT) GV_ASSERT(r == GRACHT_MESSAGE_INPROGRESS, "C09: not answered yet");
    if (st == FAILED) GV_ASSERT(r == GRACHT_MESSAGE_ERROR, "C09: reported as failed");
    if (st == DONE) {
        GV_ASSERT(r == GRACHT_MESSAGE_COMPLETED && b.data == x_store[bi] && b.index == GV_OFF + HDR, "C09: the response with that id, payload after the header");
        GV_ASSERT(x_blk[bi].live, "C09: the response is still there");
        int n = live();
        GV_ASSERT(gracht_client_status_finalize(C, &b) == 0, "C09: collected");
        GV_ASSERT(live() == n - 1 && !x_blk[bi].live, "C09: its memory is given back");
    }
    if (st == DONE || st == FAILED) R[k].st = NONE;
}
static int done_blocks(void) { int n = 0; for (int k = 0; k < 3; k++) if (R[k].st == DONE) n++; return n; }
static void check_all(void)
{
    quiet();
    GV_ASSERT(live() == done_blocks(), "C09: memory kept exactly for responses not yet collected");
    for (int k = 0; k < GV_N; k++) collect(k);
    for (int k = 0; k < GV_N; k++) collect(k); /* exactly once */
    GV_ASSERT(live() == 0, "C09: all memory given back");
}
/* brings request k into an arbitrary state */
static void any_state(int k, int st)
{
    if (st == NONE) return;
    x_fixed = 1;
    GV_ASSERT(request(k) == 0, "C09: sent");
    x_fixed = 0;
    if (st == OUT) return;
    x_to = k; x_script = st == DONE ? 1 : 2; x_msgs = 1;
    GV_ASSERT(gracht_client_wait_message(C, NULL, GRACHT_MESSAGE_BLOCK) == 0, "C09: received");
    x_script = 0;
    GV_ASSERT(R[k].st == st, "C09: answered");
}
static void any_states(void)
{
#ifdef GV_ST
    const int st[3] = { GV_ST % 4, GV_ST / 4 % 4, GV_ST / 16 };
    for (int k = 0; k < GV_N; k++) any_state(k, st[k]);
#else
    for (int k = 0; k < GV_N; k++) any_state(k, (int)gv_range(NONE, FAILED));
#endif
    x_recvs = 0; x_recvfail = 0; x_msgs = GV_MSGS;
}
#ifndef GV_OTHER
#define GV_OTHER 0 /* what the other thread does: pump, or wait for the first request */
#endif
static void other_thread(void)
{
    x_thr = 2;
    if (GV_OTHER) { x_want[2].n = 1; x_want[2].req = 1; }
    int r = gracht_client_wait_message(C, GV_OTHER ? &R[0].cx : NULL, GRACHT_MESSAGE_BLOCK);
    (void)r;
    x_want[2].n = 0;
    x_thr = 1;
}
/* ---- entry points -------------------------------------------------------------------- */
void h_invoke(void)
{
    setup(); any_states();
    int was = R[0].st, id = R[0].id;
    if (R[1].st != NONE) return;
    int r = request(1);
    GV_ASSERT(R[0].st == was && (int)R[0].id == id, "C09: other requests unaffected");
    check_all();
    GV_COVER(r == 0, "sent"); GV_COVER(r != 0, "failed send");
}
void h_oneway(void)
{
    setup(); any_states();
    gracht_buffer_t b;
    gracht_client_get_buffer(C, &b);
    x_sbuf[8] = 7; x_sbuf[9] = 3; x_sbuf[10] = gv_bool() ? MESSAGE_FLAG_ASYNC : MESSAGE_FLAG_SYNC;
    b.index = (uint32_t)gv_range(HDR, 0x7fffffff);
    uint32_t len = b.index; int sends = x_sends, sync = x_sbuf[10] == MESSAGE_FLAG_SYNC;
    int r = gracht_client_invoke(C, NULL, &b);
    quiet();
    GV_ASSERT(sync || (x_sends == sends + 1 && x_slen == len && x_sidx == len && (r == 0) == (x_sendret == 0)), "C09: request sent exactly once");
    GV_ASSERT(!sync || (r == -1 && x_sends == sends), "C09: a request with an answer needs a context");
    check_all();
    GV_COVER(r == 0, "sent"); GV_COVER(sync, "refused");
}
void h_wait(void)
{
    setup(); any_states();
    unsigned flags = gv_bool() ? GRACHT_MESSAGE_BLOCK : 0;
    x_mayshort = 1;
    int r = gracht_client_wait_message(C, NULL, flags);
    x_mayshort = 0;
    GV_ASSERT(x_recvs == 0 || x_rflags == flags, "C09: blocks as asked");
    GV_ASSERT(x_ran == x_expected_runs, "C09: an event is handed to its handler once");
    GV_ASSERT(r == 0 || x_recvfail || x_shortage || !x_handled, "C09: a message that was handled is reported");
    GV_ASSERT(r != 0 || !x_recvfail, "C09: a failure to receive is reported");
    check_all();
    GV_COVER(1, "done");
}
void h_wait_for(void)
{
    setup(); any_states();
    unsigned flags = GV_ENV || gv_bool() ? GRACHT_MESSAGE_BLOCK : 0;
    int was = R[0].st;
    x_mayshort = 1; x_envs = GV_ENV ? 1 : 0;
    if (was != NONE) { x_want[1].n = 1; x_want[1].req = 1; }
    int r = gracht_client_wait_message(C, &R[0].cx, flags);
    x_mayshort = 0; x_want[1].n = 0; x_envs = 0;
    GV_ASSERT(r != 0 || (was != NONE && R[0].st != OUT), "C09,C10: returns success only once the request is done");
    GV_ASSERT(r == 0 || was == NONE || x_recvfail || x_shortage || (x_busy && !flags), "C09,C10: gives up only when receiving fails");
    GV_ASSERT(was == NONE || was == OUT || (r == 0 && (GV_ENV || x_recvs == 0)), "C09,C10: a request that is done needs no further traffic");
    GV_ASSERT(x_ran == x_expected_runs, "C09: an event is handed to its handler once");
    check_all();
    GV_COVER(1, "done");

}
void h_await(void)
{
    setup(); any_states();
    int all = GV_ALL, n = GV_N;
    struct gracht_message_context* cx[3] = { &R[0].cx, &R[1].cx, &R[2].cx };
    int req = all ? n : 1;
    x_mayshort = 1; gv_malloc_may_fail = GV_MSGS == 0; x_envs = GV_ENV ? 1 : 0;
    int before = not_out(n) >= req;
    x_want[1].n = n; x_want[1].req = req;
    int r = n == 1 ? gracht_client_await(C, cx[0], all ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY) : gracht_client_await_multiple(C, cx, n, all ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY);
    x_want[1].n = 0; x_mayshort = 0; gv_malloc_may_fail = 0; x_envs = 0;
    GV_ASSERT(r != 0 || not_out(n) >= req, "C10: returns success only when the requests are done");
    GV_ASSERT(r == 0 || x_recvfail || x_shortage || x_nomem, "C10: fails only when waiting failed");
    GV_ASSERT(!before || x_nomem || (r == 0 && (GV_ENV || x_recvs == 0)), "C10: requests that are done need no further traffic");
    GV_ASSERT(r == 0 || r == -1, "C10: status");
    GV_ASSERT(!x_map[2].used[0] && !x_map[2].used[1] && !x_map[2].used[2], "C10: nothing is left waiting");
    check_all();
    GV_COVER(1, "done");
}
/* another thread receives */
void h_await_async(void)
{
    setup(); any_states();
    int all = GV_ALL, n = GV_N;
    struct gracht_message_context* cx[3] = { &R[0].cx, &R[1].cx, &R[2].cx };
    int req = all ? n : 1;
    x_want[1].n = n; x_want[1].req = req; x_envs = GV_MSGS;
    int r = gracht_client_await_multiple(C, cx, n, GRACHT_AWAIT_ASYNC | (all ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY));
    x_want[1].n = 0; x_envs = 0;
    GV_ASSERT(r == 0 && not_out(n) >= req, "C10: returns only when the requests are done");
    GV_ASSERT(!x_map[2].used[0] && !x_map[2].used[1] && !x_map[2].used[2], "C10: nothing is left waiting");
    check_all();
    GV_COVER(1, "done");
}
