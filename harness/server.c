/* Contracts on runtime/server.c (with runtime/shared.c and runtime/control.c), driven through
 * its public interface only. Callees are used through their contracts:
 *   hash table   exact map (C02), at most 3 entries in play per scenario, any handles
 *   rwlock       exclusion (C15): balanced, never self-deadlocking, maps only touched under it
 *   stack        last in first out, every pointer at most once (C04)
 *   arena        blocks of their own, trimmed or released (C01)
 *   worker pool  takes a message, later runs and releases it once (C03)
 *   link         the operations table with arbitrary results (C05/C07/C19)
 * Obligations carry the property they belong to in front of their text. */
#include "gv.h"
#include "thread_api.h"
#define union struct
#include "utils.h"
#undef union
#include "hashtable.h"
#include "stack.h"
#include "arena.h"
#include "aio.h"
#include "rwlock.h"
#include "logging.h"
#include "gracht/server.h"
#include "server_private.h"

#ifndef GV_OFF
#define GV_OFF 16 /* length of a sender address */
#endif
#ifndef GV_KIND
#define GV_KIND 0
#endif
#define HDR GRACHT_MESSAGE_HEADER_SIZE
static uint32_t g_max;               /* configured maximum message size */
static int g_mt;                     /* more than one worker */
static gracht_server_t* S;

/* ---- locks ------------------------------------------------------------------------- */
static struct { void* at; int readers, writer; } x_lk[2];
static int x_as_worker; static void env_release(int li);
static int lk(void* at) { if (x_lk[0].at == at) return 0; if (x_lk[1].at == at) return 1; return 2; }
static void gv_rw_init(struct rwlock* l) { if (!x_lk[0].at) x_lk[0].at = l; else x_lk[1].at = l; }
static void gv_rw_destroy(struct rwlock* l) { int i = lk(l); GV_ASSERT(i < 2 && !x_lk[i].readers && !x_lk[i].writer, "C14: lock destroyed while held"); }
static void gv_r_lock(struct rwlock* l) { int i = lk(l); GV_ASSERT(i < 2, "C14: a lock that exists"); GV_ASSERT(!x_lk[i].writer, "C12,C13,C14: would wait for itself (read under write)"); x_lk[i].readers++; }
static void gv_r_unlock(struct rwlock* l) { int i = lk(l); GV_ASSERT(i < 2 && x_lk[i].readers > 0, "C12,C13,C14: read lock released once per acquisition"); x_lk[i].readers--; env_release(i); }
static void gv_w_lock(struct rwlock* l) { int i = lk(l); GV_ASSERT(i < 2, "C14: a lock that exists"); GV_ASSERT(!x_lk[i].writer && !x_lk[i].readers, "C12,C13,C14: would wait for itself (write under lock)"); x_lk[i].writer = 1; }
static void gv_w_unlock(struct rwlock* l) { int i = lk(l); GV_ASSERT(i < 2 && x_lk[i].writer, "C12,C13,C14: write lock released once"); x_lk[i].writer = 0; env_release(i); }
static int locks_free(void) { return !x_lk[0].readers && !x_lk[0].writer && !x_lk[1].readers && !x_lk[1].writer; }

/* ---- maps (defined behind the include: typed storage) ------------------------------- */
static int gv_ht_construct(gr_hashtable_t* h, size_t cap, size_t size, hashtable_hashfn hf, hashtable_cmpfn cf);
static void gv_ht_destroy(gr_hashtable_t* h);
static void* gv_ht_get(gr_hashtable_t* h, const void* key);
static void* gv_ht_set(gr_hashtable_t* h, const void* e);
static void* gv_ht_remove(gr_hashtable_t* h, const void* key);
static void gv_ht_enumerate(gr_hashtable_t* h, hashtable_enumfn f, void* ctx);

/* ---- buffers lent for responses and events ----------------------------------------- */
static struct { char* p; size_t size; int pooled; } x_buf[3]; static int x_nbuf, x_pushes, x_pops;
struct gracht_server;
static int bufidx(const void* p) { for (int i = 0; i < 3; i++) if (i < x_nbuf && x_buf[i].p == p) return i; return -1; }
static int gv_stack_construct(struct stack* s, size_t n) { (void)s; (void)n; return 0; }
static void gv_stack_destroy(struct stack* s) { (void)s; }
static void gv_stack_push(struct stack* s, void* p)
{
    (void)s; int i = bufidx(p);
    x_pushes++;
    GV_ASSERT(i >= 0, "C04,C12: only lent buffers go to the pool");
    GV_ASSERT(i < 0 || !x_buf[i].pooled, "C04,C12,C13: a buffer goes back once");
    if (i >= 0) x_buf[i].pooled = 1;
}
static void* gv_stack_pop(struct stack* s)
{
    (void)s; x_pops++;
    for (int i = 0; i < 3; i++) if (i < x_nbuf && x_buf[i].pooled) { x_buf[i].pooled = 0; return x_buf[i].p; }
    return NULL;
}

/* ---- heap -------------------------------------------------------------------------- */
static void* x_recvbuf;
/* Memory of a size that depends on the configuration: its size is tracked as a ghost value and
 * checked against every use; the verifier is given the first bytes of it as storage (the code
 * itself touches only the headers, everything behind them is the link's and the handler's). */
#ifdef GV_CBMC
#define STORE(n) 192
#else
#define STORE(n) (n)
#endif
static size_t x_recvbuf_size; static int x_created;
static void* sv_malloc(size_t n);
static void sv_free(void* p)
{
    int i = bufidx(p);
    if (i >= 0) { GV_ASSERT(!x_buf[i].pooled, "C04: buffer freed while pooled"); x_buf[i].p = NULL; }
    gv_free(p);
}

/* ---- message memory ---------------------------------------------------------------- */
static struct { char* p; size_t size, remain; int live; int queued, running, ran; uint32_t msgsize; } x_blk[3]; static int x_nblk;
static int x_arena_live; static size_t x_arena_size; static int x_alloc_may_fail, x_shortages;
static struct gracht_arena* const x_arena = (struct gracht_arena*)0x7000;
static int blk(const void* p) { for (int i = 0; i < 3; i++) if (i < x_nblk && x_blk[i].p == p && x_blk[i].live) return i; return -1; }
static int live_blocks(void) { int n = 0; for (int i = 0; i < 3; i++) n += x_blk[i].live; return n; }
static int gv_arena_create(size_t size, struct gracht_arena** out) { if (gv_malloc_may_fail && gv_bool()) return -1; x_arena_size = size; x_arena_live++; *out = x_arena; return 0; }
static void gv_arena_destroy(struct gracht_arena* a) { GV_ASSERT(a == x_arena && x_arena_live == 1, "C14,C16: arena destroyed once"); GV_ASSERT(live_blocks() == 0, "C16: no message alive"); x_arena_live--; }
static void* gv_arena_allocate(struct gracht_arena* a, void* old, size_t size)
{
    GV_ASSERT(a == x_arena && old == NULL, "C16: message memory from the server's arena");
    if (x_alloc_may_fail && gv_bool()) { x_shortages++; return NULL; }
    GV_ASSUME(x_nblk < 3);
    char* p = (malloc)(STORE(size));
    GV_ASSUME(p != NULL);
    x_blk[x_nblk].p = p; x_blk[x_nblk].size = x_blk[x_nblk].remain = size; x_blk[x_nblk].live = 1;
    x_nblk++;
    return p;
}
static void gv_arena_free(struct gracht_arena* a, void* p, size_t size)
{
    int i = blk(p);
    if (!g_mt) return;
    GV_ASSERT(a == x_arena, "C16: released to the arena it came from");
    GV_ASSERT(i >= 0, "C16: released once, by its own address");
    if (i < 0) return;
    if (size == 0 || size >= x_blk[i].remain) {
        GV_ASSERT(!x_blk[i].running && !(x_blk[i].queued && !x_blk[i].ran), "C03,C16: not released before its handler has finished");
        x_blk[i].live = 0; (free)(p); return;
    }
    x_blk[i].remain -= size;
}

/* ---- links ------------------------------------------------------------------------- */
#define NCLI 4
static struct gracht_server_client x_cli[NCLI]; static int x_ncli, x_dead[NCLI], x_destroys[NCLI]; static struct gracht_link* x_cli_link[NCLI];
static struct gracht_link x_ls, x_lp; static int x_ls_conn, x_lp_conn; static int x_link_destroys;
static const gracht_handle_t x_set = 77;
static int x_accept_fail, x_create_fail, x_may_fail;
static int x_msgs, x_recv_calls;                       /* messages still to deliver */
static int x_recv_errno;
static uint8_t x_sid, x_aid, x_flg, x_arg; static uint32_t x_id, x_len, x_off; static int x_sender; /* next message */
static struct gracht_message* x_msg;                   /* message last received into */
static struct { int n; struct gracht_server_client* c; struct gracht_link* l; struct gracht_message* m; char* data; uint32_t id, len, idx; uint8_t sid, aid, flg; uint32_t p0; int p1; unsigned flags; int ret; } x_snd[2]; /* [0] client sends, [1] link sends */
static int x_sent_to[NCLI];
static int cli(struct gracht_server_client* c) { for (int i = 0; i < NCLI; i++) if (i < x_ncli && c == &x_cli[i]) return i; return -1; }
static int fresh_handle(void)
{
#ifndef GV_SYMH
    /* handles are only compared for equality: distinct values that agree in their low bytes stand
     * for all of them; the units with GV_SYMH leave them arbitrary */
    static const int hs[6] = { 0x00010007, (int)0x80000007, 0x02000007, 0x00000407, (int)0xff010007, 0x40000007 };
    static int n;
    return hs[n++];
#endif
    int h = gv_int();
    GV_ASSUME(h != GRACHT_CONN_INVALID && h != x_ls_conn && h != x_lp_conn);
    for (int i = 0; i < NCLI; i++) GV_ASSUME(i >= x_ncli || x_cli[i].handle != h);
    return h;
}
static int new_client(struct gracht_link* l, int handle, struct gracht_server_client** out)
{
    GV_ASSUME(x_ncli < NCLI);
    struct gracht_server_client* c = &x_cli[x_ncli];
    c->handle = handle; c->flags = 0;
    for (int i = 0; i < 8; i++) c->subscriptions[i] = 0;
    x_cli_link[x_ncli] = l; x_ncli++;
    *out = c;
    return 0;
}
static int l_accept(struct gracht_link* l, gracht_handle_t set, struct gracht_server_client** out)
{
    GV_ASSERT(l == &x_ls && set == x_set, "C14: accepts on the link that signalled");
    x_accept_fail = x_may_fail && gv_bool();
    if (x_accept_fail) { errno = gv_int(); return -1; }
    return new_client(l, fresh_handle(), out);
}
static int l_create(struct gracht_link* l, struct gracht_message* m, struct gracht_server_client** out)
{
    GV_ASSERT(l == &x_lp && m == x_msg, "C14: client created on the link and from the message it subscribed with");
    x_create_fail = x_may_fail && gv_bool();
    if (x_create_fail) return -1;
    return new_client(l, m->client, out);
}
static int l_destroy_client(struct gracht_server_client* c, gracht_handle_t set)
{
    int i = cli(c);
    GV_ASSERT(i >= 0 && set == x_set, "C14: releases a client of its own");
    if (i >= 0) { x_destroys[i]++; GV_ASSERT(!x_dead[i], "C14: client released once"); x_dead[i] = 1; }
    return 0;
}
static void room(struct gracht_message* m)
{
    x_recv_calls++;
    x_msg = m;
    GV_ASSERT(m->server == S, "C11,C16: message belongs to this server");
    if (g_mt) {
        int i = blk(m);
        GV_ASSERT(i >= 0, "C16: receives into memory of its own");
        if (i >= 0) GV_ASSERT(!x_blk[i].queued && x_blk[i].remain >= sizeof(struct gracht_message) + (size_t)m->index, "C16: as large as the link is told");
        for (int j = 0; j < 3; j++) if (j != i && x_blk[j].live) GV_ASSERT(x_blk[j].queued, "C16: earlier messages are with the workers or released");
    }
    if (!g_mt) GV_ASSERT((void*)m == x_recvbuf && x_recvbuf_size >= sizeof(struct gracht_message) + (size_t)m->index, "C16: as large as the link is told");
#ifndef GV_CBMC
    m->payload[m->index - 1] = 0;
#endif
    GV_ASSERT(m->index >= g_max && m->index >= HDR + 128, "C16: a maximum message fits");
}
static int deliver(struct gracht_message* m, int link, int client, uint32_t off)
{
    if (x_msgs == 0) { errno = x_recv_errno; return -1; }
    x_msgs--;
    x_len = (uint32_t)gv_range(HDR, 0xffffffff); GV_ASSUME(m->index >= off + HDR + 8 && x_len <= m->index - off);
    x_id = gv_u32(); x_sid = gv_u8(); x_aid = gv_u8(); x_flg = gv_u8(); x_arg = gv_u8(); x_off = off;
#ifdef GV_SID
    x_sid = GV_SID;
#endif
#ifdef GV_NOCTL /* control requests are the subject of h_subscription */
    GV_ASSUME(x_sid != 0);
#elif GV_KIND == 3
    GV_ASSUME(x_aid > 1);
#endif
    m->link = link; m->client = client; m->index = off; m->size = off + x_len;
    x_sender = client;
    *(uint32_t*)&m->payload[off] = x_id; *(uint32_t*)&m->payload[off + 4] = x_len;
    m->payload[off + 8] = x_sid; m->payload[off + 9] = x_aid; m->payload[off + 10] = x_flg;
    if (x_sid == 0) { GV_ASSUME(x_len > HDR); m->payload[off + 11] = x_arg; }
    if (g_mt) { int i = blk(m); if (i >= 0) x_blk[i].msgsize = m->size; }
    return 0;
}
static int l_recv_client(struct gracht_server_client* c, struct gracht_message* m, unsigned flags)
{
    int i = cli(c);
    GV_ASSERT(i >= 0 && !x_dead[i] && x_cli_link[i] == &x_ls, "C14: receives from a live client");
    GV_ASSERT(!(flags & GRACHT_MESSAGE_BLOCK), "C05: the dispatcher never blocks on one client");
    room(m);
    return deliver(m, x_ls_conn, c->handle, 0);
}
static int x_pkt_from;
static int l_recv(struct gracht_link* l, struct gracht_message* m, unsigned flags)
{
    GV_ASSERT(l == &x_lp, "C14: receives on the link that signalled");
    GV_ASSERT(!(flags & GRACHT_MESSAGE_BLOCK), "C05: the dispatcher never blocks on one link");
    room(m);
    return deliver(m, x_lp_conn, x_pkt_from, GV_OFF);
}
static void sent(int k, gracht_buffer_t* b, unsigned flags)
{
    x_snd[k].n++; x_snd[k].data = b->data; x_snd[k].idx = b->index; x_snd[k].flags = flags;
    x_snd[k].id = *(uint32_t*)&b->data[0]; x_snd[k].len = *(uint32_t*)&b->data[4];
    x_snd[k].sid = (uint8_t)b->data[8]; x_snd[k].aid = (uint8_t)b->data[9]; x_snd[k].flg = (uint8_t)b->data[10];
    if (b->index >= 19) { x_snd[k].p0 = *(uint32_t*)&b->data[11]; x_snd[k].p1 = *(int*)&b->data[15]; }
    int i = bufidx(b->data);
    GV_ASSERT(i < 0 || !x_buf[i].pooled, "C04,C12,C13: a buffer in the pool is not in use");
    x_snd[k].ret = gv_bool() ? -1 : 0;
}
static int l_send_client(struct gracht_server_client* c, gracht_buffer_t* b, unsigned flags)
{
    int i = cli(c);
    GV_ASSERT(i >= 0 && !x_dead[i], "C12,C13,C14: sends only to a live client");
    x_snd[0].c = c; if (i >= 0) x_sent_to[i]++;
    sent(0, b, flags);
    return x_snd[0].ret;
}
static int l_send(struct gracht_link* l, struct gracht_message* m, gracht_buffer_t* b)
{
    x_snd[1].l = l; x_snd[1].m = m;
    sent(1, b, 0);
    return x_snd[1].ret;
}
static gracht_conn_t l_setup(struct gracht_link* l, gracht_handle_t set) { GV_ASSERT(set == x_set, "C14: watched by the server's set"); return l == &x_ls ? x_ls_conn : x_lp_conn; }
static void l_destroy(struct gracht_link* l, gracht_handle_t set) { (void)l; (void)set; x_link_destroys++; }

/* ---- worker pool ------------------------------------------------------------------- */
static struct gracht_worker_pool* const x_pool = (struct gracht_worker_pool*)0x6000; static int x_pool_live, x_queued, x_workers;
static struct gracht_message* x_q[2];
int gracht_worker_pool_create(struct gracht_server* s, int n, struct gracht_worker_pool** out)
{
    (void)s;
    if (gv_malloc_may_fail && gv_bool()) return -1;
    x_workers = n; x_pool_live++; *out = x_pool; return 0;
}
void gracht_worker_pool_destroy(struct gracht_worker_pool* p) { GV_ASSERT(p == x_pool && x_pool_live == 1, "C14: pool destroyed once"); x_pool_live--; }
void gracht_worker_pool_dispatch(struct gracht_worker_pool* p, struct gracht_message* m)
{
    int i = blk(m);
    GV_ASSERT(p == x_pool && i >= 0, "C11,C16: a live message goes to the pool");
    if (i >= 0) {
        GV_ASSERT(!x_blk[i].queued, "C11,C16: each message is handed over once");
        x_blk[i].queued = 1;
        GV_ASSERT(x_blk[i].remain >= sizeof(struct gracht_message) + (size_t)x_blk[i].msgsize, "C16: never trimmed below the message");
    }
    if (x_queued < 2) x_q[x_queued] = m;
    x_queued++;
}

/* ---- application ------------------------------------------------------------------- */
static int x_conn_cb, x_disc_cb; static int x_conn_h, x_disc_h;
static void app_free_to_call(void) { GV_ASSERT(!x_lk[0].writer && !x_lk[1].writer, "C11,C14: application code runs with no exclusive lock held"); }
static int x_disc_order;
static void cb_connected(gracht_conn_t h) { x_conn_cb++; x_conn_h = h; app_free_to_call(); }
static void cb_disconnected(gracht_conn_t h) { x_disc_cb++; x_disc_h = h; app_free_to_call(); }
static int x_ran[3]; static struct gracht_message* x_ran_m; static char* x_ran_data; static uint32_t x_ran_idx;
static void handler(int k, struct gracht_message* m, gracht_buffer_t* b)
{
    x_ran[k]++; x_ran_m = m; x_ran_data = b->data; x_ran_idx = b->index;
    app_free_to_call();
    if (g_mt) { int i = blk(m); GV_ASSERT(i >= 0 && x_blk[i].remain >= sizeof(struct gracht_message) + (size_t)x_blk[i].msgsize, "C16: the message is intact while its handler runs"); }
    GV_ASSERT(m->client == x_sender && m->size == x_off + x_len, "C11: the handler sees the message received");
    GV_ASSERT(b->data == (char*)m->payload && b->index == x_off + HDR, "C11: payload right after the header");
    GV_ASSERT(*(uint32_t*)&m->payload[m->index] == x_id, "C11,C12: message id kept for the response");
}
static void app_f0(struct gracht_message* m, gracht_buffer_t* b) { handler(0, m, b); }
static void app_f1(struct gracht_message* m, gracht_buffer_t* b) { handler(1, m, b); }
static void app_g0(struct gracht_message* m, gracht_buffer_t* b) { handler(2, m, b); }

#define rwlock_init gv_rw_init
#define rwlock_destroy gv_rw_destroy
#define rwlock_r_lock gv_r_lock
#define rwlock_r_unlock gv_r_unlock
#define rwlock_w_lock gv_w_lock
#define rwlock_w_unlock gv_w_unlock
#define gr_hashtable_construct gv_ht_construct
#define gr_hashtable_destroy gv_ht_destroy
#define gr_hashtable_get gv_ht_get
#define gr_hashtable_set gv_ht_set
#define gr_hashtable_remove gv_ht_remove
#define gr_hashtable_enumerate gv_ht_enumerate
#define stack_construct gv_stack_construct
#define stack_destroy gv_stack_destroy
#define stack_push gv_stack_push
#define stack_pop gv_stack_pop
#define gracht_arena_create gv_arena_create
#define gracht_arena_destroy gv_arena_destroy
#define gracht_arena_allocate gv_arena_allocate
#define gracht_arena_free gv_arena_free
#define malloc sv_malloc
#define free sv_free
#ifdef GV_DEFER
static uint32_t g_k; static uint32_t x_cpy;
static void* df_memcpy(void* d, const void* s, size_t n)
{
#ifdef GV_CBMC
    __CPROVER_assert(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "GV:C18: copies within both messages");
    if (n >= sizeof(struct gracht_message)) *(struct gracht_message*)d = *(const struct gracht_message*)s;
    if (sizeof(struct gracht_message) + (size_t)g_k < n) ((uint8_t*)d)[sizeof(struct gracht_message) + g_k] = ((const uint8_t*)s)[sizeof(struct gracht_message) + g_k];
    return d;
#else
    return (memcpy)(d, s, n);
#endif
}
#define memcpy df_memcpy
#endif
#include "runtime/server.c"
#include "runtime/shared.c"
#define serialize_int c_serialize_int
#include "runtime/control.c"
#undef malloc
#undef free
#undef memcpy
static void* sv_malloc(size_t n)
{
    static int first = 1; int plain = first; first = 0; /* the server itself is allocated first */
    void* p = plain ? gv_malloc(n) : gv_malloc(STORE(n));
    if (!p || plain) return p;
    if (!x_created) { x_recvbuf = p; x_recvbuf_size = n; return p; }
    GV_ASSUME(x_nbuf < 3);
    x_buf[x_nbuf].p = p; x_buf[x_nbuf].size = n; x_buf[x_nbuf].pooled = 0; x_nbuf++;
    return p;
}
void gracht_control_error_invocation(gracht_client_t* c, const uint32_t id, const int e) { (void)c; (void)id; (void)e; }

/* ---- maps -------------------------------------------------------------------------- */
#define SLOTS 3
static struct { void* at; void* lock; int used[SLOTS]; } x_map[2];   /* [0] services, [1] clients */
static hashtable_cmpfn x_cmp[2];
static struct gracht_protocol x_pe[SLOTS], x_pswap; static struct client_wrapper x_ce[SLOTS], x_cswap;
static int mi(void* at) { return x_map[0].at == at ? 0 : 1; }
static void held(int k, int write)
{
    for (int i = 0; i < 2; i++) {
        if (x_lk[i].writer || (!write && x_lk[i].readers)) {
            if (!x_map[k].lock) x_map[k].lock = x_lk[i].at;
            if (x_map[k].lock == x_lk[i].at) return;
        }
    }
    GV_ASSERT(0, "C11,C12,C13,C14: registry touched only under its lock");
}
static int gv_ht_construct(gr_hashtable_t* h, size_t cap, size_t size, hashtable_hashfn hf, hashtable_cmpfn cf)
{
    (void)cap; (void)hf;
    int k = size == sizeof(struct gracht_protocol) ? 0 : 1;
    GV_ASSERT(k == 0 || size == sizeof(struct client_wrapper), "C11,C14: table of services or of clients");
    x_map[k].at = h; x_cmp[k] = cf;
    return 0;
}
static void gv_ht_destroy(gr_hashtable_t* h) { int k = mi(h); x_map[k].at = NULL; for (int i = 0; i < SLOTS; i++) x_map[k].used[i] = 0; }
static void* slot(int k, int i) { return k ? (void*)&x_ce[i] : (void*)&x_pe[i]; }
static void* gv_ht_get(gr_hashtable_t* h, const void* key)
{
    int k = mi(h); held(k, 0);
    for (int i = 0; i < SLOTS; i++) if (x_map[k].used[i] && x_cmp[k](slot(k, i), key) == 0) return slot(k, i);
    return NULL;
}
static void* gv_ht_set(gr_hashtable_t* h, const void* e)
{
    int k = mi(h); held(k, 1);
    for (int i = 0; i < SLOTS; i++) if (x_map[k].used[i] && x_cmp[k](slot(k, i), e) == 0) {
        if (k) { x_cswap = x_ce[i]; x_ce[i] = *(const struct client_wrapper*)e; return &x_cswap; }
        x_pswap = x_pe[i]; x_pe[i] = *(const struct gracht_protocol*)e; return &x_pswap;
    }
    for (int i = 0; i < SLOTS; i++) if (!x_map[k].used[i]) {
        x_map[k].used[i] = 1;
        if (k) x_ce[i] = *(const struct client_wrapper*)e; else x_pe[i] = *(const struct gracht_protocol*)e;
        return NULL;
    }
    GV_ASSUME(0);
    return NULL;
}
static void* gv_ht_remove(gr_hashtable_t* h, const void* key)
{
    int k = mi(h); held(k, 1);
    for (int i = 0; i < SLOTS; i++) if (x_map[k].used[i] && x_cmp[k](slot(k, i), key) == 0) {
        x_map[k].used[i] = 0;
        if (k) { x_cswap = x_ce[i]; x_ce[i] = (struct client_wrapper){ 0 }; return &x_cswap; }
        x_pswap = x_pe[i]; x_pe[i] = (struct gracht_protocol){ 0 }; return &x_pswap;
    }
    return NULL;
}
static void gv_ht_enumerate(gr_hashtable_t* h, hashtable_enumfn f, void* ctx)
{
    int k = mi(h); held(k, 0);
    for (int i = 0; i < SLOTS; i++) if (x_map[k].used[i]) f(i, slot(k, i), ctx);
}

/* ------------------------------------------------------------------------------------ */
static struct gracht_protocol P, Q; static struct gracht_protocol_function PF[2], QF[1];
static void setup(int links)
{
    gracht_server_configuration_t cfg = { 0 };
    g_max = (uint32_t)gv_range(HDR, 1u << 26);
    cfg.server_workers = GV_MT ? 2 : 1; cfg.max_message_size = g_max;
    g_mt = GV_MT;
    cfg.set_descriptor = x_set; cfg.set_descriptor_provided = 1;
    cfg.callbacks.clientConnected = cb_connected; cfg.callbacks.clientDisconnected = cb_disconnected;
    GV_ASSERT(gracht_server_create(&cfg, &S) == 0, "C14: created");
    x_created = 1;
    GV_ASSERT(!g_mt || x_workers == cfg.server_workers, "C03: as many workers as configured");
    x_ls.type = gracht_link_stream_based; x_lp.type = gracht_link_packet_based;
    x_ls_conn = 0x01000007; x_lp_conn = 7; /* only ever compared for equality */
    x_ls.connection = x_ls_conn; x_lp.connection = x_lp_conn;
#define OPS(l) l.ops.server.accept_client = l_accept; l.ops.server.create_client = l_create; l.ops.server.destroy_client = l_destroy_client; \
    l.ops.server.recv_client = l_recv_client; l.ops.server.send_client = l_send_client; l.ops.server.recv = l_recv; l.ops.server.send = l_send; \
    l.ops.server.setup = l_setup; l.ops.server.destroy = l_destroy;
    OPS(x_ls) OPS(x_lp)
    if (links & 1) GV_ASSERT(gracht_server_add_link(S, &x_ls) == 0, "C14: link added");
    if (links & 2) GV_ASSERT(gracht_server_add_link(S, &x_lp) == 0, "C14: link added");
    GV_ASSERT(locks_free(), "C14: locks released");
}
static void services(void)
{
    P.id = gv_u8(); Q.id = gv_u8(); GV_ASSUME(P.id != Q.id && P.id && Q.id);
    PF[0].id = gv_u8(); PF[1].id = gv_u8(); QF[0].id = gv_u8(); GV_ASSUME(PF[0].id != PF[1].id);
    PF[0].address = app_f0; PF[1].address = app_f1; QF[0].address = app_g0;
    P.num_functions = 2; P.functions = PF; Q.num_functions = 1; Q.functions = QF;
}
static void zero_counts(void) { x_conn_cb = x_disc_cb = 0; x_snd[0].n = x_snd[1].n = 0; for (int i = 0; i < NCLI; i++) x_sent_to[i] = 0; x_pushes = x_pops = 0; }
/* is client i registered, as seen through the public interface (a targeted event reaches it)? */
static gracht_buffer_t X; static char x_probe[64];
static int other_open;
static int get_buffer(gracht_buffer_t* b) { return gracht_server_get_buffer(S, b); }
static int registered(int i)
{
    GV_ASSERT(get_buffer(&X) == 0, "C04: buffer");
    X.index = 12; X.data[8] = 1;
    int n = x_snd[0].n, to = x_sent_to[i];
    int r = gracht_server_send_event(S, x_cli[i].handle, &X, 0);
    (void)r;
    GV_ASSERT(x_snd[0].n - n <= 1, "C12: an event is sent once");
    GV_ASSERT(x_snd[0].n == n || x_snd[0].c == &x_cli[i], "C12,C14: to the client of that handle only");
    return x_sent_to[i] - to;
}
/* connects one stream client; returns its number or -1 */
static int connect_stream(void)
{
    int n = x_ncli, cb = x_conn_cb;
    int r = gracht_server_handle_event(S, x_ls_conn, GRACHT_AIO_EVENT_IN);
    GV_ASSERT(locks_free(), "C14: locks released");
    if (x_ncli == n) { GV_ASSERT(x_conn_cb == cb && r != 0, "C14: no client, no callback"); return -1; }
    GV_ASSERT(r == 0 && x_conn_cb == cb + 1 && x_conn_h == x_cli[n].handle, "C14: one connect callback with its handle");
    for (int i = 0; i < 8; i++) GV_ASSERT(x_cli[n].subscriptions[i] == 0xffffffffu, "C13: stream clients start subscribed to everything");
    return n;
}
static uint8_t g_bit; /* any service, other than the two special values, watched for interference */
static int sub(int i, uint8_t s) { return (x_cli[i].subscriptions[s / 32] >> (s % 32)) & 1; }
static void any_subs(int i) { for (int k = 0; k < 8; k++) x_cli[i].subscriptions[k] = gv_u32(); }
/* connectionless client registered by subscribing to service s */
static int connect_packet(uint8_t s)
{
    static struct gracht_message mm[2]; static int mn; struct gracht_message* m = &mm[mn++];
    int n = x_ncli, cb = x_conn_cb;
    m->server = S; m->link = x_lp_conn; m->client = fresh_handle(); m->index = 16; m->size = 28;
    x_msg = m;
    gracht_control_subscribe_invocation(m, s);
    GV_ASSERT(locks_free(), "C14: locks released");
    if (x_ncli == n) { GV_ASSERT(x_conn_cb == cb && x_create_fail, "C14: no client, no callback"); return -1; }
    GV_ASSERT(x_conn_cb == cb + 1 && x_conn_h == m->client, "C14: one connect callback with its handle");
    return n;
}
static void env_release(int li)
{
    /* as a worker thread: while the clients' lock is not held the dispatcher may drop client 0 */
    if (x_as_worker && x_lk[li].at == x_map[1].lock && !x_lk[li].readers && !x_dead[0] && gv_bool()) {
        x_map[1].used[0] = 0; x_ce[0] = (struct client_wrapper){ 0 }; x_dead[0] = 1; /* the first client registered */
    }
}

/* ---- scenarios ----------------------------------------------------------------------- */
void h_connect(void)
{
    setup(1);
    int b = GV_OTHER ? connect_stream() : -1;
    zero_counts();
    x_may_fail = 1;
    int a = connect_stream();
    x_may_fail = 0;
    if (a >= 0) { GV_ASSERT(registered(a) == 1, "C14: registered"); GV_REACH("connected"); } else GV_REACH("accept fails");
    if (b >= 0) GV_ASSERT(registered(b) == 1, "C14: the other client is unaffected");
    GV_ASSERT(x_disc_cb == 0 && !x_dead[0] && !x_dead[1] && locks_free(), "C14: nobody dropped");
    
}
/* an event on a client's handle, or on a handle nobody has */
void h_client_event(void)
{
    setup(3); services();
    GV_ASSERT(gracht_server_register_protocol(S, &P) == 0, "C11: registered");
    int b = connect_stream(), a = connect_stream();
    any_subs(a); any_subs(b);
    uint32_t sb[8]; for (int i = 0; i < 8; i++) sb[i] = x_cli[b].subscriptions[i];
    zero_counts();
    int unknown = GV_KIND == 1;
    int h = unknown ? fresh_handle() : x_cli[a].handle;
    unsigned ev = gv_u32();
    x_alloc_may_fail = gv_bool(); x_msgs = GV_MSGS; x_recv_errno = (int)gv_range(1, 133); x_recv_calls = 0;
    int msgs = x_msgs;
    int r = gracht_server_handle_event(S, h, ev);
    x_alloc_may_fail = 0;
    GV_ASSERT(locks_free(), "C14,C16: locks released");
    int drop = !unknown && ((ev & GRACHT_AIO_EVENT_DISCONNECT) || (x_recv_calls && !x_shortages && x_msgs == 0 && x_recv_errno == EFAULT));
    GV_ASSERT(x_dead[a] == drop && x_destroys[a] == drop, "C14: dropped on disconnection or fatal error only, once");
    GV_ASSERT(x_disc_cb == drop && (!drop || x_disc_h == h), "C14: one disconnect callback with its handle");
    GV_ASSERT(x_conn_cb == 0, "C14: nobody connected");
    GV_ASSERT(!x_dead[b], "C14: other clients unaffected");
    for (int i = 0; i < 8; i++) GV_ASSERT(x_cli[b].subscriptions[i] == sb[i], "C13,C14: other clients unaffected");
    int reads = !unknown && !(ev & GRACHT_AIO_EVENT_DISCONNECT) && ((ev & GRACHT_AIO_EVENT_IN) || !ev);
    if (reads && !x_shortages) GV_ASSERT(x_msgs == 0 && x_recv_calls == msgs + 1, "C11: everything that arrived is handled");
    if (!reads) GV_ASSERT(x_recv_calls == 0, "C14: nothing is read without a client to read from");
    GV_ASSERT(x_shortages ? r == -1 && errno == ENOMEM : r == 0, "C16: a shortage is reported");
    int alive = 0;
    for (int i = 0; i < 3; i++) { alive += x_blk[i].live; GV_ASSERT(x_blk[i].live == x_blk[i].queued, "C16: released unless it is with a worker"); }
    GV_ASSERT(alive == x_queued, "C16: all message memory accounted for");
    GV_ASSERT(registered(b) == 1, "C14: other clients stay registered");
    GV_ASSERT(registered(a) == !drop, "C14: registered until dropped");
    GV_REACH("handled");
#if GV_KIND == 0
    GV_COVER(drop && !(ev & GRACHT_AIO_EVENT_DISCONNECT), "fatal error"); GV_COVER(msgs == GV_MSGS && x_recv_calls == GV_MSGS + 1, "messages");
#endif
#if GV_MT && GV_KIND == 0
    GV_COVER(x_shortages, "no memory");
#if GV_MSGS
    GV_COVER(x_queued, "to the workers");
#endif
#endif
}
/* exactly the addressed handler, on either kind of connection */
void h_invoke(void)
{
    setup(3); services();
    GV_ASSERT(gracht_server_register_protocol(S, &P) == 0, "C11: registered");
    int q = GV_KIND != 2; if (q) GV_ASSERT(gracht_server_register_protocol(S, &Q) == 0, "C11: registered");
    int a = connect_stream();
    int pkt = GV_KIND == 1; if (pkt) { a = connect_packet(1); x_pkt_from = x_cli[a].handle; }
    zero_counts();
    x_msgs = 1; x_recv_errno = pkt ? ENODATA : EAGAIN;
    gracht_server_handle_event(S, pkt ? x_lp_conn : x_cli[a].handle, GRACHT_AIO_EVENT_IN);
    int want = -1;
    if (x_sid == P.id) want = x_aid == PF[0].id ? 0 : x_aid == PF[1].id ? 1 : -1;
    if (x_sid == Q.id && q) want = x_aid == QF[0].id ? 2 : -1;
    if (g_mt && x_sid != 0) {
        GV_ASSERT(x_queued == 1 && x_ran[0] + x_ran[1] + x_ran[2] == 0 && x_snd[0].n == 0, "C11: left to a worker, once");
        int i = blk(x_q[0]); GV_ASSUME(i >= 0);
        x_blk[i].running = 1;
        server_invoke_action(S, x_q[0]);
        x_blk[i].running = 0; x_blk[i].ran = 1;
        server_cleanup_message(S, x_q[0]);
    } else GV_ASSERT(x_queued == 0, "C11: handled here");
    GV_ASSERT(live_blocks() == 0, "C16: released when handling ends");
    for (int k = 0; k < 3; k++) GV_ASSERT(x_ran[k] == (want == k), "C11: the addressed handler once, no other");
    GV_ASSERT(locks_free(), "C14: locks released");
    int control = x_sid == 0 && x_aid <= 1;
    if (want < 0 && !control) {
        GV_ASSERT(x_snd[0].n + x_snd[1].n == 1 && x_sent_to[a] == 1, "C11: one error event to the requesting client");
        GV_ASSERT(x_snd[0].sid == 0 && x_snd[0].aid == 2 && MESSAGE_FLAG_TYPE(x_snd[0].flg) == MESSAGE_FLAG_EVENT && x_snd[0].p0 == x_id && x_snd[0].p1 != 0 && x_snd[0].len == 19 && x_snd[0].idx == 19, "C11: carrying the request's message id");
    } else GV_ASSERT(x_snd[0].n == 0 && x_snd[1].n == 0, "C11: no error for a known request");
#if GV_KIND == 3
    GV_REACH("unknown control action");
#else
    GV_COVER(want == 0, "first"); GV_COVER(want == 1, "second"); GV_COVER(want < 0 && x_sid == P.id, "unknown action");
#endif
#if GV_KIND == 2
    GV_COVER(x_sid == Q.id, "unknown service");
#elif GV_KIND != 3
    GV_COVER(want == 2, "other service");
#endif
}
void h_register(void)
{
    setup(0); services();
    int same = gv_bool();
    GV_ASSERT(gracht_server_register_protocol(S, &P) == 0, "C11: registered");
    struct gracht_protocol D = { .id = same ? P.id : Q.id, .num_functions = 1, .functions = QF };
    int r = gracht_server_register_protocol(S, &D);
    GV_ASSERT(r == (same ? -1 : 0), "C11: a second registration is refused");
    GV_ASSERT(gracht_server_register_protocol(S, &(struct gracht_protocol){ .id = 0, .num_functions = 1, .functions = QF }) == -1, "C11: control service is taken");
    GV_ASSERT(gracht_server_register_protocol(S, NULL) == -1 && gracht_server_register_protocol(NULL, &P) == -1, "C11: refused");
    struct gracht_message* m = (malloc)(sizeof(struct gracht_message) + 64); GV_ASSUME(m != NULL);
    if (g_mt) { x_blk[0].p = (char*)m; x_blk[0].live = 1; x_blk[0].size = x_blk[0].remain = sizeof(*m) + 64; x_nblk = 1; }
    int phase = (int)gv_range(0, 2);
    if (phase == 1) gracht_server_unregister_protocol(S, &P);
    if (phase == 2) gracht_server_unregister_protocol(S, &D);
    x_sender = m->client = 5; m->server = S; m->index = x_off = 0; x_len = HDR; m->size = HDR; x_sid = gv_u8(); x_aid = gv_u8(); x_id = gv_u32();
    *(uint32_t*)&m->payload[0] = x_id; m->payload[8] = x_sid; m->payload[9] = x_aid; m->payload[10] = 0;
    GV_ASSUME(x_sid != 0);
    server_invoke_action(S, m);
    int want = -1;
    int p_there = !(phase == 1 || (phase == 2 && same)), q_there = !same && phase != 2;
    if (x_sid == P.id && p_there) want = x_aid == PF[0].id ? 0 : x_aid == PF[1].id ? 1 : -1;
    if (x_sid == Q.id && q_there) want = x_aid == QF[0].id ? 2 : -1;
    for (int k = 0; k < 3; k++) GV_ASSERT(x_ran[k] == (want == k), "C11: refused registrations change nothing, unregistered services are unreachable");
    GV_ASSERT(locks_free(), "C11,C14: locks released");
    GV_COVER(same && want == 1, "kept after refusal"); GV_COVER(phase == 1 && x_sid == P.id, "unregistered"); GV_COVER(phase == 1 && want == 2, "other kept");
}
/* the action table of a service of any size */
void h_action(void)
{
    static struct gracht_protocol_function F[256];
    struct gracht_protocol T; static gr_hashtable_t h; uint8_t want = gv_u8();
    gv_ht_construct(&h, 0, sizeof(T), protocol_hash, protocol_cmp); x_lk[0].at = &x_lk[0]; x_lk[0].writer = 1;
    T.id = gv_u8(); T.num_functions = gv_u8(); T.functions = F;
    int there = -1, k = (int)gv_range(0, 255);
    for (int i = 0; i < 256; i++) F[i].id = gv_u8();
    gv_ht_set(&h, &T);
    gracht_protocol_function_t* f = get_protocol_action(&h, T.id, want);
    if (f) { int n = (int)(f - F); GV_ASSERT(n >= 0 && n < T.num_functions && f->id == want, "C11: an action of that service with that id"); GV_REACH("found"); }
    else { if (k < T.num_functions) GV_ASSERT(F[k].id != want, "C11: not found only if absent"); GV_REACH("absent"); }
    uint8_t other = gv_u8();
    if (other != T.id) GV_ASSERT(get_protocol_action(&h, other, want) == NULL, "C11: no action of another service");
    (void)there;
}
/* responses */
static void check_back(char* data) { int i = bufidx(data); GV_ASSERT(x_pushes == 1 && i >= 0 && x_buf[i].pooled, "C12: the buffer goes back to the pool once"); GV_ASSERT(locks_free(), "C12,C14: locks released"); }
void h_respond(void)
{
    setup(3);
    int b = connect_stream(), a = connect_stream();
    int c = connect_packet(9);
    zero_counts(); x_as_worker = gv_bool();
    struct gracht_message* m = (malloc)(sizeof(struct gracht_message) + 160); GV_ASSUME(m != NULL);
    int who = (int)gv_range(0, 3); /* stream a, registered datagram c, unregistered datagram, gone */
    m->server = S; m->link = who == 0 ? x_ls_conn : who == 3 ? fresh_handle() : x_lp_conn;
    m->client = who == 0 ? x_cli[a].handle : who == 1 ? x_cli[c].handle : fresh_handle();
    m->index = (uint32_t)gv_range(0, 128); m->size = m->index + HDR;
    x_id = gv_u32(); *(uint32_t*)&m->payload[m->index] = x_id;
    gracht_buffer_t B; GV_ASSERT(get_buffer(&B) == 0, "C04: buffer");
    int bi = bufidx(B.data);
    GV_ASSERT(B.index == 0 && bi >= 0 && x_buf[bi].size >= g_max && !x_buf[bi].pooled, "C04: a buffer of its own, for the largest message");
    B.index = (uint32_t)gv_range(HDR, g_max);
    char* data = B.data; data[8] = 3; data[9] = 4; data[10] = MESSAGE_FLAG_RESPONSE;
    int r = gracht_server_respond(m, &B);
    check_back(data);
    int tot = x_snd[0].n + x_snd[1].n;
    if (who == 3) GV_ASSERT(r == -1 && tot == 0, "C12: nobody to answer: nothing sent, error");
    else if (who == 2) GV_ASSERT(tot == 1 && x_snd[1].n == 1 && x_snd[1].l == &x_lp && x_snd[1].m == m && r == x_snd[1].ret, "C12: back through the link it came from, once");
    else GV_ASSERT(tot == 1 && x_snd[0].n == 1 && x_sent_to[who == 0 ? a : c] == 1 && r == x_snd[0].ret, "C12: to the client that asked, once");
    if (tot) { int k = x_snd[1].n; GV_ASSERT(x_snd[k].id == x_id && x_snd[k].len == B.index && x_snd[k].idx == B.index && x_snd[k].data == data && x_snd[k].sid == 3 && x_snd[k].aid == 4, "C12: with the request's id and the true length"); }
    GV_COVER(who == 0 && r == 0, "stream"); GV_COVER(who == 1, "registered"); GV_COVER(who == 2, "datagram"); GV_COVER(who == 3, "gone");
    GV_ASSERT(gracht_server_respond(NULL, &B) == -1 && gracht_server_respond(m, NULL) == -1, "C12: refused");
    (void)b;
}
void h_send_event(void)
{
    setup(3);
    int b = connect_stream(), a = connect_stream();
    int c = connect_packet(9);
    any_subs(a); any_subs(c);
    zero_counts(); x_as_worker = gv_bool();
    int who = (int)gv_range(0, 3);
    int h = who == 0 ? x_cli[a].handle : who == 1 ? x_cli[c].handle : who == 2 ? x_cli[b].handle : fresh_handle();
    int i = who == 0 ? a : who == 1 ? c : b, was = x_as_worker;
    gracht_buffer_t B; GV_ASSERT(get_buffer(&B) == 0, "C04: buffer");
    B.index = (uint32_t)gv_range(HDR, g_max); char* data = B.data; data[8] = (char)gv_u8(); unsigned flags = gv_u32();
    int r = gracht_server_send_event(S, h, &B, flags);
    check_back(data);
    int tot = x_snd[0].n + x_snd[1].n;
    if (tot == 0) GV_ASSERT(r == -1 && (who == 3 || (who == 2 && was)), "C12: nothing sent only if the client is gone");
    else {
        GV_ASSERT(tot == 1 && who != 3 && x_sent_to[i] == 1 && r == x_snd[0].ret, "C12: to the named client, once");
        GV_ASSERT(x_snd[0].len == B.index && x_snd[0].idx == B.index && x_snd[0].data == data && x_snd[0].flags == flags, "C12: with the true length");
    }
    GV_COVER(who == 3, "gone"); GV_COVER(who == 1 && tot, "datagram"); GV_COVER(who == 0 && tot, "stream");
    GV_ASSERT(gracht_server_send_event(NULL, h, &B, flags) == -1 && gracht_server_send_event(S, h, NULL, flags) == -1, "C12: refused");
}
void h_broadcast(void)
{
    setup(3);
    int b = connect_stream(), a = connect_stream();
    int c = connect_packet(9);
    any_subs(a); any_subs(b); any_subs(c);
    int gone = gv_bool(); if (gone) gracht_server_handle_event(S, x_cli[b].handle, GRACHT_AIO_EVENT_DISCONNECT);
    zero_counts();
    uint8_t s = gv_u8(); unsigned flags = gv_u32();
    int wa = sub(a, s), wb = sub(b, s) && !gone, wc = sub(c, s);
    gracht_buffer_t B; GV_ASSERT(get_buffer(&B) == 0, "C04: buffer");
    B.index = (uint32_t)gv_range(HDR, g_max); char* data = B.data; data[8] = (char)s;
    gracht_server_broadcast_event(S, &B, flags);
    GV_ASSERT(x_sent_to[a] == wa && x_sent_to[b] == wb && x_sent_to[c] == wc, "C13: once to each subscribed registered client, to no other");
    GV_ASSERT(x_snd[0].n == wa + wb + wc && x_snd[1].n == 0, "C13: nothing else is sent");
    if (x_snd[0].n) GV_ASSERT(x_snd[0].len == B.index && x_snd[0].idx == B.index && x_snd[0].data == data && x_snd[0].sid == s && x_snd[0].flags == flags, "C13: with the true length");
    int i = bufidx(data); GV_ASSERT(x_pushes == 1 && i >= 0 && x_buf[i].pooled, "C12,C13: the buffer goes back to the pool once");
    GV_ASSERT(locks_free(), "C13,C14: locks released");
    GV_COVER(wa && wb && wc, "all"); GV_COVER(!wa && !wb && !wc, "none");
    GV_ASSERT(gracht_server_broadcast_event(NULL, &B, flags) == -1 && gracht_server_broadcast_event(S, NULL, flags) == -1, "C13: refused");
}
/* subscribe and unsubscribe requests, received as messages */
void h_subscription(void)
{
    setup(3); services();
    int b = connect_stream(), a = connect_stream();
    int kind = GV_KIND; /* 0 stream client a, 1 registered datagram client, 2 datagram client not seen before */
    if (kind == 1) { a = connect_packet(9); }
    if (kind != 2) { any_subs(a); if (kind == 1 && gv_bool()) x_cli[a].flags |= GRACHT_CLIENT_FLAG_CLEANUP; }
    any_subs(b); uint32_t sb[8]; for (int i = 0; i < 8; i++) sb[i] = x_cli[b].subscriptions[i];
    zero_counts();
    g_bit = gv_u8(); int was = kind == 2 ? 0 : sub(a, g_bit), n = x_ncli;
    x_pkt_from = kind == 2 ? fresh_handle() : x_cli[a].handle; int h = kind == 2 ? x_pkt_from : x_cli[a].handle;
    x_msgs = 1; x_recv_errno = kind ? ENODATA : EAGAIN; x_queued = 0; x_may_fail = 1;
    gracht_server_handle_event(S, kind ? x_lp_conn : h, GRACHT_AIO_EVENT_IN);
    GV_ASSUME(x_sid == 0 && x_aid <= 1);
    GV_ASSERT(locks_free(), "C13,C14: locks released");
    GV_ASSERT(x_queued == 0, "C14: registry changes are made by the dispatcher itself");
    int made = x_ncli > n; if (kind == 2) a = made ? n : -1;
    if (kind == 2) {
        GV_ASSERT(made == (x_aid == 0 && !x_create_fail), "C14: registered with the first subscription");
        GV_ASSERT(x_conn_cb == made && (!made || x_conn_h == h), "C14: one connect callback with its handle");
    } else GV_ASSERT(!made && x_conn_cb == 0, "C14: no second registration");
    int drop = kind == 1 && x_aid == 1 && x_arg == 0xff;
    GV_ASSERT(x_disc_cb == drop && (!drop || x_disc_h == h), "C14: one disconnect callback with its handle");
    if (a >= 0) {
        GV_ASSERT(x_destroys[a] == drop, "C14: dropped by unsubscribe-all on a connectionless link only");
        if (!drop) {
            int now = (x_arg == g_bit || x_arg == 0xff) ? (x_aid == 0) : was;
            GV_ASSERT(sub(a, g_bit) == now, "C13: exactly the last request counts, other services unchanged");
        }
        GV_ASSERT(registered(a) == !drop, "C14: registered exactly until dropped");
    }
    GV_ASSERT(!x_dead[b], "C14: other clients unaffected");
    for (int i = 0; i < 8; i++) GV_ASSERT(x_cli[b].subscriptions[i] == sb[i], "C13: other clients' subscriptions unchanged");
    GV_ASSERT(live_blocks() == 0, "C16: message released");
#if GV_KIND == 1
    GV_COVER(drop, "dropped"); GV_COVER(x_aid == 0 && x_arg == g_bit && !was, "subscribe");
#elif GV_KIND == 2
    GV_COVER(made, "registered"); GV_COVER(!made && x_aid == 0, "no memory for the client");
#else
    GV_COVER(x_arg == 0xff && x_aid == 1, "stream unsubscribe all");
#endif
}
/* a subscription through a link that is not there any more */
void h_subscribe_unknown(void)
{
    setup(1);
    struct gracht_message* m = (malloc)(sizeof(struct gracht_message) + 64); GV_ASSUME(m != NULL);
    m->server = S; m->link = fresh_handle(); m->client = fresh_handle(); m->index = 0; m->size = 12; x_msg = m;
    gracht_control_subscribe_invocation(m, gv_u8());
    gracht_control_unsubscribe_invocation(m, gv_u8());
    GV_ASSERT(x_ncli == 0 && x_conn_cb == 0 && x_disc_cb == 0 && locks_free(), "C14: nothing registered");
    GV_REACH("end");
}
void h_packet(void)
{
    setup(3); services();
    GV_ASSERT(gracht_server_register_protocol(S, &P) == 0, "C11: registered");
    int b = connect_stream();
    zero_counts();
    x_pkt_from = fresh_handle();
    x_alloc_may_fail = gv_bool(); x_msgs = GV_MSGS; x_recv_errno = (int)gv_range(1, 133);
    int msgs = x_msgs;
    int r = gracht_server_handle_event(S, x_lp_conn, gv_u32());
    x_alloc_may_fail = 0;
    GV_ASSERT(locks_free(), "C14,C16: locks released");
    GV_ASSERT(x_shortages ? r == -1 && errno == ENOMEM : x_recv_calls == msgs + 1, "C11,C16: everything that arrived is handled, or a shortage reported");
    int alive = 0;
    for (int i = 0; i < 3; i++) { alive += x_blk[i].live; GV_ASSERT(x_blk[i].live == x_blk[i].queued, "C16: released unless it is with a worker"); }
    GV_ASSERT(alive == x_queued, "C16: all message memory accounted for");
    GV_ASSERT(!x_dead[b] && x_disc_cb == 0, "C14: nobody dropped");
    GV_COVER(msgs == GV_MSGS && x_recv_calls == GV_MSGS + 1, "messages");
#if GV_MT
    GV_COVER(x_shortages, "no memory");
#endif
}
/* buffers lent one after the other */
void h_buffers(void)
{
    setup(1);
    int a = connect_stream();
    gracht_buffer_t A, B, C; gv_malloc_may_fail = gv_bool();
    int ra = get_buffer(&A), rb = get_buffer(&B);
    GV_ASSERT(ra == 0 || gv_malloc_may_fail, "C04: a buffer unless memory is short");
    if (ra || rb) { GV_ASSERT(gracht_server_get_buffer(NULL, &A) == -1, "C04: refused"); GV_REACH("short"); return; }
    int ia = bufidx(A.data), ib = bufidx(B.data);
    GV_ASSERT(ia >= 0 && ib >= 0 && A.data != B.data && A.index == 0 && B.index == 0, "C04: two users, two buffers");
    GV_ASSERT(x_buf[ia].size >= g_max && x_buf[ib].size >= g_max, "C04: each for the largest message");
    A.index = HDR; A.data[8] = 1;
    int h = gv_bool() ? x_cli[a].handle : fresh_handle();
    gracht_server_send_event(S, h, &A, 0);
    GV_ASSERT(x_buf[ia].pooled, "C04,C12: given back");
    int rc = get_buffer(&C);
    GV_ASSERT(rc == 0 && C.data == x_buf[ia].p && C.data != B.data && C.index == 0, "C04: reused, still not shared");
    GV_REACH("reuse");
}
/* the end of the server */
void h_shutdown(void)
{
    gv_live_blocks = 0;
    setup(3);
    int a = connect_stream(), b = GV_OTHER ? connect_stream() : -1;
    int c = GV_OTHER ? connect_packet(9) : -1;
    zero_counts();
    gracht_buffer_t A; int lent = GV_MSGS;
    if (lent) { GV_ASSERT(get_buffer(&A) == 0, "C04: buffer"); A.index = HDR; gracht_server_send_event(S, fresh_handle(), &A, 0); }
    gracht_server_request_shutdown(S);
    GV_ASSERT(gracht_server_register_protocol(S, &P) == -1 && gracht_server_add_link(S, &x_ls) == -1, "C14: no changes once stopping");
    int r = gracht_server_handle_event(S, gv_int(), gv_u32());
    GV_ASSERT(r == -1 && errno == EPIPE, "C14: reports that the server is gone");
    for (int i = 0; i < x_ncli; i++) GV_ASSERT(x_destroys[i] == 1, "C14: every client released once");
    GV_ASSERT(x_link_destroys == 2 && x_pool_live == 0 && x_arena_live == 0 && locks_free(), "C14: links, workers and memory released once");
    GV_ASSERT(gv_live_blocks == 0, "C04,C14: nothing kept");
    (void)a; (void)b; (void)c; GV_COVER(lent, "with buffers");
}
#ifdef GV_DEFER
void h_defer(void)
{
    uint32_t size = (uint32_t)gv_range(HDR, 1u << 28);
    g_k = gv_u32();
    struct gracht_message* in = (malloc)(sizeof(struct gracht_message) + (size_t)size); GV_ASSUME(in != NULL);
    in->server = (gracht_server_t*)0x4000; in->link = gv_int(); in->client = gv_int(); in->size = size; in->index = gv_u32(); GV_ASSUME(in->index <= size - HDR);
    uint8_t b = g_k < size ? (in->payload[g_k] = gv_u8()) : 0;
    struct gracht_message hd = *in;
    struct gracht_message* out = (malloc)(GRACHT_MESSAGE_DEFERRABLE_SIZE(in)); GV_ASSUME(out != NULL);
    gracht_server_defer_message(in, out);
    GV_ASSERT(in->server == hd.server && in->link == hd.link && in->client == hd.client && in->size == hd.size && in->index == hd.index, "C18: original unchanged");
    if (g_k < size) GV_ASSERT(in->payload[g_k] == b, "C18: original unchanged");
    in->server = NULL; in->link = in->client = -1; in->size = 0; in->index = ~0u; if (g_k < size) in->payload[g_k] = (uint8_t)~b; /* the original goes away */
    GV_ASSERT(out->server == hd.server && out->link == hd.link && out->client == hd.client, "C18: answers to the same client and link");
    GV_ASSERT(out->size == hd.size && out->index == hd.index, "C18: message id and payload found at the same place");
    if (g_k < size) GV_ASSERT(out->payload[g_k] == b, "C18: every byte of the message");
    gracht_server_defer_message(NULL, out); gracht_server_defer_message(in, NULL);
    GV_REACH("end");
}
#endif
