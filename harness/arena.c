/* Contracts on runtime/arena.c.
 *
 * Abstract view: the arena storage is tiled by blocks (header + payload), each in use
 * or free. A release or trim concerns one block and the free block behind it, so its
 * contract is local: for ANY storage contents and size, the region from the block to
 * the end of that neighbour is re-tiled as specified and no byte outside it changes. */
#include "gv.h"
#include <threads.h>
static int gv_locked;
static int gv_mtx_lock(mtx_t* m)   { (void)m; gv_locked++; return thrd_success; }
static int gv_mtx_unlock(mtx_t* m) { (void)m; GV_ASSERT(gv_locked > 0, "unlock of a lock that is not held"); gv_locked--; return thrd_success; }
static int gv_mtx_init(mtx_t* m, int t) { (void)m; (void)t; return thrd_success; }
static void gv_mtx_destroy(mtx_t* m) { (void)m; }
#define mtx_lock gv_mtx_lock
#define mtx_unlock gv_mtx_unlock
#define mtx_init gv_mtx_init
#define mtx_destroy gv_mtx_destroy
/* libc memmove for the 4-byte header moves, as its definition */
static void* gv_memmove(void* d, const void* s, size_t n)
{
    GV_ASSERT(n == sizeof(uint32_t), "only headers are moved");
    uint32_t v = *(const uint32_t*)s;
    *(uint32_t*)d = v;
    return d;
}
#define memmove gv_memmove
#define malloc gv_malloc
#define free gv_free
#include "runtime/arena.c"
#undef memmove
#undef malloc
#undef free

#ifndef GV_BLOCKS
#define GV_BLOCKS 3
#endif
#ifdef GV_STORE
#define GV_MAXN ((size_t)GV_STORE)
#endif
#ifndef GV_MAXN
#define GV_MAXN ((size_t)0x3FFFFFFF)
#endif
#define HS ((size_t)HEADER_SIZE)

static struct gracht_arena A;
static size_t N;
static char* M;

/* one header, read with a single 4-byte access */
struct view { size_t len; _Bool used; };
static struct view hdr(size_t o)
{
    struct { union { uint32_t raw; char bytes[sizeof(struct gracht_header)]; } u; } x = { 0 };
    struct view v;
    x.u.raw = *(uint32_t*)(M + o);
    v.len  = ((struct gracht_header*)x.u.bytes)->length;
    v.used = ((struct gracht_header*)x.u.bytes)->allocated;
    return v;
}
/* the pre-state has this header at o */
static void given_hdr(size_t o, size_t len, _Bool used)
{
    struct { union { uint32_t raw; char bytes[sizeof(struct gracht_header)]; } u; } x = { 0 };
    ((struct gracht_header*)x.u.bytes)->length = (uint32_t)len;
    ((struct gracht_header*)x.u.bytes)->allocated = used;
#ifdef GV_CBMC
    __CPROVER_assume(*(uint32_t*)(M + o) == x.u.raw);
#else
    *(uint32_t*)(M + o) = x.u.raw;
#endif
}
static void storage(void)
{
#ifdef GV_STORE
    static char store[GV_STORE];
    M = store;
    for (size_t i = 0; i < GV_STORE; i++) store[i] = (char)gv_nd();
#else
    M = malloc(N);
    GV_ASSUME(M != NULL);
#endif
#ifndef GV_CBMC
    memset(M, 0xA5, N);
#endif
    A.base = (struct gracht_header*)M;
    A.length = N;
}

/* ghost byte: an arbitrary address and its value before the call */
static size_t gx; static char gb;
static void ghost(void) { gx = (size_t)gv_nd(); GV_ASSUME(gx < N); gb = M[gx]; }

/* ---- release and trim --------------------------------------------------- */
void h_free(void)
{
    size_t k, l, next, nl = 0, e;
    _Bool  nfree = 0;
    k = (size_t)gv_range(0, GV_MAXN);
    l = (size_t)gv_range(0, GV_MAXN);
    next = k + HS + l;
    if (gv_bool()) {
        nl = (size_t)gv_range(0, GV_MAXN);
        nfree = gv_bool();
        e = nfree ? next + HS + nl : next;
        N = next + HS + nl + (size_t)gv_range(0, GV_MAXN); /* rest of the arena */
    } else {
        N = e = next;                                       /* last block */
    }
    GV_ASSUME(N <= GV_MAXN);
    storage();
    given_hdr(k, l, 1);
    if (next < N) given_hdr(next, nl, !nfree);
    ghost();
    size_t size = (size_t)gv_nd();

    gracht_arena_free(&A, M + k + HS, size);

    GV_ASSERT(gv_locked == 0, "arena lock released");
    if (gx < k || gx >= e) GV_ASSERT(M[gx] == gb, "nothing outside the released block and its free neighbour changes");
    struct view b = hdr(k);
    GV_ASSERT(b.len <= e - k - HS, "block stays inside its region");
    size_t o = k + HS + b.len;
    if (size == 0 || size >= l) {
        GV_ASSERT(!b.used, "released block is free");
        GV_ASSERT(b.len >= l, "released block is not cut short");
    } else {
        GV_ASSERT(b.used, "trimmed block stays in use");
        GV_ASSERT(b.len == l - size || (size < 2 * HS && b.len == l), "trim gives back exactly the tail");
        if (gx >= k + HS && gx < k + HS + b.len) GV_ASSERT(M[gx] == gb, "remaining contents of a trimmed block unchanged");
    }
    /* what is left of the region is tiled by free blocks */
    for (int i = 0; i < 2; i++)
        if (o < e) {
            GV_ASSERT(e - o >= HS, "room for a header");
            struct view f = hdr(o);
            GV_ASSERT(!f.used && f.len <= e - o - HS, "remainder is free blocks");
            o += HS + f.len;
        }
    GV_ASSERT(o == e, "region tiled exactly");
    GV_COVER(next == N && size == 0, "release last block");
    GV_COVER(next == N && size > 16 && size < l, "trim last block");
    GV_COVER(next < N && !nfree && size > 16 && size < l, "trim before used block");
    GV_COVER(nfree && size > 16 && size < l, "trim before free block");
}
