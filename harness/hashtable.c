/* Contracts on runtime/hashtable.c: the table is a map from keys to elements.
 *
 * View: a slot with probeCount > 0 stores one element. Invariant WF (all of it, for every slot):
 *   the stored hash is the element's hash; a slot with probe count p lies p-1 slots (cyclically)
 *   behind the slot its hash selects; probe counts grow by at most one from a slot to the next
 *   (so no free slot lies between an element and its home); no two slots store the same key;
 *   element_count is the number of used slots and less than the capacity; thresholds as set up.
 * Every operation is proved from ANY table satisfying WF, so for every history. The key is
 * arbitrary (64 bit hash + 32 bit identity, colliding or not); the unit fixes capacity and the
 * home slot of the key, the units together cover all home slots. */
#include "gv.h"
#undef malloc
#undef free
#define malloc gv_malloc
#define free gv_free
struct kv { uint32_t key; uint32_t val; };
struct slot { uint16_t probeCount; uint64_t hash; struct kv p; };
#if defined(GV_CBMC) && !defined(GV_REALMEM)
/* copies of whole slots and whole elements as such (the verifier then need not take them apart) */
static struct slot gv_tmp;
static void* gv_memcpy(void* d, const void* s, size_t n)
{
    if (n == sizeof(struct slot)) *(struct slot*)d = *(const struct slot*)s;
    else if (n == sizeof(struct kv)) *(struct kv*)d = *(const struct kv*)s;
    else GV_ASSERT(0, "C02: copies whole elements");
    return d;
}
#include <string.h>
#include <alloca.h>
#define memcpy gv_memcpy
#undef alloca
#define alloca(n) ((n) == sizeof(struct slot) ? (void*)&gv_tmp : (void*)0)
#endif
#include "hashtable.h"
#ifdef GV_MIN /* the code is generic in the smallest capacity; small ones keep the proofs small */
#undef HASHTABLE_MINIMUM_CAPACITY
#define HASHTABLE_MINIMUM_CAPACITY GV_MIN
#endif
#include "runtime/hashtable.c"
#undef malloc
#undef free
#undef memcpy

#ifndef GV_CAP
#define GV_CAP 16
#endif
#ifndef GV_CAP2
#define GV_CAP2 GV_CAP
#endif
#ifdef GV_CBMC
static struct slot T[GV_CAP], T2[GV_CAP2]; static struct slot SW;
#else /* the real resize runs and releases the storage */
static struct slot *T, T2[GV_CAP2], SW;
#endif
static gr_hashtable_t H;
static struct kv K; /* ghost: the key the map's content is observed at */
static int resized, resize_failed; static uint32_t mask0;

/* 16 bit keys; bits 4..8 select the slot, bits 9..15 are the upper bits of a 64 bit hash, and 16
 * keys each share a hash */
#define HASH(k) ((uint64_t)(((k) >> 4) & 0x1F) | (uint64_t)(((k) >> 9) & 0x7F) << 57)
static uint64_t kv_hash(const void* e) { return HASH(((const struct kv*)e)->key); }
static int kv_cmp(const void* a, const void* b) { return ((const struct kv*)a)->key != ((const struct kv*)b)->key; }


/* what the map holds under a key: number of slots and the value */
static unsigned found(const struct slot* t, unsigned cap, uint32_t kk, uint32_t* val)
{
    unsigned n = 0;
    for (unsigned i = 0; i < cap; i++)
        if (t[i].probeCount && t[i].p.key == kk) { n++; *val = t[i].p.val; }
    return n;
}
static uint32_t used(const struct slot* t, unsigned cap) { uint32_t m = 0; for (unsigned i = 0; i < cap; i++) if (t[i].probeCount) m |= (uint32_t)1 << i; return m; }
#define GROW(cap) ((cap) * HASHTABLE_LOADFACTOR_GROW / 100)
#define SHRINK(cap) ((cap) * HASHTABLE_LOADFACTOR_SHRINK / 100)
#define FULL(cap) ((uint32_t)(((uint64_t)1 << (cap)) - 1))
static int one_bit(uint32_t m) { return m && !(m & (m - 1)); }
static int wf_slots(const struct slot* t, unsigned cap)
{
    int ok = 1;
    for (unsigned i = 0; i < cap; i++) {
        const struct slot *s = &t[i], *n = &t[(i + 1) % cap];
        if (s->probeCount)
            ok &= s->hash == HASH(s->p.key) && s->probeCount <= cap && ((unsigned)(s->hash) & (cap - 1)) == ((i + cap + 1 - s->probeCount) & (cap - 1));
        ok &= n->probeCount <= s->probeCount + 1;
    }
    return ok;
}
static int distinct(const struct slot* t, unsigned cap)
{
    int ok = 1;
    for (unsigned i = 0; i < cap; i++)
        for (unsigned j = i + 1; j < cap; j++)
            ok &= !(t[i].probeCount && t[j].probeCount && t[i].p.key == t[j].p.key);
    return ok;
}
static void any_slots(struct slot* t, unsigned cap)
{
    for (unsigned i = 0; i < cap; i++) {
        t[i].probeCount = gv_u8() & 63; t[i].p.key = gv_u16(); t[i].p.val = gv_u8();
        t[i].hash = HASH(t[i].p.key);
        GV_ASSUME(t[i].probeCount <= cap);
    }
    GV_ASSUME(wf_slots(t, cap) && distinct(t, cap));
}
static void fields(size_t cap, struct slot* t, size_t count)
{
    H.capacity = cap; H.element_count = count; H.grow_count = GROW(cap); H.shrink_count = (size_t)gv_range(0, SHRINK(cap));
    H.element_size = sizeof(struct slot); H.swap = &SW; H.elements = t; H.hash = kv_hash; H.cmp = kv_cmp;
}
/* contract of hashtable_resize: the same map in a table of the new capacity, or failure */
int gv_resize(gr_hashtable_t* h, size_t newCapacity)
{
    uint32_t v0 = 0, v1 = 0; unsigned n0, n1;
    GV_INV(h == &H && !resized, "C02: the table itself is resized, once");
    if (newCapacity < HASHTABLE_MINIMUM_CAPACITY) return 0;
    GV_INV(newCapacity == GV_CAP2 && h->element_count < newCapacity, "C02: the new capacity leaves room");
    resized = 1;
    if (resize_failed) return -1;
    n0 = found(T, GV_CAP, K.key, &v0);
    any_slots(T2, GV_CAP2);
    n1 = found(T2, GV_CAP2, K.key, &v1);
    mask0 = used(T2, GV_CAP2);
    GV_ASSUME(n0 == n1 && v0 == v1 && mask0 != FULL(GV_CAP2));
    fields(GV_CAP2, T2, H.element_count);
    return 0;
}
static void any_table(size_t count)
{
#ifndef GV_CBMC
    T = (calloc)(GV_CAP, sizeof(struct slot)); gv_live_blocks = 1;
#endif
    any_slots(T, GV_CAP);
    mask0 = used(T, GV_CAP);
    GV_ASSUME(mask0 != FULL(GV_CAP)); /* follows from count <= 75% */
    fields(GV_CAP, T, count);
    K.key = gv_u16(); K.val = 0; resized = 0; resize_failed = 0;
}
#ifndef GV_HOME
#define GV_HOME 0
#endif
#if !defined(GV_CBMC)
#define CAPN ((unsigned)H.capacity)
#define TN ((struct slot*)H.elements)
#elif GV_CAP2 != GV_CAP
#define CAPN GV_CAP2
#define TN T2
#else
#define CAPN GV_CAP
#define TN T
#endif
static void check_wf(void)
{
    struct slot* t = H.elements; unsigned cap = CAPN; uint32_t v;
    GV_INV(H.capacity == cap, "capacity");
    GV_INV(wf_slots(t, cap), "C02: every element can be reached from the slot its hash selects");
    GV_INV(H.grow_count == GROW(cap) && H.shrink_count <= SHRINK(cap) && H.element_size == sizeof(struct slot) && H.elements == (void*)t && H.swap == (void*)&SW, "bookkeeping");
    GV_ASSERT(found(t, cap, K.key, &v) <= 1, "C02: no key is stored twice");
}
/* the element or key of the call: home slot GV_HOME, the upper bits of its hash as the unit says
 * (concrete, so that the verifier follows the probe sequence; the table's own hashes are arbitrary) */
#ifndef GV_HI
#define GV_HI 0
#endif
#define ANY_HOMED(e) struct kv e; e.key = (uint32_t)GV_HI << 9 | (uint32_t)GV_HOME << 4 | (GV_HOME * 5 & 15); e.val = gv_u8()
void h_set(void)
{
    ANY_HOMED(e); uint32_t v0 = 0, v1 = 0, ve = 0; unsigned n0, n1, ne; struct kv* r;
    size_t count = (size_t)gv_range(0, GV_CAP - 1);
#if GV_CAP2 != GV_CAP
    count = GROW(GV_CAP);
#else
    GV_ASSUME(count <= GROW(GV_CAP) && count != GROW(GV_CAP));
#endif
    any_table(count);
    n0 = found(T, GV_CAP, K.key, &v0);
    r = gr_hashtable_set(&H, &e);
    check_wf();
    n1 = found(TN, CAPN, K.key, &v1);
    if (K.key == e.key) {
        GV_ASSERT(n1 == 1 && v1 == e.val, "C02: the stored element is found under its key");
        if (n0) GV_ASSERT(r && kv_cmp(r, &e) == 0 && r->val == v0, "C02: the replaced element is returned");
        else GV_ASSERT(!r, "C02: inserting a new key returns nothing");
        uint32_t mask1 = used(TN, CAPN);
        GV_INV(H.element_count == count + !n0, "C02: element_count counts the elements");
        GV_INV(n0 ? mask1 == mask0 : !(mask0 & ~mask1) && one_bit(mask1 & ~mask0), "C02: one slot more is used for a new key, none otherwise");
        GV_COVER(n0, "replace"); GV_COVER(!n0, "insert");
    } else
        GV_ASSERT(n1 == n0 && v1 == v0, "C02: storing one key leaves the others alone");
    GV_COVER(1, "set");
}
void h_get(void)
{
    ANY_HOMED(k); struct kv* r; uint32_t v0 = 0, v1 = 0; unsigned n0, n1;
    size_t count = (size_t)gv_range(0, GROW(GV_CAP));
    any_table(count);
    n0 = found(T, GV_CAP, k.key, &v0);
    struct slot keep[1]; unsigned g = (unsigned)gv_range(0, GV_CAP - 1); keep[0] = T[g];
    r = gr_hashtable_get(&H, &k);
    if (n0) GV_ASSERT(r && kv_cmp(r, &k) == 0 && r->val == v0, "C02: lookup finds what was stored");
    else GV_ASSERT(!r, "C02: lookup of an absent key finds nothing");
    GV_ASSERT(T[g].probeCount == keep[0].probeCount && T[g].hash == keep[0].hash && T[g].p.key == keep[0].p.key && T[g].p.val == keep[0].p.val && H.element_count == count, "C02: lookup changes nothing");
    GV_COVER(n0, "hit"); GV_COVER(!n0 && count, "miss");
    (void)n1; (void)v1;
}
void h_remove(void)
{
    ANY_HOMED(k); struct kv* r; uint32_t v0 = 0, v1 = 0, vk = 0; unsigned n0, n1;
    size_t count = (size_t)gv_range(0, GROW(GV_CAP));
#if GV_CAP2 != GV_CAP
    count = SHRINK(GV_CAP);
#endif
    any_table(count);
#if GV_CAP2 != GV_CAP
    H.shrink_count = count;
#elif GV_CAP > GV_MIN
    GV_ASSUME(count != H.shrink_count);
#endif
    n0 = found(T, GV_CAP, K.key, &v0);
    r = gr_hashtable_remove(&H, &k);
    check_wf();
    n1 = found(TN, CAPN, K.key, &v1);
    if (K.key == k.key) {
        GV_ASSERT(n1 == 0, "C02: a removed key is gone");
        if (n0) GV_ASSERT(r && kv_cmp(r, &k) == 0 && r->val == v0, "C02: the removed element is returned");
        else GV_ASSERT(!r, "C02: removing an absent key returns nothing");
        uint32_t mask1 = used(TN, CAPN);
        GV_INV(H.element_count == count - n0, "C02: element_count counts the elements");
        GV_INV(n0 ? !(mask1 & ~mask0) && one_bit(mask0 & ~mask1) : mask1 == mask0, "C02: one slot less is used after a removal");
        GV_COVER(n0, "removed"); GV_COVER(!n0, "absent");
    } else
        GV_ASSERT(n1 == n0 && v1 == v0, "C02: removing one key leaves the others alone");
    GV_COVER(1, "remove");
}

/* ---- resize: every element is stored in the new table, through the contract of set */
static unsigned s_calls, s_k; static uint32_t s_kval; static gr_hashtable_t* s_tab; static void* s_storage; static int s_bad;
void* gv_set(gr_hashtable_t* h, const void* element)
{
    const struct kv* e = element;
    if (!s_calls) {
        GV_INV(h != &H && h->capacity == GV_CAP2 && h->element_count == 0 && h->element_size == sizeof(struct slot) && h->hash == kv_hash && h->cmp == kv_cmp &&
                  h->grow_count == GROW(GV_CAP2) && h->shrink_count <= SHRINK(GV_CAP2) && h->elements && h->elements != (void*)T, "C02: the new table is empty and set up for its capacity");
        s_tab = h; s_storage = h->elements;
    }
    GV_INV(h == s_tab && h->elements == s_storage, "C02: elements go to one new table");
    s_calls++;
    h->element_count++;
    if (e->key == K.key) { s_k++; s_kval = e->val; }
    return 0;
}
void h_resize(void)
{
    uint32_t v0 = 0; unsigned n0; int r; size_t count;
    static struct slot heap[GV_CAP];
    count = (size_t)gv_range(0, GV_CAP);
    any_table(count);
#ifdef GV_CBMC
    gv_live_blocks = 1;
    struct slot* t = (malloc)(sizeof(struct slot) * GV_CAP); /* storage as the code owns it */
    GV_ASSUME(t != NULL);
    for (unsigned i = 0; i < GV_CAP; i++) t[i] = T[i];
    H.elements = t;
#endif
    gv_malloc_may_fail = 1;
    s_calls = 0; s_k = 0; s_kval = 0; s_storage = 0;
    n0 = found(T, GV_CAP, K.key, &v0);
    r = hashtable_resize(&H, GV_CAP2);
    if (r) {
        GV_ASSERT(s_calls == 0 && H.capacity == GV_CAP && gv_live_blocks == 1, "C02: a failed resize changes nothing");
    } else {
#ifdef GV_CBMC
        GV_ASSERT(s_k == n0 && (!n0 || s_kval == v0), "C02: every element is carried over once");
        GV_INV(!s_calls || H.elements == s_storage, "C02: the new storage is taken into use");
#else
        uint32_t v1 = 0; unsigned n1 = found(H.elements, H.capacity, K.key, &v1);
        GV_ASSERT(n1 == n0 && v1 == v0, "C02: every element is carried over once");
#endif
        GV_INV(H.capacity == GV_CAP2 && H.element_count == count && H.grow_count == GROW(GV_CAP2) && H.shrink_count <= SHRINK(GV_CAP2) &&
                  H.element_size == sizeof(struct slot) && H.swap == (void*)&SW && H.hash == kv_hash && H.cmp == kv_cmp, "C02: bookkeeping for the new capacity");
        GV_ASSERT(gv_live_blocks == 1, "C02: the old storage is released, the new one kept");
        unsigned i = (unsigned)gv_range(0, GV_CAP2 - 1);
        if (s_calls == 0) GV_ASSERT(((struct slot*)H.elements)[i].probeCount == 0, "C02: new storage starts empty");
        GV_COVER(n0, "carried over");
    }
    GV_COVER(r, "no memory");
}
static unsigned e_k, e_n; static uint32_t e_val; static int e_ctx;
static void en(int index, const void* element, void* ctx)
{
    const struct kv* e = element;
    (void)index;
    GV_ASSERT(ctx == &e_ctx, "C02: the caller's context is passed on");
    e_n++;
    GV_ASSERT(found(T, GV_CAP, e->key, &e_val) == 1 && e_val == e->val, "C02: only stored elements are visited");
    if (e->key == K.key) e_k++;
}
void h_enumerate(void)
{
    uint32_t v0 = 0; unsigned n0;
    size_t count = (size_t)gv_range(0, GV_CAP);
    any_table(count);
    e_k = 0; e_n = 0;
    n0 = found(T, GV_CAP, K.key, &v0);
    gr_hashtable_enumerate(&H, en, &e_ctx);
    GV_ASSERT(e_k == n0, "C02: every stored element is visited exactly once");
    GV_COVER(e_n == 12, "many"); GV_COVER(e_n == 0, "none");
}

void h_construct(void)
{
    size_t req = (size_t)gv_range(0, 40), i; int r;
    memset(&H, 0, sizeof H);
    gv_malloc_may_fail = 1; gv_live_blocks = 0;
    r = gr_hashtable_construct(&H, req, sizeof(struct kv), kv_hash, kv_cmp);
    if (r) { GV_ASSERT(gv_live_blocks == 0, "C02: a table that could not be set up keeps no memory"); return; }
    GV_INV(H.capacity >= req && H.capacity >= HASHTABLE_MINIMUM_CAPACITY && !(H.capacity & (H.capacity - 1)), "C02: capacity is a power of two that suffices");
    GV_INV(H.element_count == 0 && H.element_size == sizeof(struct slot) && H.grow_count == GROW(H.capacity) && H.shrink_count <= SHRINK(H.capacity) && H.hash == kv_hash && H.cmp == kv_cmp, "C02: bookkeeping");
    i = (size_t)gv_nd(); GV_ASSUME(i < H.capacity);
    GV_INV(((struct slot*)H.elements)[i].probeCount == 0, "C02: a new table is empty");
    GV_ASSERT(gv_live_blocks == 2, "storage");
    gr_hashtable_destroy(&H);
    GV_ASSERT(gv_live_blocks == 0, "C02: destroying releases everything once");
    GV_REACH("construct");
}
