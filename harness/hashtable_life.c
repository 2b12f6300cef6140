/* Bounded stand-in for the contracts of runtime/hashtable.c, public interface only: pseudo-random
 * histories against a reference map, with keys that collide and wrap around the table's end. */
#include "gv.h"
#include "hashtable.h"
#include "runtime/hashtable.c"
struct kv { uint32_t key, val; uint8_t more[7]; };
static uint64_t homes[40];
static uint64_t kh(const void* e) { return homes[((const struct kv*)e)->key]; }
static int kc(const void* a, const void* b) { return ((const struct kv*)a)->key != ((const struct kv*)b)->key; }
static uint64_t rs;
static uint32_t rnd(uint32_t n) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(rs >> 33) % n; }
static int seen[40]; static uint32_t ref[40]; static int has[40];
static void en(int i, const void* e, void* c) { (void)i; const struct kv* k = e; (*(int*)c)++; GV_ASSERT(k->key < 40 && has[k->key] && ref[k->key] == k->val, "C02: enumeration visits only stored elements"); seen[k->key]++; }
void h_life(void)
{
    for (int s = 0; s < 6000; s++) {
        gr_hashtable_t t; unsigned nk = 4 + rnd(36), bias = rnd(3), spread = 1 + rnd(40);
        rs = (uint64_t)s * 7919 + 17;
        for (int i = 0; i < 40; i++) { homes[i] = (uint64_t)rnd(spread) + 13 + ((uint64_t)rnd(3) << 62); has[i] = 0; }
        if (gr_hashtable_construct(&t, rnd(40), sizeof(struct kv), kh, kc)) continue;
        for (int o = 0; o < 120; o++) {
            struct kv e; memset(&e, 0, sizeof e); e.key = rnd(nk); e.val = rnd(1 << 30); e.more[6] = (uint8_t)e.val;
            unsigned what = rnd(4);
            if (what <= (o < 60 ? 1u : 0u)) {
                struct kv* r = gr_hashtable_set(&t, &e);
                GV_ASSERT(has[e.key] ? r && r->key == e.key && r->val == ref[e.key] && r->more[6] == (uint8_t)r->val : !r, "C02: storing returns the replaced element or nothing");
                has[e.key] = 1; ref[e.key] = e.val;
            } else if (what != 3 || bias) {
                struct kv* r = gr_hashtable_remove(&t, &e);
                GV_ASSERT(has[e.key] ? r && r->key == e.key && r->val == ref[e.key] && r->more[6] == (uint8_t)r->val : !r, "C02: removing returns the removed element or nothing");
                has[e.key] = 0;
            }
            for (unsigned k = 0; k < nk; k++) {
                struct kv q; memset(&q, 0, sizeof q); q.key = k;
                struct kv* r = gr_hashtable_get(&t, &q);
                GV_ASSERT(has[k] ? r && r->key == k && r->val == ref[k] && r->more[6] == (uint8_t)r->val : !r, "C02: lookup returns what was last stored");
            }
            if (o % 8 == 0) {
                int n = 0, m = 0; memset(seen, 0, sizeof seen);
                gr_hashtable_enumerate(&t, en, &n);
                for (int k = 0; k < 40; k++) { m += has[k]; GV_ASSERT(seen[k] == has[k], "C02: enumeration visits every element once"); }
                GV_ASSERT(n == m, "C02: enumeration visits nothing else");
            }
        }
        gr_hashtable_destroy(&t);
    }
}
