/* Common layer of every contract harness.
 *
 * The same harness text is used three ways:
 *   GV_CBMC + GV_DFCC   contracts are attached to the real functions and enforced
 *                       by goto-instrument --dfcc (deciding step)
 *   GV_CBMC             the same pre/postconditions as assume/assert around the call
 *   (neither)           native build (gcc -fsanitize=address,undefined) that replays
 *                       a verifier counterexample against the real code
 *
 * Every nondeterministic choice goes through gv_nd(), so the sequence of the
 * values of gv_rec in a counterexample trace is the complete input of a replay.
 */
#ifndef GV_H
#define GV_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <assert.h>

#ifdef GV_CBMC
uint64_t nondet_gv_u64(void);
static inline uint64_t gv_nd(void) { uint64_t gv_rec = nondet_gv_u64(); return gv_rec; }
#define GV_ASSUME(c)      __CPROVER_assume(c)
#define GV_ASSERT(c, id)  __CPROVER_assert(c, "GV:" id)
/* reachability guard: this assertion has to FAIL (driver checks) */
#define GV_REACH(id)      __CPROVER_assert(0, "GV-REACH:" id)
#define GV_COVER(c, id)   __CPROVER_assert(!(c), "GV-REACH:" id)
#else
extern uint64_t gv_nd(void);
extern void gv_native_assume(int ok, const char* text, int line);
extern void gv_native_assert(int ok, const char* id, const char* text, int line);
#define GV_ASSUME(c)      gv_native_assume(!!(c), #c, __LINE__)
#define GV_ASSERT(c, id)  gv_native_assert(!!(c), id, #c, __LINE__)
#define GV_REACH(id)      ((void)0)
#define GV_COVER(c, id)   ((void)0)
#endif

/* facts about the representation (not about behaviour): obligations of the proof, but never a
 * failing input by themselves in a native replay */
#ifdef GV_CBMC
#define GV_INV(c, id)     GV_ASSERT(c, id)
#else
#define GV_INV(c, id)     ((void)0)
#endif

/* contract clauses: real only under dfcc */
#ifdef GV_DFCC
#define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#define ENSURES(...)  __CPROVER_ensures(__VA_ARGS__)
#define ASSIGNS(...)  __CPROVER_assigns(__VA_ARGS__)
#define FREES(...)    __CPROVER_frees(__VA_ARGS__)
#define RESULT        __CPROVER_return_value
#define GV_POST(c, id) ((void)0)
#else
#define REQUIRES(...)
#define ENSURES(...)
#define ASSIGNS(...)
#define FREES(...)
#define GV_POST(c, id) GV_ASSERT(c, id)
#endif
#define GV_ASSERT2(c) GV_ASSERT(c, #c);
#define IMPLIES(a, b) (!(a) || (b))

/* errno as a plain lvalue so that frames can name it */
#undef errno
int gv_errno;
#define errno gv_errno

static inline uint32_t gv_u32(void) { return (uint32_t)gv_nd(); }
static inline uint16_t gv_u16(void) { return (uint16_t)gv_nd(); }
static inline uint8_t  gv_u8(void)  { return (uint8_t)gv_nd(); }
static inline int      gv_int(void) { return (int)(uint32_t)gv_nd(); }
static inline int      gv_bool(void) { return (int)(gv_nd() & 1); }
static inline uint64_t gv_range(uint64_t lo, uint64_t hi) { uint64_t v = gv_nd(); GV_ASSUME(v >= lo && v <= hi); return v; }

/* allocation under test control: may fail when gv_malloc_may_fail is set */
static int gv_malloc_may_fail;
static int gv_live_blocks;
static void* gv_malloc(size_t n) {
    if (gv_malloc_may_fail && gv_bool()) return NULL;
    void* p = (malloc)(n);
    GV_ASSUME(p != NULL);
    gv_live_blocks++;
    return p;
}
static void* gv_calloc(size_t n, size_t s) {
    void* p = gv_malloc(n * s);
    if (p) memset(p, 0, n * s);
    return p;
}
static void gv_free(void* p) { if (p) gv_live_blocks--; (free)(p); }

#endif
