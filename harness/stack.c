/* Contracts on runtime/stack.c: a LIFO of pointers, shared between threads under its lock,
 * that grows on demand. View: elements[0 .. index-1]; monitor invariant: index <= count,
 * storage holds count entries.
 *
 * Monitor proof: outside the lock the fields are garbage (any other thread may be changing
 * them); acquiring the lock yields ANY state satisfying the invariant; every release must
 * re-establish the invariant and have performed nothing but the operation asked for. */
#include "gv.h"
#include "thread_api.h"
#include "stack.h"

#ifndef GV_MAXCOUNT
#define GV_MAXCOUNT ((size_t)1 << 24)
#endif
static struct stack S;
static unsigned g_index; static size_t g_count;
static unsigned g_k; static uintptr_t g_at_k, g_top; static uintptr_t g_push;
static int m_held, m_sections, m_pushes, m_pops, m_monitor;
#define ELEMS ((uintptr_t*)S.elements)

static void poison(void) { S.elements = NULL; S.index = gv_u32(); S.count = (size_t)gv_nd(); }
static void any_stack(void)
{
    g_count = (size_t)gv_range(1, GV_MAXCOUNT);
    g_index = (unsigned)gv_range(0, GV_MAXCOUNT);
    GV_ASSUME(g_index <= g_count);
    uintptr_t* e = (malloc)(sizeof(uintptr_t) * g_count);
    GV_ASSUME(e != NULL);
    gv_live_blocks++;
#ifndef GV_CBMC
    for (size_t i = 0; i < g_count; i++) e[i] = 0x1000 + i * 16;
#endif
    S.elements = (void*)e; S.index = g_index; S.count = g_count;
    g_at_k = g_k < g_index ? e[g_k] : 0;
    g_top = g_index ? e[g_index - 1] : 0;
}
static int gv_mtx_lock(mtx_t* m)
{
    (void)m;
    GV_ASSERT(!m_held, "lock taken while already held");
    m_held = 1;
    if (m_monitor) any_stack();
    return 0;
}
static int gv_mtx_unlock(mtx_t* m)
{
    (void)m;
    GV_ASSERT(m_held, "unlock without lock");
    m_held = 0;
    if (!m_monitor) return 0;
    m_sections++;
    GV_ASSERT(S.index <= S.count, "index within storage");
    GV_ASSERT(S.count >= g_count, "storage never shrinks");
    GV_ASSERT(gv_live_blocks == 1, "storage owned exactly once");
    if (S.index == g_index + 1) {
        GV_ASSERT(ELEMS[g_index] == g_push, "pushed pointer is on top");
        m_pushes++;
        if (g_k < g_index) GV_ASSERT(ELEMS[g_k] == g_at_k, "pointers below keep their place");
    } else if (S.index == g_index) {
        if (g_k < g_index) GV_ASSERT(ELEMS[g_k] == g_at_k, "pointers keep their place");
    } else {
        GV_ASSERT(g_index && S.index == g_index - 1, "at most one pointer put in or taken out");
        m_pops++;
        if (g_index && g_k < g_index - 1) GV_ASSERT(ELEMS[g_k] == g_at_k, "pointers below keep their place");
    }
    gv_live_blocks--;
    (free)((void*)S.elements);
    poison();
    return 0;
}
static int gv_mtx_init(mtx_t* m, int t) { (void)m; (void)t; return 0; }
static void gv_mtx_destroy(mtx_t* m) { (void)m; }
/* contract of memcpy on 8-byte elements: checked for room, exact at the ghost position */
static void* gv_memcpy(void* d, const void* s, size_t n)
{
#ifdef GV_REALCPY
    for (size_t i = 0; i < n / sizeof(uintptr_t); i++) ((uintptr_t*)d)[i] = ((const uintptr_t*)s)[i];
    return d;
#elif defined(GV_CBMC)
    __CPROVER_assert(__CPROVER_r_ok(s, n), "GV:memcpy source readable");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "GV:memcpy destination writable");
    __CPROVER_havoc_slice(d, n);
    if (((size_t)g_k + 1) * 8 <= n) __CPROVER_assume(((uint64_t*)d)[g_k] == ((const uint64_t*)s)[g_k]);
    return d;
#else
    return (memcpy)(d, s, n);
#endif
}
#define mtx_init gv_mtx_init
#define mtx_lock gv_mtx_lock
#define mtx_unlock gv_mtx_unlock
#define mtx_destroy gv_mtx_destroy
#define malloc gv_malloc
#define free gv_free
#define memcpy gv_memcpy
#include "runtime/stack.c"
#undef malloc
#undef free
#undef memcpy

static void begin(void) { g_k = gv_u32(); m_monitor = 1; poison(); gv_live_blocks = 0; }

void h_push(void)
{
    begin();
    gv_malloc_may_fail = gv_bool();
    void* p = (void*)(uintptr_t)gv_nd();
    g_push = (uintptr_t)p;
    stack_push(&S, p);
    GV_ASSERT(!m_held, "lock released");
    GV_ASSERT(m_pops == 0, "a push takes nothing out");
    GV_ASSERT(m_pushes == (p != NULL) || (m_pushes == 0 && gv_malloc_may_fail && g_index == g_count), "exactly one pointer put in, unless memory for growing is missing");
    GV_COVER(g_index == g_count && m_pushes == 1, "push with growth");
    GV_COVER(g_index < g_count && m_pushes == 1, "push without growth");
    GV_COVER(m_pushes == 0 && p, "growth fails");
}
void h_pop(void)
{
    begin();
    void* r = stack_pop(&S);
    GV_ASSERT(!m_held, "lock released");
    GV_ASSERT(m_pushes == 0, "a pop puts nothing in");
    GV_ASSERT(m_sections >= 1, "pop looks at the pool");
    if (m_pops == 0) GV_ASSERT(r == NULL && g_index == 0, "only the empty pool hands out nothing");
    else GV_ASSERT(m_pops == 1 && (uintptr_t)r == g_top, "pop returns the top, once");
    GV_COVER(g_index == 0, "empty"); GV_COVER(r != NULL, "pop");
}
/* life cycle through the public API only, any of the sequences of N operations */
#ifndef GV_OPS
#define GV_OPS 6
#endif
void h_life(void)
{
    struct stack s; size_t n = (size_t)gv_range(0, 2);
    uintptr_t model[GV_OPS + 1]; unsigned top = 0;
    stack_push(NULL, &s); GV_ASSERT(stack_pop(NULL) == NULL, "no pool, no pointer");
    int r = stack_construct(gv_bool() ? &s : NULL, n);
    GV_ASSERT(r == 0 || gv_live_blocks == 0, "nothing kept on failure");
    if (r == 0) {
        GV_ASSERT(n > 0, "constructed");
        for (int i = 0; i < GV_OPS; i++) {
            if (gv_bool()) {
                uintptr_t p = (uintptr_t)(gv_nd() & 0xff);
                stack_push(&s, (void*)p);
                if (p) model[top++] = p;
            } else {
                void* p = stack_pop(&s);
                GV_ASSERT((uintptr_t)p == (top ? model[top - 1] : 0), "last in, first out");
                if (top) top--;
            }
        }
        GV_COVER(top == GV_OPS, "filled up");
        stack_destroy(&s);
    }
    GV_ASSERT(gv_live_blocks == 0, "storage released");
}
void h_construct(void)
{
    struct stack s; size_t n = (size_t)gv_range(0, 1 << 20);
    gv_malloc_may_fail = 1;
    int r = stack_construct(gv_bool() ? &s : NULL, n);
    if (r == 0) {
        GV_ASSERT(n > 0 && gv_live_blocks == 1, "constructed");
        ((uintptr_t*)s.elements)[n - 1] = 1;
        GV_ASSERT(s.count == n && s.index == 0, "empty, with the asked-for room");
        stack_destroy(&s);
        GV_REACH("constructed");
    }
    stack_destroy(NULL);
    GV_ASSERT(gv_live_blocks == 0, "storage released");
}
