/* Contracts on runtime/queue.c: a bounded FIFO of non-NULL pointers.
 * Abstract view: the sequence elements[i % capacity], dequeue_index <= i < queue_index
 * (indices are free-running unsigned counters). */
#include "gv.h"
#include "queue.h"

/* ghost: state before the call, and an arbitrary logical position g_k */
static unsigned g_q, g_d, g_cap, g_k;
static uintptr_t g_at_k, g_front;
static uintptr_t* g_elems;

#define Q_LEN(q) ((q)->queue_index - (q)->dequeue_index)
#define Q_WF(q)  ((q)->capacity != 0 && Q_LEN(q) <= (q)->capacity)
#define K_LIVE   (g_k - g_d < g_q - g_d)

static _Bool q_wf(struct gr_queue* q) { return Q_WF(q); }

#define ENQUEUE_POST(E, R) \
    E(IMPLIES(!queue || !pointer, R == -1)) \
    E(IMPLIES(queue && pointer && g_q - g_d < g_cap, \
        R == 0 && queue->queue_index == g_q + 1u && queue->elements[g_q % g_cap] == (uintptr_t)pointer)) \
    E(IMPLIES(queue && (!pointer || g_q - g_d == g_cap), R == -1 && queue->queue_index == g_q)) \
    E(IMPLIES(queue, queue->dequeue_index == g_d && queue->capacity == g_cap && queue->elements == g_elems)) \
    E(IMPLIES(queue && K_LIVE, queue->elements[g_k % g_cap] == g_at_k)) \
    E(IMPLIES(queue, Q_WF(queue)))

#define DEQUEUE_POST(E, R) \
    E(IMPLIES(!queue, R == NULL)) \
    E(IMPLIES(queue && g_q == g_d, R == NULL && queue->dequeue_index == g_d)) \
    E(IMPLIES(queue && g_q != g_d, (uintptr_t)R == g_front && queue->dequeue_index == g_d + 1u)) \
    E(IMPLIES(queue, queue->queue_index == g_q && queue->capacity == g_cap && queue->elements == g_elems)) \
    E(IMPLIES(queue && K_LIVE, queue->elements[g_k % g_cap] == g_at_k)) \
    E(IMPLIES(queue, Q_WF(queue)))

#define CONSTRUCT_POST(E, R) \
    E(IMPLIES(!queue || !capacity, R == -1)) \
    E(R == 0 || R == -1) \
    E(IMPLIES(R == 0, queue->capacity == capacity && Q_LEN(queue) == 0 && queue->elements != NULL))

int gr_queue_enqueue(struct gr_queue* queue, void* pointer)
REQUIRES(queue == NULL || q_wf(queue))
ENQUEUE_POST(ENSURES, RESULT)
ASSIGNS(gv_errno; queue: queue->queue_index, __CPROVER_object_whole(queue->elements))
;
void* gr_queue_dequeue(struct gr_queue* queue)
REQUIRES(queue == NULL || q_wf(queue))
DEQUEUE_POST(ENSURES, RESULT)
ASSIGNS(gv_errno; queue: queue->dequeue_index)
;
#define malloc gv_malloc
#define free gv_free
#include "runtime/queue.c"
#undef malloc
#undef free
#define CHK(c) GV_POST(c, #c);

static struct gr_queue Q;
static void any_queue(void) {
#ifdef GV_SMALL
    unsigned cap = (unsigned)gv_range(1, 4);
    Q.capacity = 1u << cap;
    uintptr_t* e = malloc(sizeof(uintptr_t) * 16);
    for (int i = 0; i < 16; i++) e[i] = (uintptr_t)gv_nd();
#else
    /* every capacity that divides the 2^32 counter range; the library uses 32 */
    unsigned sh = (unsigned)gv_range(0, 24);
    Q.capacity = 1u << sh;
    uintptr_t* e = malloc(sizeof(uintptr_t) * (size_t)Q.capacity);
    GV_ASSUME(e != NULL);
#endif
    Q.elements = e;
    Q.queue_index = gv_u32();
    Q.dequeue_index = gv_u32();
    GV_ASSUME(q_wf(&Q));
    g_q = Q.queue_index; g_d = Q.dequeue_index; g_cap = Q.capacity; g_elems = e;
    g_k = gv_u32();
    g_at_k = e[g_k % g_cap];
    g_front = e[g_d % g_cap];
}

void h_enqueue(void) {
    any_queue();
    struct gr_queue* queue = gv_bool() ? &Q : NULL;
    void* pointer = (void*)(uintptr_t)gv_nd();
    int r = gr_queue_enqueue(queue, pointer);
    ENQUEUE_POST(CHK, r)
    GV_COVER(r == 0 && g_q < g_d, "enqueue across counter wrap");
    GV_COVER(r != 0 && queue && pointer, "enqueue on full");
}

void h_dequeue(void) {
    any_queue();
    struct gr_queue* queue = gv_bool() ? &Q : NULL;
    void* r = gr_queue_dequeue(queue);
    DEQUEUE_POST(CHK, r)
    GV_COVER(r != NULL && g_q < g_d, "dequeue across counter wrap");
    GV_COVER(queue && r == NULL && g_q == g_d, "dequeue on empty");
}

/* lifecycle: construct then any use, memory owned exactly once */
void h_construct(void) {
    struct gr_queue q; struct gr_queue* queue = gv_bool() ? &q : NULL;
    unsigned capacity = gv_u32();
    GV_ASSUME(capacity <= (1u << 26));
    gv_malloc_may_fail = 1;
    int r = gr_queue_construct(queue, capacity);
    CONSTRUCT_POST(GV_ASSERT2, r)
    if (r == 0) {
        queue->elements[capacity - 1] = 1; /* storage really holds capacity entries */
        GV_ASSERT(gv_live_blocks == 1, "one storage block");
        GV_REACH("constructed");
        gr_queue_destroy(queue);
    }
    GV_ASSERT(gv_live_blocks == 0, "storage released");
}
