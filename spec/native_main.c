/* Native replay driver: feeds the recorded nondeterministic choices of a
 * verifier counterexample to the same harness, linked with the real code. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static uint64_t* vals; static size_t n, at;
uint64_t gv_nd(void) { if (at < n) return vals[at++]; if (++at > n + 4096) { fprintf(stderr, "GV-REPLAY: inputs exhausted\n"); _exit(3); } return 0; }
void gv_native_assume(int ok, const char* t, int line) { if (!ok) { fprintf(stderr, "GV-REPLAY: assumption does not hold (line %d): %s\n", line, t); _exit(3); } }
/* obligations tagged with other properties only ("C12,C13: ...") do not count here */
static int gv_foreign(const char* id) {
    const char* p = getenv("GV_PROP"); const char* c;
    if (!p || id[0] != 'C' || !(c = strchr(id, ':')) || c > id + 40) return 0;
    for (const char* q = id; q < c; q++) if (*q != 'C' && *q != ',' && (*q < '0' || *q > '9')) return 0;
    const char* f = strstr(id, p);
    return !(f && f < c);
}
void gv_native_assert(int ok, const char* id, const char* t, int line) { if (!ok && !gv_foreign(id)) { fprintf(stderr, "GV-REPLAY: FAILED %s (line %d): %s\n", id, line, t); _exit(42); } }
extern void GV_ENTRY(void);
int main(int argc, char** argv) {
    FILE* f = argc > 1 ? fopen(argv[1], "r") : NULL;
    unsigned long long v; size_t cap = 0;
    while (f && fscanf(f, "%llu", &v) == 1) { if (n == cap) { cap = cap ? 2 * cap : 256; vals = realloc(vals, cap * sizeof *vals); } vals[n++] = v; }
    if (f) fclose(f);
    alarm(getenv("GV_ALARM") ? atoi(getenv("GV_ALARM")) : 20);
    GV_ENTRY();
    fprintf(stderr, "GV-REPLAY: completed, no failure\n");
    return 0;
}
