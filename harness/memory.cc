// The allocator installed through the library's allocation hook: keeps the set of live blocks with the function that made
// them, insists that each is returned exactly once to the matching function, and can refuse the n-th request.
#include <roaring/memory.h>
#include <atomic>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
[[noreturn]] void fail(const char *fmt, ...);

static std::atomic_flag busy = ATOMIC_FLAG_INIT;
struct Lock { Lock() { while (busy.test_and_set(std::memory_order_acquire)) {} } ~Lock() { busy.clear(std::memory_order_release); } };
// open addressing; an entry is address | kind
static uintptr_t *table;
static size_t cap, used;
static std::atomic<long> live{0}, asked{0};
static std::atomic<long> refuse_at{0}, refuse_seen{0}, refused{0};
static bool refuse_all, spare_realloc;
static std::atomic<uint64_t> digest{0};      // of the live blocks
static FILE *trace;                           // calls of the hook, for the trace checker
static long trace_n;
static uint64_t mixp(uintptr_t p, int kind) { uint64_t h = (p + kind) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; return h * 0xBF58476D1CE4E5B9ull; }
enum { PLAIN = 1, ALIGNED = 2 };

static size_t slot(uintptr_t p) { return (size_t)((p >> 4) * 0x9E3779B97F4A7C15ull) & (cap - 1); }
static void put(uintptr_t e) {
    size_t i = slot(e & ~(uintptr_t)3);
    while (table[i]) i = (i + 1) & (cap - 1);
    table[i] = e;
}
static void insert(void *p, int kind) {
    Lock l;
    if (used * 2 >= cap) {
        uintptr_t *old = table;
        size_t n = cap;
        cap = cap ? cap * 2 : 1 << 14;
        table = (uintptr_t *)calloc(cap, sizeof *table);
        if (!table) _exit(2);
        for (size_t i = 0; i < n; i++) if (old[i]) put(old[i]);
        free(old);
    }
    put((uintptr_t)p | kind);
    used++;
    live++;
    digest += mixp((uintptr_t)p, kind);
    if (trace) { fprintf(trace, "get %zx %d\n", (size_t)p, kind); trace_n++; }
}
static void erase(void *p, int kind) {
    const char *why = nullptr;
    {
        Lock l;
        if (!cap) why = "a block that was never obtained from the allocator was returned to it";
        else {
            size_t i = slot((uintptr_t)p);
            while (table[i] && (table[i] & ~(uintptr_t)3) != (uintptr_t)p) i = (i + 1) & (cap - 1);
            if (!table[i]) why = "a block was returned twice, or never came from the allocator";
            else {
                if ((int)(table[i] & 3) != kind) why = kind == PLAIN ? "a block of aligned_malloc was given to free or realloc" : "a block of malloc was given to aligned_free";
                for (;;) {   // close the gap
                    table[i] = 0;
                    size_t j = i;
                    for (;;) {
                        j = (j + 1) & (cap - 1);
                        if (!table[j]) { i = SIZE_MAX; break; }
                        size_t h = slot(table[j] & ~(uintptr_t)3);
                        if (i <= j ? (h <= i || h > j) : (h <= i && h > j)) break;
                    }
                    if (i == SIZE_MAX) break;
                    table[i] = table[j];
                    i = j;
                }
                used--;
                live--;
                digest -= mixp((uintptr_t)p, kind);
                if (trace) { fprintf(trace, "ret %zx %d\n", (size_t)p, kind); trace_n++; }
            }
        }
    }
    if (why) fail("%s", why);
}
static bool refuse(bool re = false) {
    asked++;
    long at = refuse_at.load();
    if (at <= 0 || (re && spare_realloc)) return false;
    long k = ++refuse_seen;
    if (k != at && !(refuse_all && k > at)) return false;
    refused++;
    if (trace) { fprintf(trace, "refuse\n"); trace_n++; }
    return true;
}
static void *c_malloc(size_t n) { if (refuse()) return nullptr; void *p = malloc(n); if (p) insert(p, PLAIN); return p; }
// realloc(p, 0) releases p, as with the C library here
static void *c_realloc(void *p, size_t n) {
    if (p && !n) { erase(p, PLAIN); free(p); return nullptr; }
    if (refuse(true)) return nullptr;
    if (p) erase(p, PLAIN);
    void *q = realloc(p, n);
    if (q) insert(q, PLAIN); else if (p) insert(p, PLAIN);
    return q;
}
static void *c_calloc(size_t a, size_t b) { if (refuse()) return nullptr; void *p = calloc(a, b); if (p) insert(p, PLAIN); return p; }
static void c_free(void *p) { if (p) erase(p, PLAIN); free(p); }
static void *c_amalloc(size_t al, size_t n) { if (refuse()) return nullptr; void *p = nullptr; if (posix_memalign(&p, al, n)) return nullptr; insert(p, ALIGNED); return p; }
static void c_afree(void *p) { if (p) erase(p, ALIGNED); free(p); }
extern "C" void mem_install(void) {
    roaring_memory_t h = {c_malloc, c_realloc, c_calloc, c_free, c_amalloc, c_afree};
    roaring_init_memory_hook(h);
}
extern "C" long mem_outstanding(void) { return live.load(); }
extern "C" long mem_requests(void) { return asked.load(); }
extern "C" void mem_refuse(long nth, bool all) { refuse_all = all; refused = 0; refuse_seen = 0; refuse_at = nth; }
extern "C" void mem_spare_realloc(bool on) { spare_realloc = on; }
extern "C" uint64_t mem_digest(void) { return digest.load(); }
extern "C" void mem_trace(void *f) { trace = (FILE *)f; trace_n = 0; }
extern "C" long mem_traced(void) { return trace_n; }
extern "C" long mem_refused(void) { return refused.load(); }
