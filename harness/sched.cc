// Threads under a scheduler, for the binding of spec/Sharing.tla and spec/Threads.tla.
//
// The library is compiled with -fsanitize=thread and linked with the runtime below instead of the sanitizer's: exactly one
// thread runs at a time, control changes hands at accesses to atomic variables (and at calls of the allocator), and every
// plain access to memory obtained from the allocator, or to the program's data, is checked against the happens-before order
// of the C11 memory model (relaxed, release and acquire operations, fences, release sequences).
#include "sched.hh"

#include <pthread.h>
#include <roaring/memory.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <unordered_map>
#include <vector>

[[noreturn]] void fail(const char *fmt, ...);

extern "C" void *__real_memset(void *, int, size_t);
namespace {
const int MAXT = 4;
typedef uint32_t clk_t;
struct VC {
    clk_t c[MAXT];
    void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Thr {
    int id;
    pthread_t th;
    sem_t go;
    bool live;
    VC clk, rel /* at the last release fence */, pend /* read by relaxed loads since */;
    uintptr_t slo, shi;  // its stack
    const std::function<void()> *f;
};
Thr thr[MAXT];
int nthr;
bool running;
thread_local Thr *me;
uint32_t phase = 0;

// ---- memory: one arena, never reused within a behaviour
const size_t ARENA = (size_t)1 << 31;
char *arena;
size_t top_ = 0, high;
struct Cell {  // 8 bytes of memory
    uint32_t phase;
    uint8_t alive;      // 0 never allocated, 1 allocated, 2 freed
    uint8_t atomic;     // has an entry in sync
    uint8_t wt, wmask;
    clk_t wclk;
    uint8_t rmask[MAXT];
    clk_t rclk[MAXT];
};
Cell *shadow;
std::unordered_map<uintptr_t, Cell> globals;
struct Sync {
    uint32_t phase;
    VC rel;             // published by the release sequence
    clk_t w[MAXT], r[MAXT];
};
std::unordered_map<uintptr_t, Sync> sync_;
extern "C" char __data_start[], _end[];

struct Block { size_t size; int kind; };
struct Head { size_t size; int kind; int pad; char fill[48]; };   // before each block; 64 bytes keep the alignment
long live_blocks = 0;
FILE *tr = nullptr;
long tr_n = 0;
std::unordered_map<uint64_t, uint32_t> tr_seen;    // what the trace already shows for the thread's current clock

Cell &cell_of(uintptr_t a) { return shadow[(a - (uintptr_t)arena) >> 3]; }
bool in_arena(uintptr_t a) { return a - (uintptr_t)arena < ARENA; }

void tell(const char *what, int t, uintptr_t loc, const char *order = "") {
    if (tr) { fprintf(tr, "%s %d %zx %s\n", what, t, (size_t)loc, order); tr_n++; }
}
void tell_half(bool w, uintptr_t a) {
    uint64_t k = ((uint64_t)(a >> 2) << 4) | (me->id << 1) | w;
    uint32_t now = me->clk.c[me->id];
    auto it = tr_seen.find(k);
    if (it != tr_seen.end() && it->second == now) return;
    tr_seen[k] = now;
    tell(w ? "wr" : "rd", me->id, a);
}
void tell_access(bool w, uintptr_t a, uint8_t mask) {   // in places of four bytes
    if (!tr) return;
    a &= ~(uintptr_t)7;
    if (mask & 0x0f) tell_half(w, a);
    if (mask & 0xf0) tell_half(w, a + 4);
}

// ---- scheduling
SchedPolicy *policy;
void pass_to(int t) {
    if (me && t == me->id) return;
    Thr *self = me;
    sem_post(&thr[t].go);
    if (self) while (sem_wait(&self->go)) {}
}
std::vector<int> alive_list() {
    std::vector<int> v;
    for (int i = 0; i < nthr; i++) if (thr[i].live) v.push_back(i);
    return v;
}
void point(SchedPoint k) {
    if (!me || !running) return;
    int t = policy->next(me->id, k, alive_list());
    if (t != me->id) pass_to(t);
}

[[noreturn]] void race(const char *what, uintptr_t a, int other) {
    fail("%s by thread %d is not ordered with an access by thread %d (%zu bytes into %s)", what, me->id, other,
         in_arena(a) ? (size_t)(a & 63) : (size_t)0, in_arena(a) ? "allocated memory" : "static data");
}
void access1(Cell &c, uintptr_t a, uint8_t mask, bool w) {
    const int t = me->id;
    if (c.phase != phase) {
        c.phase = phase; c.wmask = 0;
        memset(c.rmask, 0, sizeof c.rmask);
    }
    if (c.wmask & mask && c.wt != t && c.wclk > me->clk.c[c.wt]) race(w ? "a write" : "a read", a, c.wt);
    if (w)
        for (int i = 0; i < nthr; i++)
            if (i != t && c.rmask[i] & mask && c.rclk[i] > me->clk.c[i]) race("a write", a, i);
    if (c.atomic) {
        auto it = sync_.find(a & ~(uintptr_t)3);
        for (int half = 0; half < 2; half++) {
            it = sync_.find((a & ~(uintptr_t)7) + 4 * half);
            if (it == sync_.end() || it->second.phase != phase || !(mask >> (4 * half) & 15)) continue;
            for (int i = 0; i < nthr; i++)
                if (i != t && (it->second.w[i] > me->clk.c[i] || (w && it->second.r[i] > me->clk.c[i]))) race(w ? "a plain write to an atomic" : "a plain read of an atomic", a, i);
        }
    }
    if (w) { c.wt = t; c.wclk = me->clk.c[t]; c.wmask = mask; }
    else { c.rmask[t] = c.rclk[t] == me->clk.c[t] ? c.rmask[t] | mask : mask; c.rclk[t] = me->clk.c[t]; }
    tell_access(w, a, mask);
}
void access_(const void *p, size_t n, bool w) {
    if (!me || !running) return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    if (in_arena(a)) {
        while (a < e) {
            Cell &c = cell_of(a);
            if (c.alive != 1) fail(c.alive == 2 ? "thread %d %s memory that was released" : "thread %d %s memory outside of any block", me->id, w ? "wrote" : "read");
            size_t in = a & 7, len = 8 - in < e - a ? 8 - in : e - a;
            access1(c, a, (uint8_t)(((1u << len) - 1) << in), w);
            a += len;
        }
    } else if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) {
        while (a < e) {
            size_t in = a & 7, len = 8 - in < e - a ? 8 - in : e - a;
            access1(globals[a >> 3], a, (uint8_t)(((1u << len) - 1) << in), w);
            a += len;
        }
    }
}
// ---- atomics
enum { RLX = 0, CONSUME = 1, ACQ = 2, REL = 3, ACQREL = 4, SC = 5 };
bool acq(int mo) { return mo == ACQ || mo == ACQREL || mo == SC || mo == CONSUME; }
bool rel(int mo) { return mo == REL || mo == ACQREL || mo == SC; }
const char *ord(int mo) { static const char *n[] = {"relaxed", "acquire", "acquire", "release", "acqrel", "acqrel"}; return n[mo & 7]; }
void turn(const volatile void *p) { point(in_arena((uintptr_t)p) ? SchedPoint::Counter : SchedPoint::Atomic); }
// an operation on an atomic at p: r, w: does it read, write?
void atomic_(const volatile void *p, size_t n, int mo, bool r, bool w) {
    if (!me || !running) return;
    uintptr_t a = (uintptr_t)p;
    Cell *c;
    if (in_arena(a)) {
        c = &cell_of(a);
        if (c->alive != 1) fail("thread %d used an atomic in memory that was released", me->id);
    } else if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) c = &globals[a >> 3];
    else return;
    const int t = me->id;
    uint8_t mask = (uint8_t)(((1u << n) - 1) << (a & 7));
    if (c->phase != phase) { c->phase = phase; c->wmask = 0; memset(c->rmask, 0, sizeof c->rmask); }
    if (c->wmask & mask && c->wt != t && c->wclk > me->clk.c[c->wt]) race("an atomic operation", a, c->wt);
    if (w) for (int i = 0; i < nthr; i++) if (i != t && c->rmask[i] & mask && c->rclk[i] > me->clk.c[i]) race("an atomic write", a, i);
    c->atomic = 1;
    Sync &s = sync_[a];
    if (s.phase != phase) { memset(&s, 0, sizeof s); s.phase = phase; }
    if (r) {
        if (acq(mo)) me->clk.join(s.rel);
        me->pend.join(s.rel);
        s.r[t] = me->clk.c[t];
    }
    if (w) {
        if (!r) memset(&s.rel, 0, sizeof s.rel);   // a store starts a new release sequence
        if (rel(mo)) s.rel.join(me->clk); else s.rel.join(me->rel);
        s.w[t] = me->clk.c[t];
        tell(r ? "rmw" : "store", t, a, ord(mo));
        me->clk.c[t]++;
    } else tell("load", t, a, ord(mo));
}
void fence(int mo) {
    if (!me || !running) return;
    if (acq(mo)) me->clk.join(me->pend);
    if (rel(mo)) { me->rel = me->clk; me->clk.c[me->id]++; }
    tell("fence", me->id, 0, ord(mo));
}

// ---- the allocator
char *carve(size_t al, size_t n, int kind) {
    if (al < 64) al = 64;
    size_t at = (top_ + sizeof(Head) + al - 1) / al * al;
    size_t len = (n + 7) / 8 * 8;
    if (at + len + 64 > ARENA) { fprintf(stderr, "arena exhausted\n"); _exit(2); }
    char *p = arena + at;
    Head *h = (Head *)(p - sizeof(Head));
    h->size = n; h->kind = kind;
    for (size_t i = 0; i < len; i += 8) {
        Cell &c = cell_of((uintptr_t)p + i);
        c.alive = 1; c.phase = 0; c.atomic = 0; c.wmask = 0;
    }
    top_ = at + len + 8;
    if (top_ > high) high = top_;
    live_blocks++;
    if (tr) { fprintf(tr, "get %d %zx %zu\n", me && running ? me->id : -1, (size_t)p, n); tr_n++; }
    return p;
}
void unmake(void *q, int kind) {
    char *p = (char *)q;
    if (!in_arena((uintptr_t)p) || ((uintptr_t)p & 63)) fail("a block was returned that the allocator did not give out");
    Head *h = (Head *)(p - sizeof(Head));
    if (cell_of((uintptr_t)p).alive == 2) fail("a block was returned twice");
    if (h->kind != kind) fail("a block was returned to the wrong function");
    size_t len = (h->size + 7) / 8 * 8;
    if (me && running) {
        access_(p, h->size, true);       // releasing conflicts with every unordered use
    }
    tell("ret", me && running ? me->id : -1, (uintptr_t)p);
    for (size_t i = 0; i < len; i += 8) cell_of((uintptr_t)p + i).alive = 2;
    __real_memset(p, 0xDD, h->size);
    live_blocks--;
}
enum { PLAIN = 1, ALIGNED = 2 };
void *c_malloc(size_t n) { point(SchedPoint::Alloc); return carve(64, n ? n : 1, PLAIN); }
void c_free(void *p) { if (!p) return; point(SchedPoint::Alloc); unmake(p, PLAIN); }
void *c_calloc(size_t a, size_t b) { point(SchedPoint::Alloc); char *p = carve(64, a * b ? a * b : 1, PLAIN); memset(p, 0, a * b); return p; }
void *c_realloc(void *p, size_t n) {
    point(SchedPoint::Alloc);
    if (!p) return carve(64, n ? n : 1, PLAIN);
    if (!n) { unmake(p, PLAIN); return nullptr; }
    size_t old = ((Head *)((char *)p - sizeof(Head)))->size;
    char *q = carve(64, n, PLAIN);
    memcpy(q, p, old < n ? old : n);
    unmake(p, PLAIN);
    return q;
}
void *c_amalloc(size_t al, size_t n) { point(SchedPoint::Alloc); return carve(al, n ? n : 1, ALIGNED); }
void c_afree(void *p) { if (!p) return; point(SchedPoint::Alloc); unmake(p, ALIGNED); }

void *body(void *x) {
    Thr *t = (Thr *)x;
    while (sem_wait(&t->go)) {}
    me = t;
    (*t->f)();
    t->live = false;
    std::vector<int> v = alive_list();
    int nx = v.empty() ? -1 : policy->next(t->id, SchedPoint::End, v);
    me = nullptr;
    if (nx >= 0) sem_post(&thr[nx].go);
    return nullptr;
}
}  // namespace

extern "C" void mem_install(void) {
    arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (Cell *)mmap(nullptr, ARENA / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || shadow == MAP_FAILED) { fprintf(stderr, "no address space\n"); _exit(2); }
    roaring_memory_t h = {c_malloc, c_realloc, c_calloc, c_free, c_amalloc, c_afree};
    roaring_init_memory_hook(h);
}
extern "C" long mem_outstanding(void) { return live_blocks; }
extern "C" uint64_t mem_digest(void) { return 0; }
extern "C" void mem_refuse(long, bool) {}
extern "C" void mem_spare_realloc(bool) {}
extern "C" void mem_trace(void *) {}
extern "C" long mem_traced(void) { return 0; }
extern "C" long mem_refused(void) { return 0; }
extern "C" long mem_requests(void) { return 0; }

size_t sched_mark() { return top_; }
void sched_rewind(size_t mark) {   // forget everything above; nothing there may be in use
    for (size_t i = mark & ~(size_t)7; i < high; i += 8) { Cell &c = shadow[i >> 3]; c.alive = 0; c.atomic = 0; }
    sync_.clear();
    tell("rewind", 0, 0);
    top_ = high = mark;
}
void sched_trace(void *f) { tr = (FILE *)f; tr_n = 0; tr_seen.clear(); }
long sched_traced() { return tr_n; }
int sched_self() { return me ? me->id : -1; }

void sched_run(SchedPolicy *p, const std::vector<std::function<void()>> &fs) {
    static bool first = true;
    phase++;
    nthr = (int)fs.size();
    if (nthr > MAXT) { fprintf(stderr, "too many threads\n"); _exit(2); }
    policy = p;
    tr_seen.clear();
    tell("phase", nthr, 0);
    for (int i = 0; i < nthr; i++) {
        Thr &t = thr[i];
        t.id = i; t.live = true; t.f = &fs[i];
        memset(&t.clk, 0, sizeof t.clk); memset(&t.rel, 0, sizeof t.rel); memset(&t.pend, 0, sizeof t.pend);
        t.clk.c[i] = 1;
        if (first || true) sem_init(&t.go, 0, 0);
        if (pthread_create(&t.th, nullptr, body, &t)) { fprintf(stderr, "no thread\n"); _exit(2); }
    }
    first = false;
    running = true;
    std::vector<int> v = alive_list();
    sem_post(&thr[p->next(-1, SchedPoint::End, v)].go);
    for (int i = 0; i < nthr; i++) pthread_join(thr[i].th, nullptr);
    running = false;
}

// ---- what the compiler's instrumentation calls
#define API extern "C" __attribute__((visibility("default")))
API void __tsan_init() {}
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit() {}
#define RW(n) \
    API void __tsan_read##n(void *p) { access_(p, n, false); } \
    API void __tsan_write##n(void *p) { access_(p, n, true); } \
    API void __tsan_unaligned_read##n(void *p) { access_(p, n, false); } \
    API void __tsan_unaligned_write##n(void *p) { access_(p, n, true); } \
    API void __tsan_volatile_read##n(void *p) { access_(p, n, false); } \
    API void __tsan_volatile_write##n(void *p) { access_(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *p, unsigned long n) { access_(p, n, false); }
API void __tsan_write_range(void *p, unsigned long n) { access_(p, n, true); }
API void __tsan_vptr_update(void **, void *) {}
API void __tsan_vptr_read(void **) {}
#define AT(B, T) \
    API T __tsan_atomic##B##_load(const volatile T *p, int mo) { turn(p); atomic_(p, sizeof(T), mo, true, false); return *p; } \
    API void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { turn(p); atomic_(p, sizeof(T), mo, false, true); *p = v; } \
    API T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { turn(p); atomic_(p, sizeof(T), mo, true, true); T o = *p; *p = v; return o; } \
    API T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { turn(p); atomic_(p, sizeof(T), mo, true, true); T o = *p; *p = (T)(o + v); return o; } \
    API T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { turn(p); atomic_(p, sizeof(T), mo, true, true); T o = *p; *p = (T)(o - v); return o; } \
    API T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { turn(p); atomic_(p, sizeof(T), mo, true, true); T o = *p; *p = (T)(o & v); return o; } \
    API T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { turn(p); atomic_(p, sizeof(T), mo, true, true); T o = *p; *p = (T)(o | v); return o; } \
    API T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { turn(p); atomic_(p, sizeof(T), mo, true, true); T o = *p; *p = (T)(o ^ v); return o; } \
    API T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) { turn(p); atomic_(p, sizeof(T), mo, true, true); T o = *p; *p = (T)~(o & v); return o; } \
    static bool cas##B(volatile T *p, T *e, T v, int mo, int fmo) { \
        turn(p); \
        bool hit = *p == *e; \
        atomic_(p, sizeof(T), hit ? mo : fmo, true, hit); \
        if (hit) { *p = v; return true; } \
        *e = *p; return false; } \
    API int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { return cas##B(p, e, v, mo, fmo); } \
    API int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return cas##B(p, e, v, mo, fmo); } \
    API T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { cas##B(p, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
API void __tsan_atomic_thread_fence(int mo) { fence(mo); }
API void __tsan_atomic_signal_fence(int) {}

// block operations of the C library (-Wl,--wrap)
API void *__real_memcpy(void *, const void *, size_t);
API void *__real_memmove(void *, const void *, size_t);
API int __real_memcmp(const void *, const void *, size_t);
API void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access_(s, n, false); access_(d, n, true); } return __real_memcpy(d, s, n); }
API void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access_(s, n, false); access_(d, n, true); } return __real_memmove(d, s, n); }
API void *__wrap_memset(void *d, int c, size_t n) { if (n) access_(d, n, true); return __real_memset(d, c, n); }
API int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { access_(a, n, false); access_(b, n, false); } return __real_memcmp(a, b, n); }
