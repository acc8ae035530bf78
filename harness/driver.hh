// Replays scripts (behaviours generated by TLC from spec/SetMachine.tla) on an
// implementation, under many concretizations of the atoms.
#pragma once
#include <stdarg.h>

#include "common.hh"

#if SCHED
thread_local Where g_where;   // each thread's own
#else
Where g_where;
#endif
static const char *g_desc = "";
static std::string g_cmd;
static bool g_cow = false;   // copy-on-write from the start
static bool g_cow_draw = true;   // or at random
static bool g_refuse = false;   // refuse allocations inside calls that report failure
// the calls of a behaviour with the allocations made inside, for the trace checker (spec/LedgerTrace.tla)
static FILE *g_trace = nullptr;
static long g_trace_calls = 0;
struct Traced {
    bool on;
    Traced(const char *kind, int d, int s) : on(g_trace != nullptr) {
        if (!on) return;
        fprintf(g_trace, "begin %s %d %d\n", kind, d, s);
        mem_trace(g_trace);
    }
    // value: what the object d holds now, if that is not determined by the kind of call
    void end(bool ok, uint64_t value = 0) {
        if (!on) return;
        mem_trace(nullptr);
        fprintf(g_trace, ok ? "ok %llx\n" : "fail\n", (unsigned long long)value);
        g_trace_calls++;
        on = false;
    }
};
static void observed(int d, uint64_t value) { if (g_trace) fprintf(g_trace, "holds %d %llx\n", d, (unsigned long long)value); }

[[noreturn]] void fail(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    printf("MISMATCH beh=%d conc=%d step=%d op=%s: ", g_where.beh, g_where.conc, g_where.step, g_where.op.c_str());
    vprintf(fmt, ap);
    printf("\n  concretization: %s\n  reproduce: %s --only %d:%d\n", g_desc, g_cmd.c_str(), g_where.beh, g_where.conc);
    va_end(ap);
    fflush(stdout);
    _exit(1);
}
// what f writes to the standard output
template <class F>
std::string printed(F f) {
    char *buf = nullptr;
    size_t n = 0;
    FILE *keep = stdout, *mem = open_memstream(&buf, &n);
    if (!mem) exit(2);
    fflush(keep);
    stdout = mem;
    f();
    fclose(mem);
    stdout = keep;
    std::string s(buf, n);
    free(buf);
    return s;
}
static void on_alarm(int) {
    static char msg[256];
    int n = snprintf(msg, sizeof msg, "MISMATCH beh=%d conc=%d step=%d op=%s: the call does not return\n", g_where.beh, g_where.conc,
                     g_where.step, g_where.op.c_str());
    if (write(1, msg, n) < 0) {}
    _exit(1);
}
static void on_crash(int sig) {
    static char msg[256];
    int n = snprintf(msg, sizeof msg, "MISMATCH beh=%d conc=%d step=%d op=%s: crashed with signal %d\n", g_where.beh, g_where.conc,
                     g_where.step, g_where.op.c_str(), sig);
    if (write(1, msg, n) < 0) {}
    _exit(1);
}
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_asan() {
    printf("MISMATCH beh=%d conc=%d step=%d op=%s: memory error (see the sanitizer report)\n", g_where.beh, g_where.conc, g_where.step,
           g_where.op.c_str());
    fflush(stdout);
}

struct Args {
    std::string script;
    uint64_t seed = 1;
    int conc = 1, start = 0, stride = 1, only_b = -1, only_c = -1;
    size_t cap = 150000;
    bool digest = false;
    bool pairs = false, dense = false, small = false, exact = false, repmix = false;
    int form = -1;
    int hang = 120;
    double budget = 0;  // seconds; 0 = none
};
inline Args parse(int argc, char **argv) {
    Args a;
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (s == "--script") a.script = nxt();
        else if (s == "--seed") a.seed = strtoull(nxt().c_str(), 0, 10);
        else if (s == "--conc") a.conc = atoi(nxt().c_str());
        else if (s == "--start") a.start = atoi(nxt().c_str());
        else if (s == "--stride") a.stride = atoi(nxt().c_str());
        else if (s == "--cap") a.cap = strtoull(nxt().c_str(), 0, 10);
        else if (s == "--pairs") a.pairs = true;
        else if (s == "--dense") a.dense = true;
        else if (s == "--small") a.small = true;
        else if (s == "--cow") g_cow = true;
        else if (s == "--refuse") g_refuse = true;
        else if (s == "--trace") { g_trace = fopen(nxt().c_str(), "w"); if (!g_trace) exit(2); }
        else if (s == "--digest") a.digest = true;
        else if (s == "--exact") a.exact = true;
        else if (s == "--hang") a.hang = atoi(nxt().c_str());
        else if (s == "--budget") a.budget = atof(nxt().c_str());
        else if (s == "--only") { std::string x = nxt(); sscanf(x.c_str(), "%d:%d", &a.only_b, &a.only_c); }
        else { fprintf(stderr, "bad argument %s\n", s.c_str()); exit(2); }
    }
    for (int i = 0; i < argc; i++) {
        if (!strcmp(argv[i], "--only")) { i++; continue; }
        g_cmd += (i ? " " : "") + std::string(argv[i]);
    }
    return a;
}

// operands of the exhaustive pair runs: every set of atoms in several forms
template <class B>
struct Templates {
    static const int FORMS = 4;
    typedef typename B::handle H;
    std::map<std::pair<uint32_t, int>, H> have;
    Conc<typename B::value> *z = nullptr;
    uint64_t seed = 0;
    long blocks = 0;  // what they occupy
    void reset(Conc<typename B::value> *z_, uint64_t s) {
        for (auto &e : have) B::destroy(e.second);
        have.clear();
        delete z;
        z = z_; seed = s; blocks = 0;
    }
    const H &get(B &be, uint32_t mask, int form) {
        auto key = std::make_pair(mask, form);
        auto it = have.find(key);
        if (it == have.end()) {
            long before = mem_outstanding();
            B maker(*z, mix(mix(seed, mask), form), 1);
            long mid = mem_outstanding();
            H h = maker.build_template(mask, form);
            it = have.emplace(key, h).first;
            blocks += mem_outstanding() - mid;
            (void)before;
        }
        return it->second;
    }
};

template <class T, class B>
int drive(int argc, char **argv) {
    Args ar = parse(argc, argv);
    Script sc = load_script(ar.script.c_str());
    signal(SIGALRM, on_alarm);
    if (__asan_set_death_callback) __asan_set_death_callback(on_asan);
    else for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_crash);
    signal(SIGABRT, on_crash);
    mem_install();
    ConcOpts o;
    o.cap = ar.cap;
    o.sparse = !ar.dense;
    o.small = ar.small;
    o.exact = ar.exact;
    o.universe = B::universe();
    uint64_t nb = 0, ncalls = 0, nskip = 0, digest = 0;
    long base = mem_outstanding();
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool stop = false;
    // pair mode: operands are copied from templates built once per concretization
    Templates<B> tpl;
    for (int c = 0; c < ar.conc && !stop; c++) {
        if (ar.only_c >= 0 && c != ar.only_c) continue;
        Conc<T> *pairConc = nullptr;
        if (ar.pairs) {
            pairConc = new Conc<T>(make_conc<T>(sc.S, sc.C, mix(ar.seed, c), o));
            tpl.reset(pairConc, mix(ar.seed, c));
        }
        for (size_t b = ar.start; b < sc.beh.size() && !stop; b += ar.stride) {
            if (ar.only_b >= 0 && (int)b != ar.only_b) continue;
            g_where.beh = (int)b; g_where.conc = c; g_where.step = 0; g_where.op = "setup";
            uint64_t cs = ar.pairs ? mix(ar.seed, c) : mix(mix(ar.seed, b), c);
            Conc<T> *z;
            if (ar.pairs) {
                z = pairConc;
            } else z = new Conc<T>(make_conc<T>(sc.S, sc.C, cs, o));
            g_desc = z->desc.c_str();
            alarm(ar.hang);
            {
                Traced start("start", 0, sc.N);
                B be(*z, mix(mix(cs, b), 77), sc.N);
                start.end(true);
                for (const Ev &e : sc.beh[b]) {
                    g_where.step = e.step; g_where.op = e.op.empty() ? "setup" : e.op;
                    if (e.kind == 'P') {
                        g_where.op = "setup";
                        for (int r = 0; r < sc.N; r++) be.setup(r, e.post[r].mask, tpl);
                        continue;
                    }
                    if (e.op == "nop") { nskip++; continue; }
                    {
                        Traced call("work", e.d, 0);
                        be.exec(e);
                        if (g_trace) { mem_trace(nullptr); call.end(true, e.post[e.d].lz ? 0 : be.content(e.d)); }
                    }
                    if (g_refuse) be.refusals(e);
                    ncalls++;
                    if (ar.digest && !e.post[e.d].lz) {
                        g_where.op = "bytes after " + e.op;
                        uint64_t h = be.bytes(e.d);
                        digest = mix(digest ^ h, nb);
                        if (ar.only_b >= 0) printf("step %d %s %016llx\n", e.step, e.op.c_str(), (unsigned long long)h);
                    }
                    size_t tot = 0;
                    for (int r = 0; r < sc.N; r++) tot += e.post[r].lz ? 0 : z->cnt(e.post[r].mask);
                    for (int r = 0; r < sc.N; r++) {
                        if (e.post[r].lz) continue;
                        bool touched = r == e.d || r == e.a || r == e.b;
                        bool last = &e == &sc.beh[b].back();
                        if (touched || last || tot < 20000 || (e.step + r) % 4 == 0) be.verify(r, e.post[r].mask, r == e.d || last);
                    }
                    if (!g_trace && !ar.pairs && !e.post[e.d].lz && !e.post[e.d].ro && tot < 60000) be.snapshot(e.d, e.post[e.d].mask);
                }
                g_where.op = "copies";
                be.finish();
                g_where.op = "teardown";
                if (g_trace) { fprintf(g_trace, "begin end 0 0\n"); mem_trace(g_trace); }
            }
            if (g_trace) { mem_trace(nullptr); fprintf(g_trace, "ok 0\n"); }
            long now = mem_outstanding() - tpl.blocks;
            if (now != base) fail("%ld blocks obtained from the allocator were never returned", now - base);
            alarm(0);
            nb++;
            if (!ar.pairs) delete z;
            if (ar.budget > 0 && (nb & 15) == 0) {
                clock_gettime(CLOCK_MONOTONIC, &t1);
                if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > ar.budget) stop = true;
            }
        }
    }
    if (ar.pairs) tpl.reset(nullptr, 0);
    if (g_trace) fclose(g_trace);
    printf("OK behaviours=%llu calls=%llu nops=%llu digest=%llu\n", (unsigned long long)nb, (unsigned long long)ncalls, (unsigned long long)nskip,
           (unsigned long long)digest);
    return 0;
}
