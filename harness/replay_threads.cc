// Binding of spec/Threads.tla and spec/Sharing.tla: the calls of several threads, run under a scheduler (sched.cc).
//   --script F          histories of Threads.tla; within a phase the threads interleave at random
//   --pairs F --words W calls from every small value (SetMachine pair runs), one or two per thread on copies of the same
//                       bitmap, under every order of the accesses to the reference counters that Sharing.tla allows
//   --first             threads that make the first calls of the process
#define SCHED 1
#include "replay_c.cc"
#include "sched.hh"

#include <sys/wait.h>

struct RandomPolicy : SchedPolicy {
    Rng g;
    unsigned counter, other;
    RandomPolicy(uint64_t seed) : g(seed) {
        counter = (unsigned)g.oneof({20, 50, 80});
        other = (unsigned)g.oneof({0, 1, 5, 20});
    }
    int next(int self, SchedPoint k, const std::vector<int> &alive) override {
        if (k == SchedPoint::End || g.chance(k == SchedPoint::Counter ? counter : other)) return alive[g.below(alive.size())];
        return self;
    }
};
// follows a given order of the accesses to reference counters
struct WordPolicy : SchedPolicy {
    const std::vector<int> &w;
    size_t i = 0;
    long followed = 0;
    WordPolicy(const std::vector<int> &w_) : w(w_) {}
    static bool in(const std::vector<int> &v, int t) { return std::find(v.begin(), v.end(), t) != v.end(); }
    int next(int self, SchedPoint k, const std::vector<int> &alive) override {
        while (i < w.size() && !in(alive, w[i])) i++;
        if (i >= w.size()) return k == SchedPoint::End ? alive[0] : self;
        if (k != SchedPoint::End && k != SchedPoint::Counter) return self;
        int t = w[i];
        if (k == SchedPoint::Counter) {
            if (t == self) { i++; followed++; return self; }
            waiting[self] = true;
        }
        // t goes on to its next access to a counter, or makes the one it waits for
        if (waiting[t]) { waiting[t] = false; i++; followed++; }
        return t;
    }
    bool waiting[8] = {};
};

static uint64_t nbeh, ncalls, nsw;

// ------------------------------------------------------------ histories --
struct World {
    std::vector<Conc<T> *> z;
    std::vector<Backend *> be;
    int common;
};
static void call(Backend &be, const Ev &e, bool deep) {
    g_where.step = e.step; g_where.op = e.op;
    if (e.op == "nop") return;
    be.exec(e);
    ncalls++;
    for (int r = 0; r < (int)be.reg.size(); r++)
        if (!e.post[r].lz && (r == e.d || r == e.a || r == e.b || deep)) be.verify(r, e.post[r].mask, r == e.d || deep);
    if (!e.post[e.d].lz && !e.post[e.d].ro && e.d != (int)be.reg.size() - 1 && be.z.cnt(e.post[e.d].mask) < 20000) be.snapshot(e.d, e.post[e.d].mask);
}
static void history(const Script &sc, int nt, size_t b, int c, const Args &ar, const ConcOpts &o, bool cow) {
    g_where.beh = (int)b; g_where.conc = c; g_where.step = 0; g_where.op = "setup";
    const uint64_t cs = mix(mix(ar.seed, b), c);
    size_t mark = sched_mark();
    long base = mem_outstanding();
    World w;
    w.common = sc.N - 1;
    g_cow = cow; g_cow_draw = false;
    for (int t = 0; t < nt; t++) {
        w.z.push_back(new Conc<T>(make_conc<T>(sc.S, sc.C, cs, o)));
        w.be.push_back(new Backend(*w.z[t], mix(cs, 100 + t), sc.N));
        if (t) { Backend::drop(w.be[t]->reg[w.common]); w.be[t]->reg[w.common] = w.be[0]->reg[w.common]; }
    }
    g_desc = w.z[0]->desc.c_str();
    RandomPolicy pol(mix(cs, 7));
    const std::vector<Ev> &v = sc.beh[b];
    int phase_no = 0;
    auto everyone = [&](std::function<void(int)> f) {
        std::vector<std::function<void()>> fs;
        Where at = g_where;
        for (int t = 0; t < nt; t++) fs.push_back([&f, t, at] { g_where = at; f(t); });
        sched_run(&pol, fs);
        phase_no++;
    };
    for (size_t i = 0; i < v.size();) {
        if (v[i].kind == 'G') {
            const Ev &e = v[i++];
            g_where.step = e.step; g_where.op = "hand over";
            if (e.k == 0) continue;
            Backend &src = *w.be[e.b];
            if (e.k == 3) {
                bm_t *n = FN(copy)(src.R(e.a));
                w.be[0]->put(w.common, n);
                for (int t = 1; t < nt; t++) w.be[t]->reg[w.common] = w.be[0]->reg[w.common];
            } else if (e.k == 1) w.be[e.t]->put(e.d, FN(copy)(src.R(e.a)));
            else {
                Backend &dst = *w.be[e.t];
                Backend::drop(dst.reg[e.d]);
                dst.reg[e.d] = src.reg[e.a];
                src.reg[e.a] = Backend::Reg();
                src.put(e.a, FN(create)());
            }
            continue;
        }
        size_t j = i;
        while (j < v.size() && v[j].kind != 'G') j++;
        everyone([&](int t) {
            const Ev *last = nullptr;
            for (size_t k = i; k < j; k++) if (v[k].t == t) { call(*w.be[t], v[k], false); last = &v[k]; }
            if (last) for (int r = 0; r < sc.N; r++) if (!last->post[r].lz) { g_where.op = "end of phase"; w.be[t]->verify(r, last->post[r].mask, false); }
        });
        i = j;
    }
    // every thread drops what it has
    g_where.op = "teardown";
    everyone([&](int t) {
        w.be[t]->finish();
        for (int r = 0; r < sc.N; r++) if (r != w.common) Backend::drop(w.be[t]->reg[r]);
        for (auto &x : w.be[t]->extra) FN(free)(x.first);
        w.be[t]->extra.clear();
    });
    for (int t = 1; t < nt; t++) w.be[t]->reg[w.common] = Backend::Reg();
    for (int t = 0; t < nt; t++) { delete w.be[t]; delete w.z[t]; }
    if (mem_outstanding() != base) fail("%ld blocks obtained from the allocator were never returned", mem_outstanding() - base);
    sched_rewind(mark);
    nbeh++;
}

// ----------------------------------------------- every order, small cases --
// the calls of two or three threads, each on its own copies of one bitmap
static void combination(const Script &sc, const std::vector<const std::vector<Ev> *> &prog, const std::vector<std::vector<int>> &words, size_t &next_word,
                        int nwords, Conc<T> &z, std::vector<Conc<T> *> &zt, uint64_t cs, bool keep) {
    const int nt = (int)prog.size();
    Rng g(cs);
    for (int i = 0; i < nwords; i++, next_word++) {
        const std::vector<int> &word = words[next_word % words.size()];
        size_t mark = sched_mark();
        long base = mem_outstanding();
        g_cow = true;
        g_where.op = "setup"; g_where.step = (int)(next_word % words.size());
        Backend maker(z, mix(cs, 1), 1);
        uint64_t shape = mix(cs, 2);
        std::vector<Backend *> be;
        std::map<uint32_t, bm_t *> tpl;
        for (int t = 0; t < nt; t++) {
            be.push_back(new Backend(*zt[t], mix(cs, 10 + t), sc.N));
            const Ev &pre = (*prog[t])[0];
            for (int r = 0; r < sc.N; r++) {
                uint32_t m = pre.post[r].mask;
                if (!m) continue;
                auto it = tpl.find(m);
                if (it == tpl.end()) {
                    bm_t *x = maker.build_template(m, (int)(shape % 4));
#if !B64
                    roaring_bitmap_set_copy_on_write(x, true);
#endif
                    it = tpl.emplace(m, x).first;
                }
                be[t]->put(r, FN(copy)(it->second));
            }
        }
        if (!keep) { for (auto &x : tpl) FN(free)(x.second); tpl.clear(); }
        WordPolicy pol(word);
        std::vector<std::function<void()>> fs;
        Where at = g_where;
        for (int t = 0; t < nt; t++)
            fs.push_back([&, t] {
                g_where = at;
                const Ev &e = (*prog[t])[1];
                call(*be[t], e, false);
                for (int r = 0; r < sc.N; r++) if (!e.post[r].lz) be[t]->verify(r, e.post[r].mask, false);
                g_where.op = "teardown after " + e.op;
                be[t]->finish();
                for (auto &x : be[t]->reg) Backend::drop(x);
                for (auto &x : be[t]->extra) FN(free)(x.first);
                be[t]->extra.clear();
            });
        sched_run(&pol, fs);
        nsw += pol.followed;
        g_where.op = "after";
        for (auto &x : tpl) {
            Backend chk(z, mix(cs, 3), 1);
            chk.put(0, x.second);
            chk.verify(0, x.first, true);   // and is freed
        }
        for (Backend *b : be) delete b;
        for (auto &x : maker.reg) Backend::drop(x);
        if (mem_outstanding() != base) fail("%ld blocks obtained from the allocator were never returned", mem_outstanding() - base);
        sched_rewind(mark);
        nbeh++;
    }
}
static std::vector<std::vector<int>> load_words(const char *path) {
    std::vector<std::vector<int>> w;
    FILE *f = fopen(path, "r");
    int n, x;
    while (f && fscanf(f, "%d", &n) == 1) {
        w.emplace_back();
        for (int i = 0; i < n; i++) { if (fscanf(f, "%d", &x) != 1) exit(2); w.back().push_back(x - 1); }
    }
    if (w.empty()) { fprintf(stderr, "no schedules\n"); exit(2); }
    fclose(f);
    return w;
}

// ------------------------------------------------------- first calls ever --
static int first_calls(const Args &ar) {
    for (int c = 0; c < ar.conc; c++) {
        pid_t p = fork();
        if (p == 0) {
            Rng g(mix(ar.seed, c));
            RandomPolicy pol(mix(ar.seed, 1000 + c));
            pol.counter = 50; pol.other = 50;
            std::vector<std::function<void()>> fs;
            for (int t = 0; t < 3; t++) {
                uint64_t s = g.next();
                fs.push_back([s, t] {
                    g_where.op = "first calls of a process";
                    Rng h(s);
                    bm_t *a = FN(create)(), *b = FN(create)();
                    T lo = (T)h.below(1000);
                    FN(add_range)(a, lo, lo + 6000); FN(add_range)(b, lo + 3000, lo + 9000);
                    for (T i = 0; i < 5000; i++) FN(add)(b, 100000 + 3 * i);
                    bm_t *x = FN(and)(a, b), *y = FN(or)(a, b), *v = FN(xor)(a, b), *w = FN(andnot)(a, b);
                    if (Backend::card(x) != 3000 || Backend::card(y) != 14000 || Backend::card(v) != 11000 || Backend::card(w) != 3000)
                        fail("thread %d: wrong cardinalities", t);
                    std::vector<T> out(14000);
                    Backend::to_array(y, out.data());
                    if (out[0] != lo || out[13999] != 100000 + 3 * 4999) fail("thread %d: wrong values", t);
                    for (bm_t *r : {a, b, x, y, v, w}) FN(free)(r);
                });
            }
            sched_run(&pol, fs);
            fflush(stdout);
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("MISMATCH first calls of a process, seed %d: failed\n", c); return 1; }
        nbeh++;
    }
    printf("OK behaviours=%llu calls=%llu nops=0 digest=0\n", (ull)nbeh, (ull)nbeh * 33);
    return 0;
}

int main(int argc, char **argv) {
    bool first = false;
    std::string pairs, words, trace;
    int threads = 3, per = 3;
    std::vector<char *> rest{argv[0]};
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        if (s == "--first") first = true;
        else if (s == "--words") words = argv[++i];
        else if (s == "--threads") threads = atoi(argv[++i]);
        else if (s == "--per") per = atoi(argv[++i]);
        else if (s == "--record") trace = argv[++i];
        else rest.push_back(argv[i]);
    }
    rest.push_back(nullptr);
    Args ar = parse((int)rest.size() - 1, rest.data());
    for (int i = 1; i < argc; i++) if (g_cmd.find(argv[i]) == std::string::npos) g_cmd += std::string(" ") + argv[i];
    signal(SIGALRM, on_alarm);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_crash);
    mem_install();
    if (first) return first_calls(ar);
    FILE *tf = nullptr;
    if (!trace.empty()) { tf = fopen(trace.c_str(), "w"); sched_trace(tf); }
    Script sc = load_script(ar.script.c_str());
    ConcOpts o;
    o.cap = ar.cap; o.sparse = !ar.dense; o.small = ar.small; o.exact = ar.exact; o.universe = Backend::universe();
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    auto late = [&] {
        if (ar.budget <= 0) return false;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        return (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > ar.budget;
    };
#if !B64
    if (!words.empty()) {
        std::vector<std::vector<int>> ws = load_words(words.c_str());
        // behaviours by the value of register 0
        std::map<uint32_t, std::vector<const std::vector<Ev> *>> by;
        for (auto &b : sc.beh) by[b[0].post[0].mask].push_back(&b);
        std::vector<uint32_t> keys;
        for (auto &x : by) if (x.first && x.second.size() > 1) keys.push_back(x.first);
        size_t nw = 0;
        for (int c = 0; c < ar.conc && !late(); c++) {
            if (ar.only_c >= 0 && c != ar.only_c) continue;
            uint64_t cs = mix(ar.seed, c * ar.stride + ar.start);
            Conc<T> z = make_conc<T>(sc.S, sc.C, cs, o);
            std::vector<Conc<T> *> zt;
            for (int t = 0; t < threads; t++) zt.push_back(new Conc<T>(z));
            g_desc = z.desc.c_str();
            Rng g(cs);
            nw = g.below(ws.size());
            for (int b = 0; b < 60 && !late(); b++) {
                uint32_t key = keys[g.below(keys.size())];
                std::vector<const std::vector<Ev> *> prog;
                for (int t = 0; t < threads; t++) prog.push_back(by[key][g.below(by[key].size())]);
                uint64_t s = g.next();
                bool keep = g.chance(30);
                if (ar.only_b >= 0 && b != ar.only_b) { nw += per; continue; }
                g_where.beh = b; g_where.conc = c;
                alarm(ar.hang);
                combination(sc, prog, ws, nw, per, z, zt, s, keep);
                alarm(0);
            }
            for (auto x : zt) delete x;
        }
    } else
#endif
    for (int c = 0; c < ar.conc && !late(); c++) {
        if (ar.only_c >= 0 && c != ar.only_c) continue;
        for (size_t b = ar.start; b < sc.beh.size() && !late(); b += ar.stride) {
            if (ar.only_b >= 0 && (int)b != ar.only_b) continue;
            alarm(ar.hang);
            history(sc, threads, b, c, ar, o, !B64 && g_cow);
            alarm(0);
            if (tf && sched_traced() > 400000) break;
        }
    }
    if (tf) fclose(tf);
    printf("OK behaviours=%llu calls=%llu nops=0 digest=0 followed=%llu\n", (ull)nbeh, (ull)ncalls, (ull)nsw);
    return 0;
}
