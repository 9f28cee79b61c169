// See omp_rt.h. Compiled without instrumentation. Everything that could be merged with instrumented inline
// functions of the harness uses types of an anonymous namespace.
#include "omp_rt.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <zlib.h>

extern "C" char __libc_single_threaded;

namespace
{
enum { MAXT = 8, MAXSEG = 4096, MAXWS = 4096, MAXLOCK = 1024 };
typedef uintptr_t A;
struct Access { A lo, hi; int kind; void *pc; }; // kind: 1 write, 2 atomic
template<typename T> struct Vec // never merged with another type's code
{
    T *p = nullptr; size_t n = 0, cap = 0;
    void push (const T &t)
    {
        if (n == cap) { cap = cap ? 2 * cap : 64; p = (T *) realloc ((void *) p, cap * sizeof (T)); if (!p) abort (); }
        p[n++] = t;
    }
    void clear () { n = 0; }
    T &back () { return p[n - 1]; }
};
// The accesses of one thread between two synchronisations
struct Segment { int tid; uint32_t vc[MAXT]; Vec<Access> log; };
struct Clock { A addr; uint32_t vc[MAXT]; };
struct LockState { A addr; int owner, depth; uint32_t vc[MAXT]; };
struct WorkShare { bool init; long next, end, incr, chunk; bool up; int single; uint64_t unext, uend, uincr, uchunk; bool u; };
struct Thread
{
    sem_t sem;
    pthread_t th;
    bool created, finished;
    A waiting_lock;
    bool at_barrier;
    long ws;                // work sharing constructs met so far
    uint32_t vc[MAXT];
    int seg;                // current segment
    void (*fn) (void *); void *data;
};
struct State
{
    ort::Explorer ex {nullptr, nullptr};
    int configured = 1;     // threads of the next region
    bool active = false;    // between begin and end
    bool in_region = false;
    int team = 1;
    int current = 0;
    int arrived = 0;
    Thread t[MAXT];
    Segment *seg[MAXSEG]; int nseg = 0;
    Vec<Clock> clocks;
    Vec<LockState> locks;
    WorkShare ws[MAXWS];
    long nws = 0;
    Vec<void *> freed;      // given back after the region, so that no address has two meanings within it
    char race[2048];
    ort::Stats st {0, 0, 0, 0};
};
State S;
thread_local int self = -1;  // logical thread, -1 outside of the team
thread_local int nested = 0; // parallel regions within the one that is explored: each has one thread
thread_local int in_rt = 0;  // in the runtime or the explorer: accesses do not count
struct Rt { Rt () { ++in_rt; } ~Rt () { --in_rt; } };
bool teamed () { return S.in_region && self >= 0 && !nested; }
bool monitored () { return S.in_region && self >= 0 && !in_rt; }

void mix (uint64_t v) { S.st.schedule = (S.st.schedule ^ v) * 0x9e3779b97f4a7c15ull; S.st.schedule ^= S.st.schedule >> 29; }

void new_segment (int tid)
{
    Thread &t = S.t[tid];
    ++t.vc[tid];
    if (S.nseg == MAXSEG) { fprintf (stderr, "too many synchronisations in a parallel region\n"); abort (); }
    if (!S.seg[S.nseg]) S.seg[S.nseg] = (Segment *) calloc (1, sizeof (Segment));
    Segment *s = S.seg[S.nseg];
    s->tid = tid; s->log.clear ();
    memcpy (s->vc, t.vc, sizeof t.vc);
    t.seg = S.nseg++;
}
void join_vc (uint32_t *a, const uint32_t *b) { for (int k = 0; k < MAXT; ++k) if (b[k] > a[k]) a[k] = b[k]; }
uint32_t *clock_of (A addr)
{
    for (size_t k = 0; k < S.clocks.n; ++k) if (S.clocks.p[k].addr == addr) return S.clocks.p[k].vc;
    Clock c; memset (&c, 0, sizeof c); c.addr = addr;
    S.clocks.push (c);
    return S.clocks.back ().vc;
}
void acquire (const uint32_t *c) { join_vc (S.t[self].vc, c); new_segment (self); }
void release (uint32_t *c) { join_vc (c, S.t[self].vc); new_segment (self); }

void record (A lo, size_t n, int kind, void *pc)
{
    if (!n) return;
    Vec<Access> &l = S.seg[S.t[self].seg]->log;
    ++S.st.accesses;
    if (l.n)
    {
        Access &b = l.back ();
        if (b.kind == kind && b.hi == lo) { b.hi = lo + n; return; }
        if (b.kind == kind && b.lo <= lo && lo + n <= b.hi) return;
    }
    l.push (Access {lo, lo + n, kind, pc});
}

// ---- scheduling ----
bool runnable (int k)
{
    Thread &t = S.t[k];
    if (t.finished || t.at_barrier) return false;
    if (t.waiting_lock)
        for (size_t j = 0; j < S.locks.n; ++j) if (S.locks.p[j].addr == t.waiting_lock && S.locks.p[j].owner >= 0) return false;
    return true;
}
void switch_to (int k)
{
    if (k == self) return;
    const int me = self;
    S.current = k;
    sem_post (&S.t[k].sem);
    while (sem_wait (&S.t[me].sem) != 0) {}
}
// The current thread can not go on (or has ended): any other may
int pick_any (bool must)
{
    int c[MAXT], n = 0;
    for (int k = 0; k < S.team; ++k) if (runnable (k)) c[n++] = k;
    if (n == 0)
    {
        if (!must) return -1;
        fprintf (stderr, "deadlock: no thread of the parallel region can go on\n");
        abort ();
    }
    const int k = c[n > 1 ? S.ex.all (n) : 0];
    ++S.st.points; mix (100 + k);
    return k;
}
// The current thread could go on, but another one may be preferred
void point ()
{
    int c[MAXT], n = 0;
    c[n++] = self;
    for (int k = 0; k < S.team; ++k) if (k != self && runnable (k)) c[n++] = k;
    if (n == 1) return;
    const int k = c[S.ex.preempt (n)];
    ++S.st.points; mix (200 + k);
    switch_to (k);
}
void *pool_main (void *arg)
{
    const int k = (int) (intptr_t) arg;
    in_rt = 1;
    self = k;
    while (true)
    {
        while (sem_wait (&S.t[k].sem) != 0) {}
        in_rt = 0;
        S.t[k].fn (S.t[k].data);
        in_rt = 1;
        S.t[k].finished = true;
        const int n = pick_any (false);
        // The region ends with thread 0
        if (n < 0) { S.current = 0; sem_post (&S.t[0].sem); continue; }
        S.current = n;
        sem_post (&S.t[n].sem);
    }
    return nullptr;
}

// ---- races ----
struct Span { A lo, hi; };
void spans (const Vec<Access> &l, int kind, Vec<Span> &out)
{
    out.clear ();
    for (size_t k = 0; k < l.n; ++k) if (l.p[k].kind == kind) out.push (Span {l.p[k].lo, l.p[k].hi});
    std::sort (out.p, out.p + out.n, [] (const Span &a, const Span &b) { return a.lo < b.lo; });
    size_t m = 0;
    for (size_t k = 0; k < out.n; ++k)
    {
        if (m && out.p[m - 1].hi >= out.p[k].lo) { if (out.p[k].hi > out.p[m - 1].hi) out.p[m - 1].hi = out.p[k].hi; }
        else out.p[m++] = out.p[k];
    }
    out.n = m;
}
bool hit (const Vec<Span> &s, const Access &a)
{
    size_t lo = 0, hi = s.n; // first span that ends behind a.lo
    while (lo < hi) { const size_t m = (lo + hi) / 2; if (s.p[m].hi <= a.lo) lo = m + 1; else hi = m; }
    return lo < s.n && s.p[lo].lo < a.hi;
}
void where (void *pc, char *out, size_t n)
{
    Dl_info i;
    snprintf (out, n, "%p", pc);
    if (!dladdr (pc, &i) || !i.dli_fbase) return;
    char cmd[256];
    snprintf (cmd, sizeof cmd, "addr2line -Cfpe /proc/%d/exe %p 2>/dev/null", (int) getpid (), (void *) ((char *) pc - (char *) i.dli_fbase - 1));
    FILE *f = popen (cmd, "r");
    if (!f) return;
    char b[600];
    if (fgets (b, sizeof b, f)) { b[strcspn (b, "\n")] = 0; snprintf (out, n, "%.500s", b); }
    pclose (f);
}
void report (const Segment *a, const Access &x, const Segment *b, int otherkind)
{
    if (S.race[0]) return;
    char w1[600], w2[600] = "?";
    where (x.pc, w1, sizeof w1);
    int k2 = otherkind;
    for (size_t k = 0; k < b->log.n; ++k)
        if (b->log.p[k].kind == otherkind && b->log.p[k].lo < x.hi && x.lo < b->log.p[k].hi) { where (b->log.p[k].pc, w2, sizeof w2); break; }
    static const char *K[4] = {"reads", "writes", "atomically reads", "atomically writes"};
    snprintf (S.race, sizeof S.race, "thread %d %s %zu bytes in %s while thread %d %s them in %s, without synchronisation", a->tid, K[x.kind], (size_t) (x.hi - x.lo), w1, b->tid, K[k2], w2);
}
void find_races ()
{
    static Vec<Span> w, aw;
    for (int i = 0; i < S.nseg && !S.race[0]; ++i)
    {
        const Segment *b = S.seg[i];
        bool any = false;
        for (size_t k = 0; k < b->log.n && !any; ++k) any = b->log.p[k].kind & 1;
        if (!any) continue;
        spans (b->log, 1, w);
        spans (b->log, 3, aw);
        for (int j = 0; j < S.nseg && !S.race[0]; ++j)
        {
            const Segment *a = S.seg[j];
            if (a->tid == b->tid) continue;
            // ordered?
            if (a->vc[b->tid] >= b->vc[b->tid] || b->vc[a->tid] >= a->vc[a->tid]) continue;
            for (size_t k = 0; k < a->log.n && !S.race[0]; ++k)
            {
                const Access &x = a->log.p[k];
                if (hit (w, x)) report (a, x, b, 1);
                else if (!(x.kind & 2) && hit (aw, x)) report (a, x, b, 3);
            }
        }
    }
}

// ---- regions ----
// The work sharing construct of a thread without a team
struct Solo { WorkShare w; };
thread_local Solo solo;

void run_region (void (*fn) (void *), void *data, unsigned num, long sections)
{
    const int want = num ? std::min ((int) num, (int) MAXT) : S.configured;
    if (S.in_region && self >= 0) // nested: one thread
    {
        const Solo save = solo;
        const int rt = in_rt;
        if (sections > 0) solo.w = WorkShare {true, 1, sections, 1, 1, true, -1, 0, 0, 0, 0, false};
        ++nested;
        in_rt = 0;
        fn (data);
        in_rt = rt;
        --nested;
        solo = save;
        return;
    }
    Rt rt;
    const int T = S.active ? want : 1;
    S.team = T;
    S.nws = 0;
    memset (S.ws, 0, sizeof (WorkShare) * 8);
    S.arrived = 0;
    S.clocks.clear (); S.locks.clear (); S.nseg = 0;
    if (sections > 0) { S.ws[0] = WorkShare {true, 1, sections, 1, 1, true, -1, 0, 0, 0, 0, false}; S.nws = 1; }
    for (int k = 0; k < T; ++k)
    {
        Thread &t = S.t[k];
        t.finished = t.at_barrier = false; t.waiting_lock = 0; t.ws = 0;
        t.fn = fn; t.data = data;
        memset (t.vc, 0, sizeof t.vc);
        if (k && !t.created)
        {
            sem_init (&t.sem, 0, 0);
            t.created = true;
            pthread_attr_t at; pthread_attr_init (&at); pthread_attr_setstacksize (&at, 4 << 20);
            if (pthread_create (&t.th, &at, pool_main, (void *) (intptr_t) k)) { perror ("pthread_create"); abort (); }
            pthread_attr_destroy (&at);
        }
        else if (!k && !t.created) { sem_init (&t.sem, 0, 0); t.created = true; }
    }
    for (int k = 0; k < T; ++k) new_segment (k);
    if (S.active) { ++S.st.regions; mix (T); }
    self = 0; S.current = 0;
    S.in_region = true;
    if (T > 1) switch_to (pick_any (true));
    const int save = in_rt;
    in_rt = 0;
    fn (data);
    in_rt = save;
    S.t[0].finished = true;
    while (T > 1)
    {
        const int n = pick_any (false);
        if (n < 0)
        {
            bool all = true;
            for (int k = 0; k < T; ++k) all = all && S.t[k].finished;
            if (!all) { fprintf (stderr, "deadlock: threads wait for each other\n"); abort (); }
            break;
        }
        switch_to (n); // comes back when no other thread can run
    }
    S.in_region = false;
    self = -1;
    if (T > 1 && S.active) find_races ();
    for (size_t k = 0; k < S.freed.n; ++k) free (S.freed.p[k]);
    S.freed.clear ();
    S.team = 1;
}
WorkShare &enter_ws (bool &first)
{
    if (!teamed ()) { first = true; solo.w = WorkShare (); return solo.w; }
    Thread &t = S.t[self];
    const long k = t.ws++;
    if (k >= MAXWS) { fprintf (stderr, "too many work sharing constructs\n"); abort (); }
    while (S.nws <= k) S.ws[S.nws++].init = false;
    first = !S.ws[k].init;
    return S.ws[k];
}
WorkShare &current_ws ()
{
    if (!teamed ()) return solo.w;
    return S.ws[S.t[self].ws - 1];
}
void barrier ()
{
    if (!teamed () || S.team == 1) return;
    Rt rt;
    Thread &t = S.t[self];
    release (clock_of ((A) &S.arrived));
    t.at_barrier = true;
    ++S.arrived;
    if (S.arrived == S.team)
    {
        S.arrived = 0;
        uint32_t *c = clock_of ((A) &S.arrived);
        uint32_t all[MAXT]; memcpy (all, c, sizeof all);
        for (int k = 0; k < S.team; ++k) { S.t[k].at_barrier = false; join_vc (S.t[k].vc, all); new_segment (k); }
    }
    const int n = pick_any (true);
    switch_to (n);
}
LockState &lock_of (A a)
{
    for (size_t k = 0; k < S.locks.n; ++k) if (S.locks.p[k].addr == a) return S.locks.p[k];
    LockState l; memset (&l, 0, sizeof l); l.addr = a; l.owner = -1;
    S.locks.push (l);
    return S.locks.back ();
}
void lock (A a)
{
    if (!S.in_region || self < 0) return;
    Rt rt;
    point ();
    while (lock_of (a).owner >= 0)
    {
        if (lock_of (a).owner == self) { fprintf (stderr, "deadlock: a thread waits for itself\n"); abort (); }
        S.t[self].waiting_lock = a;
        switch_to (pick_any (true));
    }
    S.t[self].waiting_lock = 0;
    lock_of (a).owner = self;
    acquire (lock_of (a).vc);
}
bool try_lock (A a)
{
    if (!S.in_region || self < 0) return true;
    Rt rt;
    point ();
    if (lock_of (a).owner >= 0) return false;
    lock_of (a).owner = self;
    acquire (lock_of (a).vc);
    return true;
}
void unlock (A a)
{
    if (!S.in_region || self < 0) return;
    Rt rt;
    release (lock_of (a).vc);
    lock_of (a).owner = -1;
    point ();
}
} // namespace

namespace ort
{
void begin (int threads, Explorer e)
{
    S.ex = e; S.configured = threads; S.active = true; S.race[0] = 0;
    S.st = Stats {0, 0, 0, 0};
    __libc_single_threaded = 0; // as in a program that has started its threads
}
std::string end ()
{
    Rt rt;
    S.active = false; S.configured = 1;
    return S.race;
}
void yield () { if (S.in_region && self >= 0 && S.team > 1) { Rt rt; point (); } }
Stats stats () { return S.st; }
}

// ---- libgomp ----
extern "C"
{
void GOMP_parallel (void (*fn) (void *), void *data, unsigned n, unsigned) { run_region (fn, data, n, 0); }
void GOMP_parallel_sections (void (*fn) (void *), void *data, unsigned n, unsigned count, unsigned) { run_region (fn, data, n, count); }
unsigned GOMP_sections_next (void)
{
    Rt rt;
    if (teamed ())
    {
        point ();
        // entered through GOMP_parallel_sections: the construct of the region
        if (S.t[self].ws == 0) S.t[self].ws = 1;
    }
    WorkShare &w = current_ws ();
    if (w.next > w.end) return 0;
    mix (w.next);
    return (unsigned) w.next++;
}
unsigned GOMP_sections_start (unsigned count)
{
    {
        Rt rt;
        bool first; WorkShare &w = enter_ws (first);
        if (first) w = WorkShare {true, 1, (long) count, 1, 1, true, -1, 0, 0, 0, 0, false};
    }
    return GOMP_sections_next ();
}
void GOMP_sections_end_nowait (void) {}
void GOMP_sections_end (void) { barrier (); }
void GOMP_loop_end_nowait (void) {}
void GOMP_loop_end (void) { barrier (); }
void GOMP_barrier (void) { barrier (); }
static int crit, atom;
void GOMP_critical_start (void) { lock ((A) &crit); }
void GOMP_critical_end (void) { unlock ((A) &crit); }
void GOMP_critical_name_start (void **p) { lock ((A) p); }
void GOMP_critical_name_end (void **p) { unlock ((A) p); }
void GOMP_atomic_start (void) { lock ((A) &atom); }
void GOMP_atomic_end (void) { unlock ((A) &atom); }
bool GOMP_single_start (void)
{
    Rt rt;
    if (S.in_region && self >= 0) point ();
    bool first; WorkShare &w = enter_ws (first);
    if (first) { w = WorkShare (); w.init = true; }
    return first;
}
static bool loop_next (long *a, long *b)
{
    Rt rt;
    if (S.in_region && self >= 0) point ();
    WorkShare &w = current_ws ();
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    *a = w.next;
    const long step = w.incr * std::max (1l, w.chunk);
    w.next += step;
    *b = w.incr > 0 ? std::min (w.next, w.end) : std::max (w.next, w.end);
    mix (*a);
    return true;
}
static bool loop_start (long s, long e, long incr, long chunk, long *a, long *b)
{
    {
        Rt rt;
        bool first; WorkShare &w = enter_ws (first);
        if (first) w = WorkShare {true, s, e, incr, chunk, true, -1, 0, 0, 0, 0, false};
    }
    return loop_next (a, b);
}
typedef unsigned long long ull;
static bool ull_next (ull *a, ull *b)
{
    Rt rt;
    if (S.in_region && self >= 0) point ();
    WorkShare &w = current_ws ();
    const bool up = w.up;
    if (up ? w.unext >= w.uend : w.unext <= w.uend) return false;
    *a = w.unext;
    const uint64_t mag = (up ? w.uincr : -w.uincr) * std::max<uint64_t> (1, w.uchunk);
    if (up) w.unext = w.uend - w.unext < mag ? w.uend : w.unext + mag;
    else w.unext = w.unext - w.uend < mag ? w.uend : w.unext - mag;
    *b = w.unext;
    mix (*a);
    return true;
}
static bool ull_start (bool up, ull s, ull e, ull incr, ull chunk, ull *a, ull *b)
{
    {
        Rt rt;
        bool first; WorkShare &w = enter_ws (first);
        if (first) w = WorkShare {true, 0, 0, 0, 0, up, -1, s, e, incr, chunk, true};
    }
    return ull_next (a, b);
}
#define LOOP(name) \
    bool GOMP_loop_##name##_start (long s, long e, long i, long c, long *a, long *b) { return loop_start (s, e, i, c, a, b); } \
    bool GOMP_loop_##name##_next (long *a, long *b) { return loop_next (a, b); } \
    bool GOMP_loop_ull_##name##_start (bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return ull_start (up, s, e, i, c, a, b); } \
    bool GOMP_loop_ull_##name##_next (ull *a, ull *b) { return ull_next (a, b); } \
    void GOMP_parallel_loop_##name (void (*fn) (void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) \
    { struct D { void (*fn) (void *); void *data; } d {fn, data}; (void) d; (void) s; (void) e; (void) i; (void) c; parallel_loop (fn, data, n, s, e, i, c); }
#define LOOPR(name) \
    bool GOMP_loop_##name##_start (long s, long e, long i, long *a, long *b) { return loop_start (s, e, i, 1, a, b); } \
    bool GOMP_loop_##name##_next (long *a, long *b) { return loop_next (a, b); } \
    bool GOMP_loop_ull_##name##_start (bool up, ull s, ull e, ull i, ull *a, ull *b) { return ull_start (up, s, e, i, 1, a, b); } \
    bool GOMP_loop_ull_##name##_next (ull *a, ull *b) { return ull_next (a, b); } \
    void GOMP_parallel_loop_##name (void (*fn) (void *), void *data, unsigned n, long s, long e, long i, unsigned) { parallel_loop (fn, data, n, s, e, i, 1); }
// The loop is the first construct that every thread of the region meets
static void parallel_loop (void (*fn) (void *), void *data, unsigned n, long s, long e, long i, long c)
{
    struct D { void (*fn) (void *); void *data; long s, e, i, c; } loop {fn, data, s, e, i, c};
    run_region ([] (void *p) {
        D d;
        {
            Rt rt;
            d = *(D *) p;
            bool first; WorkShare &w = enter_ws (first);
            if (first) w = WorkShare {true, d.s, d.e, d.i, d.c, true, -1, 0, 0, 0, 0, false};
        }
        d.fn (d.data); }, &loop, n, 0);
}
LOOP (static) LOOP (dynamic) LOOP (guided) LOOP (nonmonotonic_dynamic) LOOP (nonmonotonic_guided)
LOOPR (runtime) LOOPR (nonmonotonic_runtime) LOOPR (maybe_nonmonotonic_runtime)
// Tasks run at once, in the thread that creates them
void GOMP_task (void (*fn) (void *), void *data, void (*cpy) (void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
    char *buf = (char *) malloc (size + align), *arg = (char *) (((A) buf + align - 1) & ~(A) (align - 1));
    if (cpy) cpy (arg, data); else memcpy (arg, data, size);
    fn (arg);
    free (buf);
}
void GOMP_taskloop (void (*fn) (void *), void *data, void (*cpy) (void *, void *), long size, long align, unsigned, unsigned long, int, long s, long e, long)
{
    char *buf = (char *) malloc (size + align), *arg = (char *) (((A) buf + align - 1) & ~(A) (align - 1));
    if (cpy) cpy (arg, data); else memcpy (arg, data, size);
    ((long *) arg)[0] = s; ((long *) arg)[1] = e;
    fn (arg);
    free (buf);
}
void GOMP_taskwait (void) {}
void GOMP_taskyield (void) {}
void GOMP_taskgroup_start (void) {}
void GOMP_taskgroup_end (void) {}
int omp_get_num_threads (void) { return teamed () ? S.team : 1; }
int omp_get_thread_num (void) { return teamed () ? self : 0; }
int omp_get_max_threads (void) { return S.configured; }
int omp_get_num_procs (void) { return S.configured; }
int omp_in_parallel (void) { return S.in_region && S.team > 1; }
int omp_get_thread_limit (void) { return MAXT; }
int omp_get_level (void) { return S.in_region; }
int omp_get_dynamic (void) { return 0; }
void omp_set_num_threads (int) {}
void omp_set_dynamic (int) {}
void omp_set_nested (int) {}
void omp_set_max_active_levels (int) {}
double omp_get_wtime (void) { return 0; }
void omp_init_lock (void *) {}
void omp_destroy_lock (void *) {}
void omp_set_lock (void *p) { lock ((A) p); }
void omp_unset_lock (void *p) { unlock ((A) p); }
int omp_test_lock (void *p) { return try_lock ((A) p); }

// ---- libtsan ----
#define PC __builtin_return_address (0)
void __tsan_init (void) {}
void __tsan_func_entry (void *) {}
void __tsan_func_exit (void) {}
void __tsan_vptr_update (void **p, void *v) { if (monitored () && *p != v) record ((A) p, 8, 1, PC); }
void __tsan_vptr_read (void **p) { if (monitored ()) record ((A) p, 8, 0, PC); }
#define RW(n) \
    void __tsan_read##n (void *p) { if (monitored ()) record ((A) p, n, 0, PC); } \
    void __tsan_write##n (void *p) { if (monitored ()) record ((A) p, n, 1, PC); } \
    void __tsan_unaligned_read##n (void *p) { if (monitored ()) record ((A) p, n, 0, PC); } \
    void __tsan_unaligned_write##n (void *p) { if (monitored ()) record ((A) p, n, 1, PC); } \
    void __tsan_volatile_read##n (void *p) { if (monitored ()) record ((A) p, n, 0, PC); } \
    void __tsan_volatile_write##n (void *p) { if (monitored ()) record ((A) p, n, 1, PC); }
RW (1) RW (2) RW (4) RW (8) RW (16)
void __tsan_read_range (void *p, unsigned long n) { if (monitored ()) record ((A) p, n, 0, PC); }
void __tsan_write_range (void *p, unsigned long n) { if (monitored ()) record ((A) p, n, 1, PC); }
static void sync_op (void *p, size_t n, bool write, void *pc)
{
    if (!monitored ()) return;
    Rt rt;
    point ();
    acquire (clock_of ((A) p));
    record ((A) p, n, write ? 3 : 2, pc);
    if (write) release (clock_of ((A) p));
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load (const volatile T *p, int) { sync_op ((void *) p, sizeof (T), false, PC); return __atomic_load_n (p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store (volatile T *p, T v, int) { sync_op ((void *) p, sizeof (T), true, PC); __atomic_store_n (p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange (volatile T *p, T v, int) { sync_op ((void *) p, sizeof (T), true, PC); return __atomic_exchange_n (p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add (volatile T *p, T v, int) { sync_op ((void *) p, sizeof (T), true, PC); return __atomic_fetch_add (p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub (volatile T *p, T v, int) { sync_op ((void *) p, sizeof (T), true, PC); return __atomic_fetch_sub (p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and (volatile T *p, T v, int) { sync_op ((void *) p, sizeof (T), true, PC); return __atomic_fetch_and (p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or (volatile T *p, T v, int) { sync_op ((void *) p, sizeof (T), true, PC); return __atomic_fetch_or (p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor (volatile T *p, T v, int) { sync_op ((void *) p, sizeof (T), true, PC); return __atomic_fetch_xor (p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand (volatile T *p, T v, int) { sync_op ((void *) p, sizeof (T), true, PC); return __atomic_fetch_nand (p, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##bits##_compare_exchange_strong (volatile T *p, T *e, T v, int, int) { sync_op ((void *) p, sizeof (T), true, PC); return __atomic_compare_exchange_n (p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##bits##_compare_exchange_weak (volatile T *p, T *e, T v, int, int) { sync_op ((void *) p, sizeof (T), true, PC); return __atomic_compare_exchange_n (p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC (8, uint8_t) ATOMIC (16, uint16_t) ATOMIC (32, uint32_t) ATOMIC (64, uint64_t)
void __tsan_atomic_thread_fence (int) {}
void __tsan_atomic_signal_fence (int) {}

// ---- library functions that are not instrumented ----
void *__real_memcpy (void *, const void *, size_t);
void *__real_memmove (void *, const void *, size_t);
void *__real_memset (void *, int, size_t);
int __real_memcmp (const void *, const void *, size_t);
void *__wrap_memcpy (void *d, const void *s, size_t n) { if (monitored ()) { record ((A) s, n, 0, PC); record ((A) d, n, 1, PC); } return __real_memcpy (d, s, n); }
void *__wrap_memmove (void *d, const void *s, size_t n) { if (monitored ()) { record ((A) s, n, 0, PC); record ((A) d, n, 1, PC); } return __real_memmove (d, s, n); }
void *__wrap_memset (void *d, int c, size_t n) { if (monitored ()) record ((A) d, n, 1, PC); return __real_memset (d, c, n); }
int __wrap_memcmp (const void *a, const void *b, size_t n) { if (monitored ()) { record ((A) a, n, 0, PC); record ((A) b, n, 0, PC); } return __real_memcmp (a, b, n); }
int __real_deflate (z_streamp, int);
int __real_inflate (z_streamp, int);
static int zcall (int (*f) (z_streamp, int), z_streamp s, int flush, void *pc)
{
    if (!monitored ()) return f (s, flush);
    const A in = (A) s->next_in, out = (A) s->next_out;
    Rt rt;
    const int r = f (s, flush);
    record ((A) s, sizeof *s, 1, pc);
    record (in, (A) s->next_in - in, 0, pc);
    record (out, (A) s->next_out - out, 1, pc);
    return r;
}
int __wrap_deflate (z_streamp s, int flush) { return zcall (__real_deflate, s, flush, PC); }
int __wrap_inflate (z_streamp s, int flush) { return zcall (__real_inflate, s, flush, PC); }
int __real_pthread_mutex_lock (pthread_mutex_t *);
int __real_pthread_mutex_trylock (pthread_mutex_t *);
int __real_pthread_mutex_unlock (pthread_mutex_t *);
int __wrap_pthread_mutex_lock (pthread_mutex_t *m) { if (monitored ()) { lock ((A) m); return 0; } return __real_pthread_mutex_lock (m); }
int __wrap_pthread_mutex_trylock (pthread_mutex_t *m) { if (monitored ()) return try_lock ((A) m) ? 0 : 16; return __real_pthread_mutex_trylock (m); }
int __wrap_pthread_mutex_unlock (pthread_mutex_t *m) { if (monitored ()) { unlock ((A) m); return 0; } return __real_pthread_mutex_unlock (m); }
// Initialisation of local static variables
int __real___cxa_guard_acquire (uint64_t *);
void __real___cxa_guard_release (uint64_t *);
void __real___cxa_guard_abort (uint64_t *);
int __wrap___cxa_guard_acquire (uint64_t *g)
{
    if (!monitored ()) return __real___cxa_guard_acquire (g);
    lock ((A) g);
    if (*(char *) g) { unlock ((A) g); return 0; }
    return 1;
}
void __wrap___cxa_guard_release (uint64_t *g)
{
    if (!monitored ()) return __real___cxa_guard_release (g);
    *(char *) g = 1;
    { Rt rt; release (clock_of ((A) g)); }
    unlock ((A) g);
}
void __wrap___cxa_guard_abort (uint64_t *g)
{
    if (!monitored ()) return __real___cxa_guard_abort (g);
    unlock ((A) g);
}
} // extern "C"

// ---- memory ----
static void *get (size_t n)
{
    if (n > (size_t (1) << 30)) throw std::bad_alloc ();
    void *p = malloc (n ? n : 1);
    if (!p) throw std::bad_alloc ();
    return p;
}
static void put (void *p, void *pc)
{
    if (!p) return;
    if (!monitored ()) { if (S.in_region && self >= 0) S.freed.push (p); else free (p); return; }
    record ((A) p, malloc_usable_size (p), 1, pc);
    S.freed.push (p);
}
void *operator new (size_t n) { return get (n); }
void *operator new[] (size_t n) { return get (n); }
void operator delete (void *p) noexcept { put (p, PC); }
void operator delete[] (void *p) noexcept { put (p, PC); }
void operator delete (void *p, size_t) noexcept { put (p, PC); }
void operator delete[] (void *p, size_t) noexcept { put (p, PC); }
