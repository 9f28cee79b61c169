// Stateless, exhaustive explorer of bounded choice trees over the real code.
//
// A harness registers scenarios. A scenario body is a deterministic function of the answers it gets from
// mc::choose(n) (all answers are explored) and mc::dev(n) (answer 0 is the default, every other answer costs
// one deviation, and all combinations of at most the scenario's bound of deviations are explored). The
// explorer runs the body once per leaf of that tree, depth first, on all cores; every leaf is executed
// exactly once. Nothing is sampled.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include "alloc.h"

namespace mc
{

struct Failure { std::string key, msg; };
struct Abandon {}; // the rest of this execution is outside the stated bounds
// Set by harness code that must not throw (callbacks inside the code under test).

enum { MAXDEPTH = 4096, MAXWORKERS = 16, MAXUNITS = 512, MAXSCEN = 96, UNITDEPTH = 1024 };

struct CP { int idx, n, limit; bool dev; };

struct Scenario
{
    const char *name;
    int quick, thorough; // deviation bounds
    std::function<void()> body;
    double exec_limit;   // seconds before a single execution is looked at as a hang
};

inline std::vector<Scenario> &scenarios () { static std::vector<Scenario> s; return s; }
struct Reg
{
    Reg (const char *n, int q, int t, std::function<void()> b, double lim = 10.0)
    { scenarios ().push_back (Scenario {n, q, t, b, lim}); }
};
#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
#define MC_SCENARIO(name, quick, thorough) MC_SLOW_SCENARIO (name, quick, thorough, 20.0)
// One whose executions may take longer
#define MC_SLOW_SCENARIO(name, quick, thorough, seconds) \
    static void MC_CAT(mc_body_,__LINE__) (); \
    static mc::Reg MC_CAT(mc_reg_,__LINE__) (name, quick, thorough, MC_CAT(mc_body_,__LINE__), seconds); \
    static void MC_CAT(mc_body_,__LINE__) ()

struct Unit { int scen; int depth; CP cp[UNITDEPTH]; };

struct WorkerShm
{
    std::atomic<int> pid;
    std::atomic<int> active;   // holds a unit
    std::atomic<int> in_exec;
    std::atomic<double> exec_start;
    std::atomic<int> failed;   // a failure record is present
    int scen, depth, pos;
    CP cp[MAXDEPTH];
    char key[512];
    char msg[16384];
    int fail_depth, fail_scen;
    int fail_choices[MAXDEPTH];
    uint64_t max_depth;
    std::atomic<uint64_t> execs[MAXSCEN], trans[MAXSCEN], validated[MAXSCEN], abandoned[MAXSCEN], known[MAXSCEN];
};

struct Shm
{
    std::atomic<int> stop;
    std::atomic<int> lock;
    std::atomic<int> nunits;
    std::atomic<int> outstanding[MAXSCEN]; // units queued or running per scenario
    std::atomic<int> idle;
    std::atomic<int> samples[MAXSCEN];
    std::atomic<int> exec_mode;
    Unit units[MAXUNITS];
    WorkerShm w[MAXWORKERS];
    std::atomic<uint64_t> known_hits[64];
};

// ---- state of this process ----
inline Shm *shm = nullptr;
inline WorkerShm *me = nullptr;
inline int my_id = -1;
inline bool replaying = false;
inline bool thorough_tier = false;
inline bool in_body = false;
inline bool exact_addresses = false; // the check needs the same addresses in every run of a command
inline std::string tmpdir;
inline std::vector<std::string> known_keys;
inline std::vector<std::unordered_set<uint64_t>> states;
inline std::vector<std::string> trace_lines;
inline bool want_sample = false;
inline int bound_of (int scen) { return thorough_tier ? scenarios ()[scen].thorough : scenarios ()[scen].quick; }
inline bool thorough () { return thorough_tier; }
#ifdef __SANITIZE_ADDRESS__
inline constexpr bool is_asan = true;
#else
inline constexpr bool is_asan = false;
#endif
inline bool exec_mode () { return (shm && shm->exec_mode.load ()) || getenv ("MC_APP_EXEC"); }

inline double now ()
{
    timespec t; syscall (SYS_clock_gettime, CLOCK_MONOTONIC, &t); // the explorer's own time, see world.h
    return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string fmt (const char *f, ...) __attribute__ ((format (printf, 1, 2)));
inline std::string fmt (const char *f, ...)
{
    va_list ap; va_start (ap, f);
    char buf[4096]; vsnprintf (buf, sizeof buf, f, ap);
    va_end (ap);
    return buf;
}

[[noreturn]] inline void internal_error (const std::string &s)
{
    fprintf (stderr, "MC-INTERNAL-ERROR: %s\n", s.c_str ());
    fflush (stderr);
    _exit (77);
}

// ---- harness API ----
inline int pick (int n, bool dev)
{
    if (!me) internal_error ("choice outside an execution");
    if (n <= 0) internal_error ("choose(0)");
    WorkerShm &w = *me;
    if (w.pos >= MAXDEPTH) internal_error ("choice depth exceeded");
    if (w.pos < w.depth)
    {
        CP &c = w.cp[w.pos];
        if (c.n == 0) { c.n = n; c.dev = dev; } // replay file: only indexes are known
        if (c.n != n || c.dev != dev || c.idx >= n)
            internal_error (fmt ("divergence while replaying a prefix: scenario %s pos %d: recorded n=%d dev=%d idx=%d, now n=%d dev=%d",
                scenarios ()[w.scen].name, w.pos, c.n, c.dev, c.idx, n, dev));
    }
    else
    {
        int limit = n;
        if (dev)
        {
            int used = 0;
            for (int i = 0; i < w.pos; ++i) used += w.cp[i].dev && w.cp[i].idx != 0;
            if (used >= bound_of (w.scen)) limit = 1;
        }
        w.cp[w.pos] = CP {0, n, limit, dev};
        w.depth = w.pos + 1;
    }
    return w.cp[w.pos++].idx;
}
inline int choose (int n) { return pick (n, false); }
inline int dev (int n) { return pick (n, true); }
template<typename T> const T &choose_from (const std::vector<T> &v) { return v[choose ((int) v.size ())]; }
template<typename T> const T &dev_from (const std::vector<T> &v) { return v[dev ((int) v.size ())]; }

inline void step (uint64_t n = 1) { me->trans[me->scen] += n; }
inline void validated (uint64_t n = 1) { me->validated[me->scen] += n; }
inline uint64_t hash_bytes (const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char *q = (const unsigned char *) p;
    while (n >= 8) { uint64_t v; memcpy (&v, q, 8); h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; q += 8; n -= 8; }
    while (n--) { h = (h ^ *q++) * 1099511628211ull; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
    return h;
}
inline uint64_t hash_str (const std::string &s, uint64_t h = 1469598103934665603ull) { return hash_bytes (s.data (), s.size (), h ^ s.size ()); }
// A state of the system under test that this execution observed
inline void state (uint64_t h)
{
    auto &s = states[me->scen];
    if (s.size () < 3000000) s.insert (h);
}
inline void state (const std::string &bytes) { state (hash_str (bytes)); }
inline bool tracing () { return replaying || want_sample; }
inline void note (const std::string &s) { if (tracing ()) trace_lines.push_back (s); }
inline void fail (const std::string &key, const std::string &msg) { throw Failure {key, msg}; }
inline void check (bool ok, const std::string &key, const std::string &msg) { if (!ok) throw Failure {key, msg}; }
#define MC_CHECK(c, key, ...) do { if (!(c)) throw mc::Failure {key, mc::fmt (__VA_ARGS__)}; } while (0)
inline void abandon () { throw Abandon {}; }

// ---- internals ----
struct Lock
{
    Lock () { int e = 0; while (!shm->lock.compare_exchange_weak (e, 1)) { e = 0; usleep (20); } }
    ~Lock () { shm->lock = 0; }
};

inline std::string json_escape (const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf (b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

// 0 = ran to completion, 1 = failure (key/msg filled), 2 = abandoned
inline int run_once (WorkerShm &w, std::string &key, std::string &msg)
{
    w.pos = 0;
    trace_lines.clear ();
    int r = 0;
    try { scenarios ()[w.scen].body (); }
    catch (const Failure &f) { key = f.key; msg = f.msg; r = 1; }
    catch (const Abandon &) { r = 2; }
    catch (const std::exception &e) { key = std::string ("unexpected-exception"); msg = std::string ("unexpected exception: ") + e.what (); r = 1; }
    if (r == 0 && w.pos < w.depth && !replaying)
        internal_error (fmt ("divergence: scenario %s used %d choices, prefix had %d", scenarios ()[w.scen].name, w.pos, w.depth));
    if (r != 0) { if (w.depth > w.pos) w.depth = w.pos; } // choices behind the failure were never taken
    return r;
}

inline bool advance (WorkerShm &w)
{
    while (w.depth > 0)
    {
        CP &c = w.cp[w.depth - 1];
        if (c.idx + 1 < c.limit) { ++c.idx; return true; }
        --w.depth;
    }
    return false;
}

inline bool pop_unit (WorkerShm &w)
{
    Lock l;
    int n = shm->nunits.load ();
    if (n == 0) return false;
    Unit &u = shm->units[n - 1];
    w.scen = u.scen; w.depth = u.depth;
    memcpy (w.cp, u.cp, sizeof (CP) * u.depth);
    w.active = 1;
    shm->nunits = n - 1;
    return true;
}

inline void donate (WorkerShm &w)
{
    if (shm->idle.load () == 0 || shm->nunits.load () >= MAXUNITS / 2) return;
    // shallowest choice point with unexplored alternatives
    int i = 0;
    for (; i < w.depth; ++i) if (w.cp[i].idx + 1 < w.cp[i].limit) break;
    if (i >= w.depth || i >= UNITDEPTH - 1) return;
    Lock l;
    int n = shm->nunits.load ();
    if (n >= MAXUNITS - 1) return;
    Unit &u = shm->units[n];
    u.scen = w.scen; u.depth = i + 1;
    for (int k = 0; k < i; ++k) { u.cp[k] = w.cp[k]; u.cp[k].limit = u.cp[k].idx + 1; }
    // give away the upper half of the alternatives (at least one)
    const int lo = w.cp[i].idx + 1, hi = w.cp[i].limit;
    const int mid = lo + (hi - lo) / 2;
    u.cp[i] = w.cp[i]; u.cp[i].idx = mid; u.cp[i].limit = hi;
    w.cp[i].limit = mid;
    shm->outstanding[w.scen]++;
    shm->nunits = n + 1;
}

inline void enter_scratch (const std::string &d)
{
    mkdir (d.c_str (), 0700);
    if (chdir (d.c_str ()) != 0) internal_error ("cannot enter scratch directory");
}

inline int worker_main (int id)
{
    prctl (PR_SET_PDEATHSIG, SIGKILL);
    my_id = id; me = &shm->w[id];
    WorkerShm &w = *me;
    const std::string errfn = tmpdir + "/stderr." + std::to_string (id);
    int fd = open (errfn.c_str (), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2 (fd, 2); dup2 (open ("/dev/null", O_RDONLY), 0); dup2 (open ("/dev/null", O_WRONLY), 1);
    enter_scratch (tmpdir + "/w" + std::to_string (id));
    states.resize (scenarios ().size ());
    std::vector<std::pair<int,std::vector<int>>> history;
    bool idle = false;
    while (!shm->stop.load ())
    {
        if (!w.active.load ())
        {
            if (!pop_unit (w))
            {
                if (!idle) { idle = true; shm->idle++; }
                int total = 0;
                for (size_t s = 0; s < scenarios ().size (); ++s) total += shm->outstanding[s].load ();
                if (total == 0) break;
                usleep (500);
                continue;
            }
            if (idle) { idle = false; shm->idle--; }
        }
        std::string key, msg;
        want_sample = shm->samples[w.scen].load () < 3 && w.execs[w.scen] % 97 == 0;
        w.exec_start = now ();
        w.in_exec = 1;
        in_body = true;
        const int r = run_once (w, key, msg);
        in_body = false;
        w.in_exec = 0;
        w.execs[w.scen]++;
        if ((uint64_t) w.depth > w.max_depth) w.max_depth = w.depth;
        std::vector<int> cs;
        for (int i = 0; i < w.depth; ++i) cs.push_back (w.cp[i].idx);
        if (history.size () == 48) history.erase (history.begin ());
        history.push_back ({w.scen, cs});
        if (want_sample && r == 0 && !trace_lines.empty () && shm->samples[w.scen]++ < 3)
        {
            std::ofstream o (tmpdir + "/samples", std::ios::app);
            std::string s;
            s += "{\"scenario\":\"" + json_escape (scenarios ()[w.scen].name) + "\",\"choices\":[";
            for (size_t i = 0; i < cs.size () && i < 200; ++i) s += (i ? "," : "") + std::to_string (cs[i]);
            s += "],\"trace\":[";
            for (size_t i = 0; i < trace_lines.size () && i < 24; ++i) s += std::string (i ? "," : "") + "\"" + json_escape (trace_lines[i].substr (0, 300)) + "\"";
            s += "]}\n";
            o << s << std::flush;
        }
        if (r == 2) w.abandoned[w.scen]++;
        if (r == 1)
        {
            bool known = false;
            for (size_t k = 0; k < known_keys.size () && k < 64; ++k)
                if (known_keys[k] == key) { shm->known_hits[k]++; known = true; }
            if (known) w.known[w.scen]++;
            else
            {
                snprintf (w.key, sizeof w.key, "%s", key.c_str ());
                snprintf (w.msg, sizeof w.msg, "%s", msg.c_str ());
                w.fail_depth = w.depth; w.fail_scen = w.scen;
                for (int i = 0; i < w.depth; ++i) w.fail_choices[i] = w.cp[i].idx;
                std::ofstream o (tmpdir + "/hist." + std::to_string (id));
                for (auto &h : history)
                {
                    o << h.first << ' ' << h.second.size ();
                    for (int c : h.second) o << ' ' << c;
                    o << '\n';
                }
                o.close ();
                w.failed = 1;
                shm->stop = 1;
                if (!advance (w)) { w.active = 0; shm->outstanding[w.scen]--; }
                break;
            }
        }
        if (!advance (w)) { w.active = 0; shm->outstanding[w.scen]--; }
        else donate (w);
    }
    if (idle) shm->idle--;
    // states
    {
        std::ofstream o (tmpdir + "/states." + std::to_string (id) + "." + std::to_string (getpid ()), std::ios::binary);
        for (size_t s = 0; s < states.size (); ++s)
            for (uint64_t h : states[s]) { uint64_t v[2] = {s, h}; o.write ((const char *) v, 16); }
    }
    return 0;
}

// Runs recorded executions in this (fresh) process; the last one is the one that is expected to fail.
// exit: 0 no failure, 10 failure in the last execution, anything else: crash
inline int replay_main (const std::string &fn, bool verbose)
{
    replaying = true;
    static WorkerShm *w = (WorkerShm *) calloc (1, sizeof (WorkerShm));
    me = w; my_id = 99;
    states.resize (scenarios ().size ());
    std::vector<std::pair<int,std::vector<int>>> list;
    {
        std::ifstream i (fn);
        std::string line;
        while (std::getline (i, line))
        {
            if (line.empty () || line[0] == '#') continue;
            std::istringstream ls (line);
            std::string name; int n;
            ls >> name >> n;
            int scen = -1;
            for (size_t k = 0; k < scenarios ().size (); ++k) if (name == scenarios ()[k].name) scen = (int) k;
            if (scen < 0) internal_error ("unknown scenario " + name);
            std::vector<int> c (n);
            for (auto &x : c) ls >> x;
            list.push_back ({scen, c});
        }
    }
    enter_scratch (tmpdir + "/replay." + std::to_string (getpid ()));
    int r = 0; std::string key, msg;
    for (auto &e : list)
    {
        w->scen = e.first; w->depth = (int) e.second.size ();
        for (int i = 0; i < w->depth; ++i) w->cp[i] = CP {e.second[i], 0, 0, false};
        r = run_once (*w, key, msg);
    }
    if (verbose)
    {
        for (auto &l : trace_lines) printf ("  %s\n", l.c_str ());
        printf ("result: %s\n", r == 1 ? ("FAIL key=" + key + ": " + msg).c_str () : r == 2 ? "outside the bounds" : "ok");
    }
    if (r == 1)
    {
        std::ofstream o (tmpdir + "/replay.result");
        o << key << "\n";
        for (auto &l : trace_lines) o << "trace: " << l << "\n";
        o << msg << "\n";
        return 10;
    }
    return 0;
}

struct Opts
{
    std::string out, property = "?";
    int workers = 8;
    double budget = 1e9;
    std::vector<std::string> only;
    std::string replay_dir;
};

// Runs a replay file in a fresh process. Returns 0 not reproduced, 1 failure, 2 crash, 3 hang
inline int confirm (char **argv, const std::string &file, bool execmode, double limit, std::string &detail)
{
    unlink ((tmpdir + "/replay.result").c_str ());
    const pid_t p = fork ();
    if (p == 0)
    {
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        setpgid (0, 0);
        int fd = open ((tmpdir + "/replay.stderr").c_str (), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2 (fd, 2); dup2 (open ("/dev/null", O_WRONLY), 1); dup2 (open ("/dev/null", O_RDONLY), 0);
        if (execmode) setenv ("MC_APP_EXEC", "1", 1);
        execl ("/proc/self/exe", argv[0], "--replay-internal", file.c_str (), "--tmp", tmpdir.c_str (), "--tier", thorough_tier ? "thorough" : "quick", (char *) 0);
        _exit (78);
    }
    const double t0 = now ();
    int st = 0;
    while (true)
    {
        const pid_t q = waitpid (p, &st, WNOHANG);
        if (q == p) break;
        if (now () - t0 > limit) { kill (-p, SIGKILL); kill (p, SIGKILL); waitpid (p, &st, 0); detail = fmt ("does not terminate within %.0f s", limit); return 3; }
        usleep (5000);
    }
    auto slurp = [] (const std::string &f) { std::ifstream i (f); std::stringstream s; s << i.rdbuf (); return s.str (); };
    if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return 0;
    if (WIFEXITED (st) && WEXITSTATUS (st) == 10) { detail = slurp (tmpdir + "/replay.result"); return 1; }
    if (WIFEXITED (st) && WEXITSTATUS (st) == 77) { detail = slurp (tmpdir + "/replay.stderr"); return 0; }
    detail = slurp (tmpdir + "/replay.stderr");
    if (detail.size () > 3000) detail = detail.substr (0, 3000);
    detail = (WIFSIGNALED (st) ? fmt ("killed by signal %d\n", WTERMSIG (st)) : fmt ("ended with status %d\n", WEXITSTATUS (st))) + detail;
    return 2;
}

inline int run (int argc, char **argv)
{
    Opts o;
    std::string replay, ireplay;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string (i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") thorough_tier = next () == "thorough";
        else if (a == "--workers") o.workers = std::min (atoi (next ().c_str ()), (int) MAXWORKERS);
        else if (a == "--budget") o.budget = atof (next ().c_str ());
        else if (a == "--tmp") tmpdir = next ();
        else if (a == "--out") o.out = next ();
        else if (a == "--only") o.only.push_back (next ());
        else if (a == "--known") known_keys.push_back (next ());
        else if (a == "--replay-dir") o.replay_dir = next ();
        else if (a == "--replay") replay = next ();
        else if (a == "--replay-internal") ireplay = next ();
        else if (a == "--list") { for (auto &s : scenarios ()) puts (s.name); return 0; }
    }
    if (tmpdir.empty ()) { fprintf (stderr, "--tmp is required\n"); return 2; }
    signal (SIGPIPE, SIG_IGN);
    signal (SIGXFSZ, SIG_IGN);
    if (!replay.empty ()) return replay_main (replay, true);
    if (!ireplay.empty ()) _exit (replay_main (ireplay, false));

    if (scenarios ().size () > MAXSCEN) internal_error ("too many scenarios");
    shm = (Shm *) mmap (nullptr, sizeof (Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) internal_error ("mmap");
    new (shm) Shm ();
    const int S = (int) scenarios ().size ();
    for (int s = S - 1; s >= 0; --s)
    {
        if (!o.only.empty ())
        {
            bool sel = false;
            for (auto &n : o.only) sel |= std::string (scenarios ()[s].name).find (n) != std::string::npos;
            if (!sel) continue;
        }
        if (bound_of (s) < 0) continue; // not in this tier
        Unit &u = shm->units[shm->nunits++];
        u.scen = s; u.depth = 0;
        shm->outstanding[s] = 1;
    }
    const double t0 = now ();
    bool capped = false;
    std::string violation; // JSON fragment
    int unconfirmed = 0;
    std::string unconfirmed_note;
    int nviol = 0;
    std::set<std::pair<int,std::string>> seen_unconfirmed;
    while (true)
    {
        shm->stop = 0; shm->idle = 0;
        int alive = 0;
        std::vector<int> crashed;
        for (int i = 0; i < o.workers; ++i)
        {
            WorkerShm &w = shm->w[i];
            w.failed = 0; w.in_exec = 0;
            const pid_t p = fork ();
            if (p == 0) _exit (worker_main (i));
            w.pid = p; ++alive;
        }
        while (alive > 0)
        {
            int st; const pid_t p = waitpid (-1, &st, WNOHANG);
            if (p > 0)
            {
                for (int i = 0; i < o.workers; ++i) if (shm->w[i].pid == p)
                {
                    --alive; shm->w[i].pid = 0;
                    if (!(WIFEXITED (st) && WEXITSTATUS (st) == 0) || shm->w[i].in_exec.load ())
                    {
                        // ended inside an execution
                        std::ifstream e (tmpdir + "/stderr." + std::to_string (i));
                        std::stringstream ss; ss << e.rdbuf ();
                        if (WIFEXITED (st) && WEXITSTATUS (st) == 77) { fprintf (stderr, "%s\n", ss.str ().c_str ()); }
                        crashed.push_back (i);
                        shm->lock = 0;
                        shm->stop = 1;
                    }
                }
                continue;
            }
            const double t = now ();
            for (int i = 0; i < o.workers; ++i)
            {
                WorkerShm &w = shm->w[i];
                if (w.pid && w.in_exec.load () && t - w.exec_start.load () > scenarios ()[w.scen].exec_limit)
                { kill (w.pid, SIGKILL); }
            }
            if (t - t0 > o.budget && !shm->stop) { shm->stop = 1; capped = true; }
            usleep (3000);
        }
        // look at what was reported
        bool again = false, hang = false;
        for (int i = 0; i < o.workers; ++i)
        {
            WorkerShm &w = shm->w[i];
            const bool cr = std::find (crashed.begin (), crashed.end (), i) != crashed.end ();
            if (!w.failed && !cr) continue;
            if (cr && !w.in_exec) { fprintf (stderr, "MC: worker %d died outside an execution\n", i); }
            int scen = w.failed ? w.fail_scen : w.scen;
            std::vector<int> ch;
            if (w.failed) ch.assign (w.fail_choices, w.fail_choices + w.fail_depth);
            else for (int k = 0; k < w.depth; ++k) ch.push_back (w.cp[k].idx); // includes the unexplored tail, which is harmless
            if (cr && !w.failed) ch.resize (std::min ((size_t) w.pos, ch.size ()));
            auto line = [&] (int s, const std::vector<int> &c) {
                std::string l = std::string (scenarios ()[s].name) + " " + std::to_string (c.size ());
                for (int x : c) l += " " + std::to_string (x);
                return l + "\n"; };
            std::vector<std::string> attempts {line (scen, ch)};
            if (w.failed)
            {
                std::ifstream h (tmpdir + "/hist." + std::to_string (i));
                std::string l, all, last8; std::vector<std::string> ls;
                while (std::getline (h, l))
                {
                    std::istringstream is (l); int s, n; is >> s >> n; std::vector<int> c (n); for (auto &x : c) is >> x;
                    ls.push_back (line (s, c));
                }
                for (size_t k = 0; k < ls.size (); ++k) { all += ls[k]; if (k + 8 >= ls.size ()) last8 += ls[k]; }
                attempts.push_back (last8); attempts.push_back (all);
            }
            const std::string cand = tmpdir + "/cand";
            bool confirmed = false;
            std::string detail, used; int kind = 0;
            if (nviol < 3 && !hang)
            for (auto &a : attempts)
            {
                { std::ofstream f (cand); f << a; }
                const double lim = 3 * scenarios ()[scen].exec_limit;
                kind = confirm (argv, cand, true, lim, detail);
                if (kind == 0) continue;
                if (kind == 3) { confirmed = hang = true; used = a; break; } // the second time that it took too long, and one is enough
                // the same again, to be sure that it is deterministic
                std::string d2;
                const int k2 = confirm (argv, cand, true, lim, d2);
                if (k2 == kind) { confirmed = true; used = a; break; }
            }
            if (confirmed)
            {
                std::string key = w.failed ? w.key : kind == 3 ? "hang" : "crash";
                if (kind == 1) key = detail.substr (0, detail.find ('\n'));
                std::string msg = w.failed ? std::string (w.msg) : detail;
                const std::string rf = o.replay_dir + "/" + std::string (getenv ("MC_VARIANT") ? getenv ("MC_VARIANT") : is_asan ? "asan" : "rel") + "-" + std::to_string (nviol) + ".replay";
                std::ofstream f (rf);
                f << used;
                std::istringstream ds (detail); std::string dl;
                f << "# property failure key: " << key << "\n";
                while (std::getline (ds, dl)) f << "# " << dl << "\n";
                violation += std::string (nviol ? "," : "") + "{\"scenario\":\"" + scenarios ()[scen].name + "\",\"key\":\"" + json_escape (key) + "\",\"kind\":" + std::to_string (kind) + ",\"msg\":\"" + json_escape (msg.substr (0, 3000)) + "\",\"detail\":\"" + json_escape (detail.substr (0, 4000)) + "\",\"replay\":\"" + json_escape (rf) + "\"}";
                ++nviol;
            }
            else if (nviol == 0)
            {
                ++unconfirmed;
                unconfirmed_note = std::string (scenarios ()[scen].name) + ": " + (w.failed ? std::string (w.key) + ": " + std::string (w.msg).substr (0, 400) : "process ended");
                shm->exec_mode = 1; // from now on every command runs in a process of its own
                again = true;
            }
            if (cr && !w.failed)
            {
                w.execs[w.scen]++;
                if (w.depth > w.pos) w.depth = w.pos;
                if (!advance (w)) { w.active = 0; shm->outstanding[w.scen]--; }
            }
        }
        if (nviol) break;
        if (capped) break;
        if (!again) break;
        if (unconfirmed > 40) { capped = true; break; }
    }
    // merge states
    std::vector<std::unordered_set<uint64_t>> all (S);
    {
        std::string cmd;
        for (int i = 0; i < o.workers; ++i)
        {
            // a worker may have been restarted, so there can be several files
            char pat[512]; snprintf (pat, sizeof pat, "%s/states.%d.", tmpdir.c_str (), i);
            FILE *ls = popen (("ls " + std::string (pat) + "* 2>/dev/null").c_str (), "r");
            if (!ls) continue;
            char fn[1024];
            while (fgets (fn, sizeof fn, ls))
            {
                fn[strcspn (fn, "\n")] = 0;
                std::ifstream f (fn, std::ios::binary);
                uint64_t v[2];
                while (f.read ((char *) v, 16)) if (v[0] < (uint64_t) S) all[v[0]].insert (v[1]);
            }
            pclose (ls);
        }
    }
    std::ofstream out (o.out);
    out << "{\"asan\":" << (is_asan ? "true" : "false") << ",\"capped\":" << (capped ? "true" : "false") << ",\"wall\":" << now () - t0 << ",\"unconfirmed\":" << unconfirmed << ",\"unconfirmed_note\":\"" << json_escape (unconfirmed_note) << "\",\"violations\":[" << violation << "],\"known\":{";
    for (size_t k = 0; k < known_keys.size (); ++k) out << (k ? "," : "") << "\"" << json_escape (known_keys[k]) << "\":" << (k < 64 ? shm->known_hits[k].load () : 0);
    out << "},\"scenarios\":[";
    bool first = true;
    for (int s = 0; s < S; ++s)
    {
        uint64_t e = 0, t = 0, v = 0, a = 0, kn = 0;
        for (int i = 0; i < o.workers; ++i) { auto &w = shm->w[i]; e += w.execs[s]; t += w.trans[s]; v += w.validated[s]; a += w.abandoned[s]; kn += w.known[s]; }
        if (bound_of (s) < 0) continue;
        out << (first ? "" : ",") << "{\"name\":\"" << scenarios ()[s].name << "\",\"deviation_bound\":" << bound_of (s) << ",\"executions\":" << e << ",\"transitions\":" << t << ",\"validated\":" << v << ",\"abandoned\":" << a << ",\"known\":" << kn << ",\"states\":" << all[s].size () << ",\"complete\":" << (shm->outstanding[s].load () == 0 ? "true" : "false") << "}";
        first = false;
    }
    uint64_t md = 0; for (int i = 0; i < o.workers; ++i) md = std::max (md, shm->w[i].max_depth);
    out << "],\"max_choice_depth\":" << md << "}\n";
    out.close ();
    return nviol ? 1 : 0;
}

} // namespace mc

#define MC_MAIN int main (int argc, char **argv) { return mc::run (argc, argv); }
