// Runs the SPOC commands, built from /repo/apps into one shared object each.
//
// In-process mode calls the command's main() directly with std::cin/cout/cerr/clog redirected, which makes
// tens of thousands of command runs per second possible. Process mode ("exec mode") starts a real process
// with real file descriptors. Every violation that is found in-process is confirmed in process mode before
// it is reported (see mc.h), so that in-process artefacts can't cause alarms.
#pragma once
#include "mc.h"
#include "world.h"
#include <dirent.h>
#include <dlfcn.h>
#include <getopt.h>
#include <poll.h>

namespace app
{

struct Result
{
    int rc = 0;
    std::string out, err;
};

struct Cmd
{
    std::string name;
    std::vector<std::string> args;
    std::string in;
    std::streambuf *inbuf = nullptr;  // in-process only
    std::streambuf *outbuf = nullptr; // in-process only
    long fsize = -1;                  // file size limit
    long out_limit = -1;              // standard output accepts this many bytes
    bool out_full = false;            // standard output is /dev/full (processes only)
    bool lazy_out = false;            // ... and reports the failure when it is flushed
};

// Accepts 'limit' bytes. Lazy: failures show at sync, like those of a buffered descriptor.
struct LimitedBuf : std::streambuf
{
    std::string data; size_t limit; bool lazy;
    LimitedBuf (size_t l, bool z) : limit (l), lazy (z) {}
    int_type overflow (int_type c) override
    {
        if (c == traits_type::eof ()) return 0;
        if (!lazy && data.size () >= limit) return traits_type::eof ();
        data.push_back ((char) c);
        return c;
    }
    std::streamsize xsputn (const char *s, std::streamsize n) override
    {
        std::streamsize k = n;
        if (!lazy) k = std::min<std::streamsize> (n, limit - std::min (limit, data.size ()));
        data.append (s, k);
        return k;
    }
    int sync () override { return data.size () > limit ? -1 : 0; }
};

inline std::string slurp (const std::string &fn)
{
    std::ifstream f (fn, std::ios::binary);
    std::string s;
    char b[65536];
    while (f.read (b, sizeof b) || f.gcount ()) s.append (b, f.gcount ());
    return s;
}
inline void spit (const std::string &fn, const std::string &data)
{
    const int fd = open (fn.c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) mc::internal_error ("cannot write " + fn);
    size_t k = 0;
    while (k < data.size ())
    {
        const ssize_t r = write (fd, data.data () + k, data.size () - k);
        if (r <= 0) mc::internal_error ("cannot write " + fn);
        k += r;
    }
    close (fd);
}
inline bool exists (const std::string &fn) { struct stat st; return stat (fn.c_str (), &st) == 0; }
// Names of all files below a directory (not following links)
inline void list_into (const std::string &d, const std::string &rel, std::vector<std::string> &v)
{
    DIR *dp = opendir (d.c_str ());
    if (!dp) return;
    while (dirent *e = readdir (dp))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st;
        if (lstat ((d + "/" + n).c_str (), &st) == 0 && S_ISDIR (st.st_mode)) list_into (d + "/" + n, rel + n + "/", v);
        else v.push_back (rel + n);
    }
    closedir (dp);
}
inline std::vector<std::string> list (const std::string &d = ".")
{
    std::vector<std::string> v; list_into (d, "", v); std::sort (v.begin (), v.end ()); return v;
}
// Empties the scratch directory of this worker (the current directory)
inline void clean ()
{
    char cwd[4096];
    if (!getcwd (cwd, sizeof cwd) || std::string (cwd).rfind (mc::tmpdir, 0) != 0) mc::internal_error ("not in the scratch directory");
    DIR *dp = opendir (".");
    std::vector<std::string> names;
    while (dirent *e = readdir (dp)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back (n); }
    closedir (dp);
    for (auto &n : names)
    {
        struct stat st;
        if (lstat (n.c_str (), &st)) continue;
        if (S_ISDIR (st.st_mode))
        {
            chmod (n.c_str (), 0700);
            for (auto &f : list (n)) unlink ((n + "/" + f).c_str ());
            rmdir (n.c_str ());
        }
        else unlink (n.c_str ());
    }
}

inline std::string apps_dir () { const char *d = getenv ("MC_APPS"); if (!d) mc::internal_error ("MC_APPS is not set"); return d; }

using main_fn = int (*) (int, char **);
inline main_fn get_main (const std::string &name)
{
    static std::map<std::string,main_fn> m;
    auto i = m.find (name);
    if (i != m.end ()) return i->second;
    void *h = dlopen ((apps_dir () + "/" + name + ".so").c_str (), RTLD_NOW | RTLD_LOCAL);
    if (!h) mc::internal_error (dlerror ());
    main_fn f = (main_fn) dlsym (h, "main");
    if (!f) mc::internal_error ("no main in " + name);
    return m[name] = f;
}

inline Result run_process (const Cmd &c)
{
    static int serial = 0;
    // names outside the scratch directory, so that they can't be confused with the files of the scenario
    const std::string base = mc::tmpdir + "/p" + std::to_string (getpid ()) + "." + std::to_string (serial++);
    spit (base + ".in", c.in);
    int ep[2];
    if (pipe (ep)) mc::internal_error ("pipe");
    const pid_t p = fork ();
    if (p == 0)
    {
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        dup2 (open ((base + ".in").c_str (), O_RDONLY), 0);
        dup2 (c.out_full ? open ("/dev/full", O_WRONLY) : open ((base + ".out").c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600), 1);
        dup2 (ep[1], 2);
        for (int i = 3; i < 64; ++i) close (i);
        long lim = c.fsize >= 0 ? c.fsize : c.out_limit;
        if (lim >= 0) { rlimit r; getrlimit (RLIMIT_FSIZE, &r); r.rlim_cur = lim; setrlimit (RLIMIT_FSIZE, &r); }
        std::vector<std::string> a {apps_dir () + "/launch", apps_dir () + "/" + c.name + ".so", "spoc_" + c.name};
        a.insert (a.end (), c.args.begin (), c.args.end ());
        std::vector<char *> v;
        for (auto &s : a) v.push_back (const_cast<char *> (s.c_str ()));
        v.push_back (nullptr);
        setenv ("MC_SKEW", std::to_string (3607L * (serial % 1009)).c_str (), 1);
        execv (v[0], v.data ());
        _exit (126);
    }
    close (ep[1]);
    Result r;
    char b[4096];
    const double t0 = mc::now ();
    bool killed = false;
    while (true)
    {
        pollfd pf {ep[0], POLLIN, 0};
        if (poll (&pf, 1, 200) > 0)
        {
            const ssize_t n = read (ep[0], b, sizeof b);
            if (n <= 0) break;
            if (r.err.size () < 100000) r.err.append (b, n);
        }
        if (mc::now () - t0 > 40) { kill (p, SIGKILL); killed = true; break; }
    }
    close (ep[0]);
    int st = 0;
    while (waitpid (p, &st, 0) < 0 && errno == EINTR) ;
    r.out = slurp (base + ".out");
    unlink ((base + ".in").c_str ()); unlink ((base + ".out").c_str ());
    auto line = [&] { std::string s = "spoc_" + c.name; for (auto &a : c.args) s += " " + a; return s; };
    if (killed) throw mc::Failure {"hang", line () + ": does not terminate"};
    if (WIFSIGNALED (st)) throw mc::Failure {"crash", line () + mc::fmt (": killed by signal %d\n", WTERMSIG (st)) + r.err.substr (0, 2000)};
    r.rc = WEXITSTATUS (st);
    if (r.rc == 99 && r.err.find ("Sanitizer") != std::string::npos) throw mc::Failure {"crash", line () + ": " + r.err.substr (0, 2000)};
    return r;
}

inline Result run_inproc (const Cmd &c)
{
    const main_fn f = get_main (c.name);
    std::vector<std::string> a {"spoc_" + c.name};
    a.insert (a.end (), c.args.begin (), c.args.end ());
    std::vector<std::vector<char>> bufs;
    for (auto &s : a) bufs.emplace_back (s.c_str (), s.c_str () + s.size () + 1);
    std::vector<char *> v;
    for (auto &s : bufs) v.push_back (s.data ());
    v.push_back (nullptr);

    std::stringbuf in (c.in, std::ios::in), out (std::ios::out), err (std::ios::out);
    LimitedBuf lout (c.out_limit >= 0 ? c.out_limit : 0, c.lazy_out);
    static const std::ios clean_fmt (nullptr);
    struct Guard
    {
        std::streambuf *i = std::cin.rdbuf (), *o = std::cout.rdbuf (), *e = std::cerr.rdbuf (), *l = std::clog.rdbuf ();
        rlimit lim; bool limited = false;
        static void reset (std::ios &s) { s.copyfmt (clean_fmt); s.exceptions (std::ios::goodbit); s.clear (); }
        ~Guard ()
        {
            if (limited) { setrlimit (RLIMIT_FSIZE, &lim); }
            std::cin.rdbuf (i); std::cout.rdbuf (o); std::cerr.rdbuf (e); std::clog.rdbuf (l);
            reset (std::cin); reset (std::cout); reset (std::cerr); reset (std::clog);
        }
    } g;
    std::cin.rdbuf (c.inbuf ? c.inbuf : &in);
    std::cout.rdbuf (c.outbuf ? c.outbuf : c.out_limit >= 0 ? (std::streambuf *) &lout : &out);
    std::cerr.rdbuf (&err);
    std::clog.rdbuf (&err);
    for (std::ios *s : {(std::ios *) &std::cin, (std::ios *) &std::cout, (std::ios *) &std::cerr, (std::ios *) &std::clog}) { s->copyfmt (clean_fmt); s->clear (); }
    std::cin.tie (&std::cout); std::cerr.tie (&std::cout); std::cerr.setf (std::ios::unitbuf);
    optind = 0; opterr = 1; optopt = 0; optarg = nullptr;
    const off_t e0 = lseek (2, 0, SEEK_CUR);
    if (c.fsize >= 0)
    {
        getrlimit (RLIMIT_FSIZE, &g.lim); g.limited = true;
        rlimit l = g.lim; l.rlim_cur = c.fsize; setrlimit (RLIMIT_FSIZE, &l);
    }
    Result r;
    errno = 0;
    static unsigned serial = 0;
    r.rc = world::elsewhere (mc::exact_addresses ? 0 : serial++, [&] { return f ((int) a.size (), v.data ()); }) & 0xff;
    if (g.limited) { setrlimit (RLIMIT_FSIZE, &g.lim); g.limited = false; }
    fflush (stderr);
    const off_t e1 = lseek (2, 0, SEEK_CUR);
    if (e0 >= 0 && e1 > e0)
    {
        // what getopt printed
        const std::string fn = "/proc/self/fd/2";
        std::string s (e1 - e0, 0);
        const int fd = open (fn.c_str (), O_RDONLY);
        if (fd >= 0) { const ssize_t n = pread (fd, &s[0], s.size (), e0); s.resize (std::max<ssize_t> (0, n)); close (fd); r.err += s; }
        if (e1 > (1 << 20)) { if (ftruncate (2, 0)) {} lseek (2, 0, SEEK_SET); }
    }
    r.err += err.str ();
    r.out = c.out_limit >= 0 ? lout.data : out.str ();
    return r;
}

inline std::string text (const Cmd &c)
{
    std::string s = "spoc_" + c.name;
    for (auto &a : c.args) s += a.find_first_of (" \n\"") == std::string::npos && !a.empty () ? " " + a : " '" + a + "'";
    if (!c.in.empty ()) s += mc::fmt (" <(%zu bytes)", c.in.size ());
    return s;
}
inline Result run (const Cmd &c)
{
    mc::step ();
    Result r = mc::exec_mode () && !c.inbuf && !c.outbuf ? run_process (c) : run_inproc (c);
    if (mc::tracing ()) mc::note (text (c) + mc::fmt (" -> exit %d, %zu bytes out", r.rc, r.out.size ()) + (r.err.empty () ? "" : ", stderr: " + r.err.substr (0, 120)));
    return r;
}
inline Result run (const std::string &name, const std::vector<std::string> &args, const std::string &in = "")
{
    Cmd c; c.name = name; c.args = args; c.in = in;
    return run (c);
}

} // namespace app
