// C22: short reads never change results and records flow through
#include "glue.h"
#include "cli.h"
#include "spoc/compression.h"
#include <sys/ioctl.h>
using namespace model;
using cli::Args;

// ---- a source that delivers its bytes in the given pieces ----
struct Split : std::streambuf
{
    std::string data;
    std::vector<size_t> cuts; // positions, ascending
    size_t next = 0, limit;
    bool blocked = false;     // more was asked for than is there yet
    std::function<void (size_t)> on_read;
    Split (const std::string &d, std::vector<size_t> c) : data (d), cuts (std::move (c)), limit (d.size ()) { setg (&data[0], &data[0], &data[0]); }
    int_type underflow () override
    {
        if (gptr () < egptr ()) return traits_type::to_int_type (*gptr ());
        const size_t pos = gptr () - &data[0];
        if (on_read) on_read (pos);
        if (pos >= limit) { if (limit < data.size ()) blocked = true; return traits_type::eof (); }
        while (next < cuts.size () && cuts[next] <= pos) ++next;
        const size_t end = next < cuts.size () ? std::min (limit, cuts[next]) : limit;
        setg (&data[0], &data[pos], &data[end]);
        return traits_type::to_int_type (*gptr ());
    }
    size_t position () const { return gptr () - &data[0]; }
};
static std::vector<size_t> every (size_t step, size_t n) { std::vector<size_t> v; for (size_t k = step; k < n; k += step) v.push_back (k); return v; }

// What a reader makes of a stream, as text
static std::string describe (const Cloud &c) { return show (c, 3) + mc::fmt (" hash %016" PRIx64, hash (c)); }
enum { FILE_, UNCOMPRESSED, COMPRESSED, RECORDS, HEADER, READERS };
static const char *READER[] = {"read_spoc_file", "read_spoc_file_uncompressed", "read_spoc_file_compressed", "read_header and read_point_record", "read_header"};
static std::string read_with (int how, std::istream &s)
{
    mc::step ();
    std::string what;
    Cloud c;
    const bool err = glue::throws ([&] {
        if (how == FILE_) c = glue::from_spoc (spoc::io::read_spoc_file (s));
        else if (how == UNCOMPRESSED) c = glue::from_spoc (spoc::io::read_spoc_file_uncompressed (s));
        else if (how == COMPRESSED) c = glue::from_spoc (spoc::io::read_spoc_file_compressed (s));
        else
        {
            const auto h = spoc::header::read_header (s);
            c.wkt = h.wkt; c.compressed = h.compressed; c.major = h.major_version; c.minor = h.minor_version; c.extra = h.extra_fields;
            if (how == RECORDS) for (size_t k = 0; k < h.total_points && !h.compressed; ++k) c.v.push_back (glue::from_spoc (spoc::point_record::read_point_record (s, h.extra_fields)));
        }
    }, &what);
    return err ? "error" : describe (c);
}
static void compare (int how, const std::string &data, const std::vector<size_t> &cuts, const std::string &want, const Cloud &c)
{
    Split b (data, cuts);
    std::istream s (&b);
    const std::string got = read_with (how, s);
    std::string at; for (size_t k = 0; k < cuts.size () && k < 5; ++k) at += " " + std::to_string (cuts[k]);
    MC_CHECK (got == want, "short-read", "%s of %s delivered in pieces cut at%s (%zu cuts): %s instead of %s", READER[how], show (c).c_str (), at.c_str (), cuts.size (), got.c_str (), want.c_str ());
}
static std::string unsplit (int how, const std::string &data) { std::istringstream s (data); return read_with (how, s); }
static const std::vector<Cloud> &small_clouds ()
{
    static const std::vector<Cloud> v = [] {
        std::vector<Cloud> v;
        for (int comp = 0; comp < 2; ++comp) { v.push_back (make (2, 1, "WKT", comp, 1)); v.push_back (make (1, 0, "", comp, 1)); v.push_back (make (0, 0, "w", comp, 1)); v.push_back (make (3, 2, "ab", comp, 1)); }
        return v;
    } ();
    return v;
}
// All sets of one or two cut points (three on the smallest in the thorough tier); whole and truncated files
MC_SCENARIO ("library-cuts", 0, 0)
{
    const Cloud &c = mc::choose_from (small_clouds ());
    const int how = mc::choose (READERS);
    std::string data = encode (c);
    const bool bad = mc::choose (2);
    if (bad) data.pop_back ();
    const std::string want = unsplit (how, data);
    if (!bad && (how == FILE_ || how == RECORDS || how == HEADER)) MC_CHECK (want != "error", "fails", "%s of %s", READER[how], show (c).c_str ());
    const size_t a = 1 + mc::choose (data.size () - 1);
    compare (how, data, {a}, want, c);
    if (!bad && (how != HEADER || a < header_size (c)) && !(c.compressed && !mc::thorough () && data.size () > 200)) for (size_t b = a + 1; b < data.size (); ++b) compare (how, data, {a, b}, want, c);
    mc::state (mc::hash_str (want, a * 16 + how)); mc::validated ();
}
// Pieces of every constant size, for clouds larger than internal buffers
MC_SCENARIO ("library-pieces", 0, 0)
{
    struct Shape { size_t n, e; int pattern; };
    static const std::vector<Shape> S {{5, 0, 1}, {100, 3, 2}, {1000, 0, 2}, {30, 255, 2}, {3000, 2, 1}};
    const Shape &s = mc::choose_from (S);
    const Cloud c = make (s.n, s.e, wkt_of_length (s.n), mc::choose (2), s.pattern);
    const int how = mc::choose (READERS);
    const std::string data = encode (c);
    static const std::vector<size_t> P {1, 2, 3, 5, 7, 8, 13, 39, 40, 41, 64, 100, 127, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 65536};
    const size_t p = mc::choose_from (P);
    if (mc::is_asan && data.size () / p > 100000) mc::abandon ();
    const std::string want = unsplit (how, data);
    compare (how, data, every (p, data.size ()), want, c);
    mc::state (mc::hash_str (want)); mc::validated ();
}
// The stream interface of the compression layer
MC_SCENARIO ("compression-cuts", 0, 0)
{
    const int kind = mc::choose (3), how = mc::choose (2);
    std::string raw;
    if (kind == 1) raw = "aaaaaaaaaabbbbbbbbbbabcabcabc"; else if (kind == 2) for (int k = 0; k < 60; ++k) raw.push_back ((char) mix (k));
    const std::string data = how ? raw : deflated (raw);
    if (data.empty ()) mc::abandon ();
    const size_t a = 1 + mc::choose (data.size ());
    for (size_t b = a; b < data.size () + 1; ++b)
    {
        std::vector<size_t> cuts {a, b};
        if (mc::is_asan && b % 8) continue;
        Split s (data, cuts); std::istream i (&s); std::ostringstream o;
        mc::step ();
        const bool err = glue::throws ([&] { if (how) spoc::compression::compress (i, o, -1); else spoc::compression::decompress (i, o); });
        std::string got = o.str ();
        if (how && !err) { std::string r; MC_CHECK (inflated (got.data (), got.size (), raw.size (), r), "compression", "not a stream that holds %zu bytes", raw.size ()); got = r; }
        MC_CHECK (!err && got == raw, "compression", "%s %zu bytes in pieces cut at %zu, %zu: %s %zu bytes", how ? "compressing" : "decompressing", data.size (), a, b, err ? "error" : "gives", got.size ());
    }
    mc::state (a * 4 + kind); mc::validated ();
}

// ---- exactly the bytes that are needed ----
// With the header and k records delivered, k records can be read, and reading stops exactly there
MC_SCENARIO ("prefix", 0, 0)
{
    static const std::vector<size_t> W {0, 1, 255, 256, 1000}, E {0, 1, 2, 17, 123, 124, 255};
    const size_t w = mc::choose_from (W), e = mc::choose_from (E), n = 1 + mc::choose (4), k = mc::choose (n + 1);
    const Cloud c = make (n, e, wkt_of_length (w), false, 2);
    const std::string data = encode (c) + "behind";
    const size_t piece = mc::choose_from (std::vector<size_t> {1, 7, 1000000});
    Split b (data, every (piece, data.size ()));
    b.limit = header_size (c) + k * (40 + 8 * e);
    std::istream s (&b);
    mc::step (1 + k);
    const auto h = spoc::header::read_header (s);
    MC_CHECK (!b.blocked && b.position () == header_size (c), "header-size", "%s: read_header reads %zu bytes of a header of %zu%s", show (c).c_str (), b.position (), header_size (c), b.blocked ? " and waits for more" : "");
    for (size_t j = 0; j < k; ++j)
    {
        const Rec r = glue::from_spoc (spoc::point_record::read_point_record (s, h.extra_fields));
        MC_CHECK (same (r, c.v[j]), "record", "record %zu of %s is %s", j, show (c).c_str (), show (r).c_str ());
        MC_CHECK (!b.blocked && b.position () == header_size (c) + (j + 1) * (40 + 8 * e), "record-size", "%s: behind record %zu at byte %zu%s", show (c).c_str (), j, b.position (), b.blocked ? ", waits for more" : "");
    }
    mc::state (b.limit * 1000 + e); mc::validated ();
}
// Several clouds in one stream, read record by record, in any pieces
MC_SCENARIO ("sequence", 0, 0)
{
    const int n = 1 + mc::choose (mc::thorough () ? 4 : 3);
    const size_t piece = mc::choose_from (std::vector<size_t> {1, 3, 40, 41, 1000000});
    std::vector<Cloud> v; std::string data;
    for (int k = 0; k < n; ++k)
    {
        static const std::vector<Cloud> C {make (0, 0, "", false, 1), make (1, 0, "a", false, 2), make (2, 3, "bcd", false, 2), make (3, 1, wkt_of_length (300), false, 2), make (0, 0, "empty", false, 1)};
        v.push_back (mc::choose_from (C)); data += encode (v.back ());
    }
    Split b (data, every (piece, data.size ()));
    std::istream s (&b);
    for (int k = 0; k < n; ++k)
    {
        const std::string got = read_with (RECORDS, s);
        MC_CHECK (got == describe (v[k]), "sequence", "cloud %d of %d is %s instead of %s", k, n, got.c_str (), describe (v[k]).c_str ());
    }
    MC_CHECK (b.position () == data.size (), "sequence", "%zu of %zu bytes read", b.position (), data.size ());
    mc::state (data); mc::validated ();
}

// ---- commands ----
struct Form { std::string name; Args args; int accepts; };
static const std::vector<Form> &forms ()
{
    static const std::vector<Form> v {
        {"compress", {}, 0}, {"decompress", {}, 1}, {"filter", {"-k", "2"}, -1}, {"filter", {"-s", "2"}, -1}, {"info", {}, -1}, {"info", {"-j"}, -1}, {"srs", {}, -1}, {"srs", {"-s", "new"}, -1}, {"tile", {"-f", "-s", "1", "-p", "t"}, -1},
        {"tool", {"-g", "x"}, -1}, {"tool", {"--recenter-xy"}, -1}, {"tool", {"--resize-extra=1"}, -1}, {"transform", {"--add-x=1"}, 0}, {"transform", {"--set=e0,5"}, 0},
    };
    return v;
}
static std::string outcome (const app::Result &r) { std::string s = mc::fmt ("exit %d, %zu bytes, hash %016" PRIx64, r.rc, r.out.size (), mc::hash_str (r.out)); for (auto &f : app::list ()) s += " " + f + mc::fmt (":%016" PRIx64, mc::hash_str (app::slurp (f))); return s; }
MC_SCENARIO ("command-cuts", 0, 0)
{
    const Form &f = mc::choose_from (forms ());
    const int shape = mc::choose (2), comp = mc::choose (2);
    const Cloud c = shape ? make (2, 1, "WKT", comp, 1) : make (40, 2, "W", comp, 1);
    const std::string data = encode (c);
    app::clean ();
    const std::string want = outcome (app::run (f.name, f.args, data));
    auto check = [&] (const std::vector<size_t> &cuts) {
        app::clean ();
        Split b (data, cuts);
        app::Cmd x; x.name = f.name; x.args = f.args; x.inbuf = &b;
        const std::string got = outcome (app::run (x));
        MC_CHECK (got == want, "short-read", "spoc_%s %s on %s delivered in pieces cut at %zu (%zu cuts): %s instead of %s", f.name.c_str (), cli::join (f.args).c_str (), show (c).c_str (), cuts[0], cuts.size (), got.c_str (), want.c_str ());
    };
    if (shape)
    {
        const size_t a = 1 + mc::choose (data.size () - 1);
        check ({a});
        if (mc::thorough ()) for (size_t b = a + 1; b < data.size (); ++b) check ({a, b});
    }
    else check (every (mc::choose_from (std::vector<size_t> {1, 2, 3, 7, 8, 40, 56, 57, 100, 512, 1000}), data.size ()));
    mc::state (mc::hash_str (want)); mc::validated ();
}

// ---- the order of reads and writes of spoc_transform ----
struct Sink : std::streambuf
{
    std::string data; size_t visible = 0;
    int_type overflow (int_type c) override { if (c != traits_type::eof ()) data.push_back ((char) c); return traits_type::not_eof (c); }
    std::streamsize xsputn (const char *s, std::streamsize n) override { data.append (s, n); return n; }
    int sync () override { visible = data.size (); return 0; }
};
static const std::vector<Args> &transforms ()
{
    static const std::vector<Args> v {{"--add-x=1"}, {"--scale-z=2"}, {"--rotate-y=90"}, {"--quantize-xyz=0.5"}, {"--set=c,3"}, {"--replace=c,2,3"}, {"--replace-not=i,1,2"}, {"--copy-field=c,p"}, {"--gaussian-noise=1"}, {"--uniform-noise-y=2"}, {"--add-x=1", "--set=i,4", "--rotate-z=10"}};
    return v;
}
MC_SCENARIO ("transform-order", 0, 0)
{
    const Args &a = mc::choose_from (transforms ());
    static const std::vector<size_t> E {0, 1, 20, 255}, N {0, 1, 2, 3, 8, 100};
    const size_t e = mc::choose_from (E), n = mc::choose_from (N);
    const Cloud c = make (n, e, wkt_of_length (mc::choose_from (std::vector<size_t> {0, 5, 300})), false, 1);
    const std::string data = encode (c);
    const size_t rec = 40 + 8 * e, h = header_size (c);
    // pieces of every size up to some records, or cut at the records
    static const std::vector<size_t> P {0, 1, 7, 39, 40, 41, 48, 56, 100, 2080, 4096};
    const size_t p = mc::choose_from (P);
    std::vector<size_t> cuts;
    if (p) cuts = every (p, data.size ()); else { cuts.push_back (h); for (size_t k = 1; k < n; ++k) cuts.push_back (h + k * rec); }
    if (mc::is_asan && cuts.size () > 3000) mc::abandon ();
    Split in (data, cuts); Sink out;
    std::string problem;
    in.on_read = [&] (size_t pos) {
        // everything up to 'pos' has been delivered
        const size_t k = pos <= h ? 0 : std::min (n, (pos - h) / rec);
        if (k && problem.empty () && out.visible < h + k * rec) problem = mc::fmt ("more input is read behind byte %zu (%zu records), but only %zu bytes of the output can be read (%zu expected)", pos, k, out.visible, h + k * rec);
    };
    app::Cmd x; x.name = "transform"; x.args = a; x.inbuf = &in; x.outbuf = &out;
    const app::Result r = app::run (x);
    if (a[0].find ("e0") != std::string::npos && e == 0) mc::abandon ();
    MC_CHECK (r.rc == 0, "fails", "spoc_transform %s: exit %d %s", cli::join (a).c_str (), r.rc, r.err.c_str ());
    MC_CHECK (problem.empty (), "not-streaming", "spoc_transform %s on %s: %s", cli::join (a).c_str (), show (c).c_str (), problem.c_str ());
    MC_CHECK (out.data == app::run ("transform", a, data).out, "short-read", "spoc_transform %s on %s: another output in pieces of %zu", cli::join (a).c_str (), show (c).c_str (), p);
    mc::state (mc::hash_str (out.data, p)); mc::validated ();
}
// Reading and writing record by record with the library
MC_SCENARIO ("library-order", 0, 0)
{
    static const std::vector<size_t> E {0, 1, 255}, N {1, 2, 5};
    const size_t e = mc::choose_from (E), n = mc::choose_from (N);
    const Cloud c = make (n, e, wkt_of_length (mc::choose (4)), false, 2);
    Sink out; std::ostream o (&out);
    spoc::header::header h; { std::istringstream s (encode (c)); h = spoc::header::read_header (s); }
    spoc::header::write_header (o, h);
    for (size_t k = 0; k < n; ++k)
    {
        spoc::point_record::write_point_record (o, glue::to_spoc (c.v[k]));
        mc::step ();
        MC_CHECK (out.visible == header_size (c) + (k + 1) * (40 + 8 * e), "not-flushed", "write_point_record: %zu of %zu bytes can be read behind record %zu", out.visible, header_size (c) + (k + 1) * (40 + 8 * e), k);
    }
    MC_CHECK (out.data == encode (c), "bytes", "other bytes");
    mc::state (out.data); mc::validated ();
}

// ---- real processes, real pipes ----
struct Proc { pid_t pid = 0; int in = -1, out = -1; };
static void cloexec (int fd) { fcntl (fd, F_SETFD, FD_CLOEXEC); }
// 'files' are opened by the command itself
static Proc start (const Form &f, bool pipe_in, bool pipe_out)
{
    Proc p; int a[2] = {-1, -1}, b[2] = {-1, -1};
    if ((pipe_in && pipe (a)) || (pipe_out && pipe (b))) mc::internal_error ("pipe");
    for (int fd : {a[0], a[1], b[0], b[1]}) if (fd >= 0) cloexec (fd);
    p.pid = fork ();
    if (p.pid == 0)
    {
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        const int null = open ("/dev/null", O_RDWR);
        dup2 (pipe_in ? a[0] : null, 0); dup2 (pipe_out ? b[1] : null, 1); dup2 (null, 2);
        std::vector<std::string> v {app::apps_dir () + "/launch", app::apps_dir () + "/" + f.name + ".so", "spoc_" + f.name};
        v.insert (v.end (), f.args.begin (), f.args.end ());
        std::vector<char *> c; for (auto &s : v) c.push_back (&s[0]);
        c.push_back (nullptr);
        execv (c[0], c.data ());
        _exit (126);
    }
    if (pipe_in) { close (a[0]); p.in = a[1]; }
    if (pipe_out) { close (b[1]); p.out = b[0]; }
    mc::step ();
    return p;
}
static const double PATIENCE = 30;
struct Pipeline
{
    std::vector<pid_t> pids; int in = -1, out = -1;
    std::string got;
    ~Pipeline () { if (in >= 0) close (in); if (out >= 0) close (out); for (pid_t p : pids) { kill (p, SIGKILL); int st; while (waitpid (p, &st, 0) < 0 && errno == EINTR) ; } }
    // Writes, and waits until the other side has taken everything
    void feed (const char *p, size_t n)
    {
        size_t k = 0;
        while (k < n) { pump (0); const ssize_t r = write (in, p + k, std::min<size_t> (n - k, 4096)); if (r < 0 && errno == EPIPE) return; if (r < 0) mc::internal_error ("write to pipe"); k += r; }
    }
    void drained ()
    {
        const double t0 = mc::now ();
        while (true)
        {
            int left = 0; if (ioctl (in, FIONREAD, &left) < 0 || left == 0) return;
            pollfd pf {in, POLLERR, 0}; poll (&pf, 1, 0); if (pf.revents & POLLERR) return; // nobody reads
            pump (0);
            if (mc::now () - t0 > PATIENCE) throw mc::Failure {"stalls", "the command does not read its input"};
            usleep (50);
        }
    }
    bool pump (int ms)
    {
        if (out < 0) return false;
        pollfd pf {out, POLLIN, 0};
        if (poll (&pf, 1, ms) <= 0) return true;
        char b[65536]; const ssize_t n = read (out, b, sizeof b);
        if (n <= 0) { close (out); out = -1; return false; }
        got.append (b, n);
        return true;
    }
    // Waits for this much output
    bool await (size_t n) { const double t0 = mc::now (); while (got.size () < n) { if (!pump (100) || mc::now () - t0 > PATIENCE) return got.size () >= n; } return true; }
    int finish ()
    {
        if (in >= 0) { close (in); in = -1; }
        const double t0 = mc::now ();
        while (pump (100)) if (mc::now () - t0 > PATIENCE) throw mc::Failure {"stalls", "the command does not end after its input has"};
        int rc = 0;
        for (pid_t p : pids)
        {
            int st = 0; pid_t r;
            while ((r = waitpid (p, &st, WNOHANG)) == 0 && mc::now () - t0 < PATIENCE) usleep (100);
            if (r == 0) throw mc::Failure {"stalls", "the command does not end after its input has"};
            rc = WIFEXITED (st) ? WEXITSTATUS (st) : 1000 + WTERMSIG (st);
        }
        pids.clear ();
        return rc;
    }
};
// Input through a real pipe, cut anywhere: the second part comes when the first has been taken
MC_SCENARIO ("pipe-cuts", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    std::vector<Form> F; for (auto &f : forms ()) if (f.name != "tile" && (mc::thorough () || f.name != "info" || f.args.empty ())) F.push_back (f);
    const Form &f = F[mc::choose (F.size ())];
    const Cloud c = make (2, 0, "W", f.accepts == 1 ? true : f.accepts == 0 ? false : mc::choose (2), 1);
    const std::string data = encode (c);
    const size_t a = 1 + mc::choose (data.size () - 1);
    if (!mc::thorough () && a > 24 && a % 5) mc::abandon ();
    app::clean ();
    const app::Result want = app::run (f.name, f.args, data);
    Proc q = start (f, true, true);
    Pipeline p; p.pids = {q.pid}; p.in = q.in; p.out = q.out;
    p.feed (data.data (), a); p.drained (); p.feed (data.data () + a, data.size () - a);
    const int rc = p.finish ();
    MC_CHECK (rc == want.rc && p.got == want.out, "short-read", "spoc_%s %s, input through a pipe with a pause behind byte %zu: exit %d, %zu bytes instead of exit %d, %zu bytes", f.name.c_str (), cli::join (f.args).c_str (), a, rc, p.got.size (), want.rc, want.out.size ());
    mc::state (mc::hash_str (p.got, a)); mc::validated ();
}
// Records flow through pipes and named pipes, through one or two commands, while the input is held back
MC_SCENARIO ("pipe-stream", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const int how = mc::choose (4); // stdin/stdout; named pipes; mixed; two commands
    const Args &a = mc::choose_from (transforms ());
    if (how && !mc::thorough () && &a != &transforms ()[0] && &a != &transforms ()[8]) mc::abandon ();
    const size_t e = mc::choose (2) * 3, n = mc::choose_from (std::vector<size_t> {1, 2, 4});
    const Cloud c = make (n, e, "WKT", false, 1);
    const std::string data = encode (c), want = app::run ("transform", a, data).out;
    const size_t rec = 40 + 8 * e, h = header_size (c);
    app::clean ();
    Pipeline p;
    signal (SIGPIPE, SIG_IGN);
    Form f {"transform", a, 0};
    if (how == 0 || how == 3)
    {
        Proc q = start (f, true, true);
        p.pids = {q.pid}; p.in = q.in; p.out = q.out;
        if (how == 3)
        {
            // a second command behind it, which adds zero
            int fd[2]; if (pipe (fd)) mc::internal_error ("pipe");
            cloexec (fd[0]); cloexec (fd[1]);
            const int up = q.out;
            const pid_t s = fork ();
            if (s == 0)
            {
                prctl (PR_SET_PDEATHSIG, SIGKILL);
                dup2 (up, 0); dup2 (fd[1], 1);
                const std::string l = app::apps_dir () + "/launch", so = app::apps_dir () + "/transform.so";
                execl (l.c_str (), l.c_str (), so.c_str (), "spoc_transform", "--copy-field=c,c", nullptr);
                _exit (126);
            }
            close (up); close (fd[1]);
            p.pids.push_back (s); p.out = fd[0];
        }
    }
    else
    {
        if (mkfifo ("fi", 0600)) mc::internal_error ("mkfifo");
        f.args.push_back ("fi");
        if (how == 1) { if (mkfifo ("fo", 0600)) mc::internal_error ("mkfifo"); f.args.push_back ("fo"); }
        // opened for reading and writing so that nobody has to wait for the other end
        const int hold = how == 1 ? open ("fo", O_RDONLY | O_NONBLOCK | O_CLOEXEC) : -1;
        Proc q = start (f, false, how == 2);
        p.pids = {q.pid};
        p.in = open ("fi", O_WRONLY | O_CLOEXEC);
        p.out = how == 2 ? q.out : hold;
        if (how == 1)
        {
            // wait for the command to open its output, or reading looks like the end
            const double t0 = mc::now ();
            p.feed (data.data (), h);
            pollfd pf {hold, POLLIN, 0};
            while (poll (&pf, 1, 10) == 0 || !(pf.revents & POLLIN)) if (mc::now () - t0 > PATIENCE) break; else usleep (100);
            fcntl (hold, F_SETFL, 0);
        }
    }
    const bool fed = how == 1;
    if (!fed) p.feed (data.data (), h);
    for (size_t k = 1; k <= n; ++k)
    {
        p.feed (data.data () + h + (k - 1) * rec, rec);
        MC_CHECK (p.await (h + k * rec), "not-streaming", "spoc_transform %s (%s): with %zu records of %zu delivered, %zu bytes of output arrive instead of %zu", cli::join (f.args).c_str (), how == 0 ? "pipes" : how == 3 ? "two commands" : "named pipes", k, n, p.got.size (), h + k * rec);
    }
    const int rc = p.finish ();
    MC_CHECK (rc == 0 && p.got == want, "short-read", "spoc_transform %s: exit %d, %zu bytes instead of %zu", cli::join (f.args).c_str (), rc, p.got.size (), want.size ());
    mc::state (mc::hash_str (p.got, how)); mc::validated ();
}
MC_MAIN
