// C03: malformed or truncated input is rejected, never misread
#include "app.h"
#include "glue.h"
using namespace model;

// Corrupted sizes must not make the checks exhaust the machine's memory
static void limit_memory ()
{
    static bool done = false;
    if (done || mc::is_asan) return;
    rlimit r; getrlimit (RLIMIT_AS, &r); r.rlim_cur = 700ul << 20; setrlimit (RLIMIT_AS, &r);
    done = true;
}

static const char *READERS[] = {"read_spoc_file", "format-specific reader", "read_header + read_point_record"};
// Reads with one of the readers. Records that were delivered before an error are kept in got.
static bool rejects (const std::string &b, int how, bool compressed, Cloud &got, std::string &what)
{
    std::istringstream s (b);
    return glue::throws ([&] {
        if (how == 0) got = glue::from_spoc (spoc::io::read_spoc_file (s));
        else if (how == 1) got = glue::from_spoc (compressed ? spoc::io::read_spoc_file_compressed (s) : spoc::io::read_spoc_file_uncompressed (s));
        else
        {
            const auto h = spoc::header::read_header (s);
            got.wkt = h.wkt; got.extra = h.total_points ? h.extra_fields : 0; got.compressed = h.compressed;
            if (h.compressed) throw std::runtime_error ("not for this reader");
            for (size_t n = 0; n < h.total_points; ++n) got.v.push_back (glue::from_spoc (spoc::point_record::read_point_record (s, h.extra_fields)));
        }
    }, &what);
}
// What must hold of any bytes: they are rejected, or they hold a cloud and exactly that is read
static void verify (const std::string &b, bool compressed, bool must_reject, const char *desc)
{
    const auto p = parse (b);
    const bool valid = p && p->c.minor == spoc::MINOR_VERSION;
    if (must_reject && valid) mc::internal_error (std::string ("model accepts: ") + desc);
    mc::state (b);
    for (int how = 0; how < 3; ++how)
    {
        if (how == 2 && compressed) continue;
        Cloud got; std::string what;
        const bool rej = rejects (b, how, compressed, got, what);
        mc::step ();
        if (!valid)
        {
            MC_CHECK (rej, std::string ("accepted/") + READERS[how], "%s accepts bytes that do not hold a cloud (%s); it returned a %s", READERS[how], desc, show (got).c_str ());
            MC_CHECK (!what.empty (), "message", "no error message");
        }
        else if (!rej)
        {
            Cloud want = p->c; if (want.v.empty ()) want.extra = 0;
            const std::string d = differ (want, got);
            MC_CHECK (d.empty (), std::string ("misread/") + READERS[how], "%s misreads (%s): %s", READERS[how], desc, d.c_str ());
        }
    }
    mc::validated ();
}
static Cloud shape (int k)
{
    static const int N[] = {0, 1, 2, 3, 60, 1, 3, 9}, E[] = {0, 0, 1, 3, 0, 255, 60, 1}, P[] = {1, 2, 2, 1, 2, 2, 2, 1}, W[] = {3, 0, 5, 300, 1, 1, 0, 1};
    return make (N[k], E[k], wkt_of_length (W[k]), false, P[k]);
}

// Cut at every byte
MC_SCENARIO ("truncate", 0, 0)
{
    limit_memory ();
    Cloud c = shape (mc::choose (8));
    c.compressed = mc::is_asan && c.extra > 3 ? 0 : mc::choose (2); // (large allocations are slow with asan)
    if (mc::choose (2) && !c.v.empty ()) for (auto &r : c.v) { r.x = r.y = 0; r.p = 0; r.b = 0; if (c.extra) r.e.back () = 0; } // some all-zero fields
    const std::string b = encode (c);
    const size_t cut = mc::choose ((int) b.size ());
    const std::string t = b.substr (0, cut);
    verify (t, c.compressed, true, mc::fmt ("cut at byte %zu of %zu; %s", cut, b.size (), show (c, 2).c_str ()).c_str ());
    if (cut < header_size (c))
    {
        std::istringstream s (t);
        MC_CHECK (glue::throws ([&] { spoc::header::read_header (s); }), "accepted/read_header", "read_header accepts a header cut at byte %zu of %zu", cut, header_size (c));
    }
    else if (!c.compressed)
    {
        // the records before the cut are the true ones
        std::istringstream s (t);
        const auto h = spoc::header::read_header (s);
        const size_t whole = (cut - header_size (c)) / (40 + 8 * c.extra);
        for (size_t n = 0; n < whole; ++n)
            MC_CHECK (same (glue::from_spoc (spoc::point_record::read_point_record (s, h.extra_fields)), c.v[n]), "record", "record %zu before the cut is misread", n);
        MC_CHECK (glue::throws ([&] { spoc::point_record::read_point_record (s, h.extra_fields); }), "accepted/read_point_record", "a record cut at byte %zu is returned", cut);
    }
}
// Every value of every byte of the identifier and the version
MC_SCENARIO ("identifier", 0, 0)
{
    Cloud c = shape (mc::choose (4));
    c.compressed = mc::choose (2);
    std::string b = encode (c);
    const int k = mc::choose (6);
    const int v = mc::choose (256);
    if ((uint8_t) b[k] == v) mc::abandon ();
    b[k] = (char) v;
    verify (b, c.compressed, true, mc::fmt ("byte %d of the header is %d", k, v).c_str ());
    std::istringstream s (b);
    MC_CHECK (glue::throws ([&] { spoc::header::read_header (s); }), "accepted/read_header", "read_header accepts byte %d = %d", k, v);
}
// Every value of the size bytes (WKT length, extra fields, count, flag)
MC_SCENARIO ("sizes", 0, 0)
{
    limit_memory ();
    Cloud c = shape (mc::choose (5));
    c.compressed = mc::choose (2);
    std::string b = encode (c);
    const size_t w = c.wkt.size ();
    static const std::vector<int> LOW {0, 1, 2, 3, 4, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255};
    const int k = mc::choose (12);
    const size_t at = k < 2 ? 6 + k : 8 + w + (k - 2); // 2: extras 3-10: count 11: flag
    int v;
    if (k < 4 || k == 11) v = mc::choose (256);
    else if (k == 4) v = LOW[mc::choose ((int) LOW.size ())];
    else { if (mc::is_asan) mc::abandon (); v = LOW[mc::choose (k == 5 ? 3 : (int) LOW.size ())]; }
    b[at] = (char) v;
    if (k == 5 && v == 2 && c.compressed) mc::abandon ();
    verify (b, c.compressed, false, mc::fmt ("header byte %zu is %d; was a %s", at, v, show (c, 1).c_str ()).c_str ());
}
// Every value of every byte of small compressed files (thorough), every single bit flip (quick)
MC_SCENARIO ("damage", 0, 0)
{
    limit_memory ();
    Cloud c = make (1 + 2 * mc::choose (2), 1, "W", true, 1 + mc::choose (mc::thorough () ? 2 : 1));
    if (mc::choose (2)) for (auto &r : c.v) { r.x = r.p = r.g = 0; }
    std::string b = encode (c);
    const size_t h = header_size (c);
    const size_t at = h + mc::choose ((int) (b.size () - h));
    // is it a length byte that asks for a huge buffer?
    bool high = false;
    { size_t k = h; for (int f = 0; f < 10; ++f) { const size_t k0 = k; uint64_t n; get_le (b, k, n); if (at >= k0 + 3 && at < k0 + 8) high = true; k += n; } }
    if (high && mc::is_asan) mc::abandon ();
    if (mc::thorough ()) b[at] = (char) mc::choose (256);
    else b[at] ^= (char) (1 << mc::choose (8));
    verify (b, true, false, mc::fmt ("byte %zu of %zu of a compressed file is %d", at, b.size (), (uint8_t) b[at]).c_str ());
}
// Streams that are valid zlib but hold the wrong number of bytes, in every field
MC_SCENARIO ("wrong-stream-size", 0, 0)
{
    const int n = 1 + mc::choose (3);
    Cloud c = make (n, 2, "W", true, 1);
    const int field = mc::choose (11), delta = mc::choose (7), how = mc::choose (2);
    static const int D[] = {-8, -4, -1, 1, 2, 8, 100};
    auto fs = field_streams (c);
    std::string b = header_bytes (c);
    for (int f = 0; f < 11; ++f)
    {
        std::string raw = fs[f];
        if (f == field)
        {
            const long sz = (long) raw.size () + D[delta];
            if (sz < 0) mc::abandon ();
            raw.resize (sz, 'q');
            if (how && sz == 0) mc::abandon ();
        }
        const std::string z = deflated (raw);
        put_le<uint64_t> (b, z.size ()); b += z;
    }
    verify (b, true, true, mc::fmt ("field %d decompresses to %d bytes too many", field, D[delta]).c_str ());
}
// The count contradicts the number of records that are there
MC_SCENARIO ("count", 0, 0)
{
    Cloud c = make (mc::choose (30), mc::choose (3), "W", mc::choose (2), 2);
    const int claim = mc::choose (60);
    std::string b = encode (c);
    const size_t at = 8 + c.wkt.size () + 1;
    for (int k = 0; k < 8; ++k) b[at + k] = (char) (k ? 0 : claim);
    verify (b, c.compressed, false, mc::fmt ("%d records claimed; %s", claim, show (c, 1).c_str ()).c_str ());
}
// Bytes behind the last record do not matter
MC_SCENARIO ("trailing", 0, 0)
{
    Cloud c = shape (mc::choose (5));
    c.compressed = mc::choose (2);
    const std::string b = encode (c);
    std::string tail;
    const int kind = mc::choose (5);
    if (kind == 0) tail = std::string (1, (char) mc::choose (256));
    else if (kind == 1) tail = std::string (1 + mc::choose (100), 0);
    else if (kind == 2) tail = b;
    else if (kind == 3) tail = encode (make (3, 1, "other", mc::choose (2), 2));
    else tail = b.substr (0, 1 + mc::choose ((int) b.size () - 1));
    for (int how = 0; how < 3; ++how)
    {
        if (how == 2 && c.compressed) continue;
        Cloud got; std::string what;
        MC_CHECK (!rejects (b + tail, how, c.compressed, got, what), "trailing-rejected", "%s: %zu bytes behind the cloud make it fail: %s", READERS[how], tail.size (), what.c_str ());
        const std::string d = differ (c, got);
        MC_CHECK (d.empty (), "trailing-misread", "%s: %zu bytes behind the cloud change what is read: %s", READERS[how], tail.size (), d.c_str ());
        mc::step ();
    }
    mc::state (b + tail); mc::validated ();
}
// A valid file, then a damaged one, then a valid one: nothing of an earlier one shows
MC_SCENARIO ("histories", 0, 0)
{
    for (int k = 0; k < 3; ++k)
    {
        Cloud c = make (1 + k, 1, "W", mc::choose (2), 2 + k);
        std::string b = encode (c);
        const int damage = mc::choose (4);
        const size_t h = header_size (c);
        if (damage == 1) b.resize (h + (b.size () - h) / 2);
        if (damage == 2) b.resize (b.size () - 1);
        if (damage == 3) b[0] = 'X';
        verify (b, c.compressed, damage != 0, "in a sequence of files");
        if (damage == 0)
        {
            Cloud got; std::string what;
            MC_CHECK (!rejects (b, 0, c.compressed, got, what) && differ (c, got).empty (), "sequence", "a valid file behind a damaged one is misread");
        }
    }
}

// ---- the commands ----
struct Use { const char *app; std::vector<std::string> args; int in; bool header_only; int comp; }; // in: index of the argument that is the damaged file; comp: -1 any, else needed flag
static const std::vector<Use> &uses ()
{
    static const std::vector<Use> u {
        {"compress", {"D"}, 0, false, 0}, {"decompress", {"D"}, 0, false, 1},
        {"diff", {"D", "G"}, 0, false, -1}, {"diff", {"G", "D"}, 1, false, -1}, {"diff", {"-r", "G", "D"}, 2, false, -1}, {"diff", {"-a", "D", "G"}, 1, true, -1}, {"diff", {"-d", "G", "D"}, 2, false, -1}, {"diff", {"-f", "x", "D", "G"}, 2, false, -1},
        {"diff", {"-r", "-d", "D", "G"}, 2, false, -1},
        {"filter", {"-k", "2", "D"}, 2, false, -1}, {"filter", {"-u", "D"}, 1, false, -1},
        {"info", {"D"}, 0, false, -1}, {"info", {"-j", "D"}, 1, false, -1}, {"info", {"G", "D"}, 1, false, -1},
        {"merge", {"D", "G"}, 0, false, -1}, {"merge", {"G", "D"}, 1, false, -1}, {"merge", {"-q", "G", "G", "D"}, 3, false, -1},
        {"srs", {"D"}, 0, true, -1}, {"srs", {"G", "D"}, 1, true, -1}, {"srs", {"-s", "X", "D", "out.spoc"}, 2, false, -1},
        {"tile", {"-p", "tt", "D"}, 2, false, -1},
        {"tool", {"-g", "x", "D"}, 2, false, -1}, {"tool", {"--recenter-xy", "D"}, 1, false, -1}, {"tool", {"--resize-extra=3", "D"}, 1, false, -1}, {"tool", {"--subtract-min-xyz", "D"}, 1, false, -1},
        {"tool", {"-s", "c", "-f", "vals", "D"}, 4, false, -1}, {"tool", {"--upsample-classifications=G", "--resolution=1", "D"}, 2, false, -1}, {"tool", {"--resolution=1", "G", "--upsample-classifications=D"}, 2, false, -1},
        {"transform", {"--add-x=1", "D"}, 1, false, 0}, {"transform", {"--set=c=3", "D", "out.spoc"}, 1, false, 0}};
    return u;
}
// Runs one use of a command on damaged bytes
static void run_use (const Use &u, const Cloud &good, const std::string &b, bool header_ok, bool by_stdin, const char *desc)
{
    app::spit ("G", encode (good));
    app::Cmd c; c.name = u.app;
    for (size_t k = 0; k < u.args.size (); ++k)
    {
        if (by_stdin && (int) k == u.in) continue;
        c.args.push_back (u.args[k]);
    }
    if (by_stdin) c.in = b; else app::spit ("D", b);
    std::string vals; for (size_t k = 0; k < good.v.size (); ++k) vals += "1\n";
    app::spit ("vals", vals);
    const app::Result r = app::run (c);
    mc::state (mc::hash_str (b) ^ mc::hash_str (u.app));
    if (!(u.header_only && header_ok))
    {
        MC_CHECK (r.rc != 0, std::string ("status/") + u.app, "%s exits with 0 for %s", app::text (c).c_str (), desc);
        MC_CHECK (!r.err.empty (), std::string ("message/") + u.app, "%s prints no error message for %s", app::text (c).c_str (), desc);
        // what must not exist: a complete cloud on standard output, or tiles
        const auto p = parse (r.out);
        if (std::string (u.app) != "transform")
            MC_CHECK (!p, std::string ("output/") + u.app, "%s wrote a cloud to standard output for %s", app::text (c).c_str (), desc);
        for (auto &f : app::list ())
            if (f != "G" && f != "D" && f != "vals")
            {
                const auto q = parse (app::slurp (f));
                MC_CHECK (!q || std::string (u.app) == "transform", std::string ("output/") + u.app, "%s wrote a cloud to %s for %s", app::text (c).c_str (), f.c_str (), desc);
            }
    }
    app::clean ();
    mc::validated ();
}
static const Use &choose_use (Cloud &c, bool &by_stdin)
{
    const Use &u = mc::choose_from (uses ());
    c.compressed = u.comp >= 0 ? u.comp : mc::choose (2);
    const std::string n = u.app;
    const bool stdin_ok = n != "diff" && n != "info" && n != "merge" && !(n == "srs" && (u.args.size () > 1)) && u.args.back () != "out.spoc" && u.args[u.in] == "D";
    by_stdin = stdin_ok ? mc::choose (2) : false;
    return u;
}
// Every command, every cut position of a small file
MC_SCENARIO ("commands-truncate", 0, 0)
{
    limit_memory ();
    Cloud c = make (mc::thorough () ? 3 : 2, 1, "WK", false, 1);
    bool by_stdin;
    const Use &u = choose_use (c, by_stdin);
    const std::string b = encode (c);
    const size_t cut = mc::choose ((int) b.size ());
    if (std::string (u.args[u.in]) != "D") { // the file named inside an option
        Use v = u; run_use (v, c, b.substr (0, cut), cut >= header_size (c), false, mc::fmt ("a file cut at byte %zu of %zu", cut, b.size ()).c_str ()); }
    else run_use (u, c, b.substr (0, cut), cut >= header_size (c), by_stdin, mc::fmt ("a file cut at byte %zu of %zu", cut, b.size ()).c_str ());
}
// Every command, damaged identifier, version, streams; not a cloud at all; a directory
MC_SCENARIO ("commands-damage", 0, 0)
{
    limit_memory ();
    Cloud c = make (2, 1, "WK", false, 1);
    bool by_stdin;
    const Use &u = choose_use (c, by_stdin);
    std::string b = encode (c), desc;
    bool header_ok = false;
    const int kind = mc::choose (5);
    if (kind == 0) { const int k = mc::choose (6); b[k] ^= (char) (1 << mc::choose (8)); desc = "a damaged identifier or version"; }
    else if (kind == 1) { b = std::string (1 + mc::choose (64), (char) (mc::choose (3) * 100)); desc = "a file that is not a cloud"; }
    else if (kind == 2)
    {
        if (!c.compressed) mc::abandon ();
        // any bit of a checksum, or of the compressed data
        const int f = mc::choose (10);
        size_t k = header_size (c); uint64_t n = 0;
        for (int j = 0; j <= f; ++j) { get_le (b, k, n); if (j < f) k += n; }
        if (n == 0) mc::abandon ();
        b[k + n - 1 - mc::choose (4)] ^= (char) (1 << mc::choose (8)); desc = mc::fmt ("a damaged checksum of field %d", f); header_ok = true;
    }
    else if (kind == 3)
    {
        // a few too many, or any one higher bit of the eight bytes
        const int at = 8 + (int) c.wkt.size () + 1, k = mc::choose (10 + 62);
        if (k < 10) b[at] = (char) (3 + k); else b[at + (k - 8) / 8] ^= (char) (1 << ((k - 8) % 8));
        desc = "a count that is too large"; header_ok = true;
    }
    else { b.clear (); desc = "an empty file"; }
    run_use (u, c, b, header_ok, by_stdin, desc.c_str ());
}

MC_MAIN
