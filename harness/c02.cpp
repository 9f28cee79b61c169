// C02: compression is lossless; compress and decompress are inverses; wrong formats are refused
#include "app.h"
#include "glue.h"
using namespace model;

static void check_written (const Cloud &c, const std::string &b, const char *how)
{
    const auto p = parse (b);
    MC_CHECK (p.has_value (), "compressed-layout", "%s: the bytes written are not a compressed cloud; %s", how, show (c).c_str ());
    MC_CHECK (p->end == b.size (), "compressed-layout", "%s: %zu bytes written, the cloud ends at %zu", how, b.size (), p->end);
    const std::string d = differ (c, p->c);
    MC_CHECK (d.empty (), "written-content", "%s: the content written differs: %s; %s", how, d.c_str (), show (c).c_str ());
    // length zero stands for all-zero bytes
    size_t k = header_size (c);
    for (auto &f : field_streams (c))
    {
        uint64_t n; if (!get_le (b, k, n)) mc::internal_error ("lengths");
        MC_CHECK ((n == 0) == all_zero (f), "zero-length", "%s: a field whose bytes are %s has stream length %" PRIu64 "; %s", how, all_zero (f) ? "all zero" : "not all zero", n, show (c).c_str ());
        k += n;
    }
}
static void check_read (const Cloud &c, const std::string &b, int how)
{
    std::istringstream s (b);
    Cloud got; std::string what;
    const bool err = glue::throws ([&] { got = glue::from_spoc (how ? spoc::io::read_spoc_file_compressed (s) : spoc::io::read_spoc_file (s)); }, &what);
    MC_CHECK (!err, "read-error", "a valid compressed file is refused: %s; %s", what.c_str (), show (c).c_str ());
    const std::string d = differ (c, got);
    MC_CHECK (d.empty (), "read-content", "what was read from a compressed file differs: %s; %s", d.c_str (), show (c).c_str ());
    MC_CHECK ((size_t) s.tellg () == b.size (), "consumed", "%lld of %zu bytes consumed", (long long) s.tellg (), b.size ());
}
static void verify (const Cloud &c, bool model_bytes = true)
{
    mc::state (hash (c)); mc::note (show (c));
    const auto f = glue::to_spoc (c);
    std::ostringstream o1, o2;
    spoc::io::write_spoc_file (o1, f);
    check_written (c, o1.str (), "write_spoc_file");
    check_read (c, o1.str (), 0);
    mc::step (2);
    if (model_bytes)
    {
        spoc::io::write_spoc_file_compressed (o2, f);
        MC_CHECK (o1.str () == o2.str (), "writers-agree", "write_spoc_file and write_spoc_file_compressed differ; %s", show (c).c_str ());
        check_read (c, encode (c), 1);
        mc::step (2);
    }
    mc::validated ();
}

// Boundary values in up to 2 cells of clouds in which everything else is zero (zero-length streams)
MC_SCENARIO ("zero-cells", 2, 2)
{
    const int n = 1 + mc::choose (mc::is_asan ? 1 : mc::thorough () ? 4 : 2); // (large allocations are slow with asan)
    Cloud c = make (n, n == 1 ? 2 : 1, "W", true, 0);
    deviate (c);
    verify (c);
}
// Boundary values in up to 1 (2) cells of clouds with data in every field
MC_SCENARIO ("cells", 1, 2)
{
    const int n = mc::is_asan && !mc::thorough () ? 1 : mc::choose (4);
    if (mc::thorough () && n == 3) mc::abandon ();
    Cloud c = make (n, 2, "WKT", true, 1 + mc::choose (2));
    deviate (c);
    verify (c);
}
// Two columns of the same type, with any values in any order: they may be equal, begin and end alike, or be
// permutations of each other, and still none stands for another
MC_SCENARIO ("columns", 0, 0)
{
    static const int P[13][2] = {{0, 1}, {0, 2}, {1, 2}, {3, 4}, {5, 6}, {5, 7}, {5, 8}, {6, 7}, {6, 8}, {7, 8}, {9, 10}, {9, 11}, {10, 11}};
    if (mc::is_asan && !mc::thorough ()) mc::abandon (); // (large allocations are slow with asan)
    const int pair = mc::choose (13), n = 3 + mc::choose (mc::thorough () ? 3 : 2);
    const int same_default = mc::choose (2);
    Cloud c = make (n, 3, "", true, 0);
    for (int side = 0; side < 2; ++side)
        for (int k = 0; k < n; ++k)
        {
            const int v = mc::choose (2), f = P[pair][side];
            if (f < 3) coord (c.v[k], f) = v ? 1.5 : same_default; else set_int (c.v[k], f, v ? 258 : same_default);
        }
    verify (c, false);
}
// All shapes
MC_SCENARIO ("sizes", 0, 0)
{
    static const std::vector<int> EQ {0, 1, 2, 3, 9, 64, 255};
    static std::vector<int> ET;
    if (ET.empty ()) for (int e = 0; e < 256; ++e) if (e < 34 || e % 16 == 15 || e > 250) ET.push_back (e);
    const int extra = mc::choose_from (mc::thorough () ? ET : EQ);
    const int n = mc::choose (extra > 9 ? 4 : mc::thorough () ? 140 : 41);
    verify (make (n, extra, wkt_of_length (extra), true, 2), n < 4);
}
MC_SCENARIO ("wkt", 0, 0)
{
    static const std::vector<int> L {0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 1000, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65534, 65535};
    verify (make (mc::choose (2), 1, wkt_of_length (mc::choose_from (L)), true, 2));
}
// Field sizes around the buffer size of the compression layer (1 MiB), compressible and not, and much larger
MC_SCENARIO ("buffers", 0, 0)
{
    static const std::vector<int> N {131071, 131072, 131073, 262143, 262144, 262145, 524288};
    static const std::vector<int> NT {131070, 131071, 131072, 131073, 262143, 262144, 262145, 393216, 524287, 524288, 524289, 1048576};
    const int n = mc::choose_from (mc::thorough () ? NT : N);
    const int kind = mc::choose (3); // nothing but one value at the end, small numbers, arbitrary bits
    Cloud c; c.compressed = true; c.v.resize (n);
    if (kind == 0) { c.v[n - 1].x = 1; c.v[n - 1].c = 2; c.v[n - 1].b = 3; }
    else for (int k = 0; k < n; ++k) c.v[k] = pattern_rec (k, 0, kind);
    verify (c, false);
}
// A writer may also store a stream for an all-zero field: every subset of fields
MC_SCENARIO ("explicit-zeros", 0, 0)
{
    const int n = 1 + mc::choose (3);
    Cloud c = make (n, 1, "W", true, 0);
    const int mask = mc::choose (1 << 10), zero = mc::choose (2);
    std::string b = header_bytes (c);
    if (!zero) c = make (n, 1, "W", true, 1);
    auto fs = field_streams (c);
    for (size_t f = 0; f < fs.size (); ++f)
    {
        if (mask >> f & 1) { const std::string z = deflated (fs[f]); put_le<uint64_t> (b, z.size ()); b += z; }
        else
        {
            put_le<uint64_t> (b, 0);
            for (auto &r : c.v) { if (f < 3) coord (r, (int) f) = 0; else set_int (r, (int) f, 0); }
        }
    }
    mc::state (b); mc::step ();
    check_read (c, b, mask & 1);
    mc::validated ();
}
// Each format-specific reader and writer refuses the other format
MC_SCENARIO ("wrong-format", 0, 0)
{
    const int n = mc::choose (3), extra = mc::choose (3), pattern = mc::choose (3);
    const bool comp = mc::choose (2);
    Cloud c = make (n, extra, "W", comp, pattern);
    const std::string b = encode (c);
    std::istringstream s (b);
    MC_CHECK (glue::throws ([&] { if (comp) spoc::io::read_spoc_file_uncompressed (s); else spoc::io::read_spoc_file_compressed (s); }), "wrong-format-read", "the %s reader accepts %s", comp ? "uncompressed" : "compressed", show (c).c_str ());
    std::ostringstream o;
    const auto f = glue::to_spoc (c);
    MC_CHECK (glue::throws ([&] { if (comp) spoc::io::write_spoc_file_uncompressed (o, f); else spoc::io::write_spoc_file_compressed (o, f); }), "wrong-format-write", "the %s writer accepts %s", comp ? "uncompressed" : "compressed", show (c).c_str ());
    MC_CHECK (o.str ().empty (), "wrong-format-write", "a refused write left %zu bytes", o.str ().size ());
    mc::step (2); mc::state (b); mc::validated ();
}
// Sequences of clouds in one stream: nothing carries over
MC_SCENARIO ("histories", 0, 0)
{
    std::vector<Cloud> cs;
    std::ostringstream o;
    for (int k = 0; k < (mc::thorough () ? 4 : 3); ++k)
    {
        const int kind = mc::choose (6);
        static const int N[] = {0, 1, 3, 3, 2, 40}, E[] = {0, 2, 0, 1, 2, 0}, P[] = {0, 0, 1, 2, 1, 2};
        Cloud c = make (N[kind], E[kind], "W", true, P[kind]);
        if (kind == 4) c.compressed = false;
        cs.push_back (c);
        spoc::io::write_spoc_file (o, glue::to_spoc (c));
        mc::step ();
    }
    std::istringstream s (o.str ());
    for (auto &c : cs)
    {
        Cloud got; std::string what;
        MC_CHECK (!glue::throws ([&] { got = glue::from_spoc (spoc::io::read_spoc_file (s)); }, &what), "read-error", "cloud in a sequence: %s", what.c_str ());
        const std::string d = differ (c, got);
        MC_CHECK (d.empty (), "read-content", "cloud in a sequence: %s", d.c_str ());
        mc::state (hash (c)); mc::step ();
    }
    mc::validated ();
}

// The commands
static std::string run_ok (const std::string &name, const std::string &in, int io)
{
    app::Result r;
    std::string out;
    if (io == 0) { r = app::run (name, {}, in); out = r.out; }
    else
    {
        app::spit ("in.spoc", in);
        if (io == 1) { r = app::run (name, {"in.spoc"}); out = r.out; }
        else { r = app::run (name, {"in.spoc", "out.spoc"}); out = app::slurp ("out.spoc"); MC_CHECK (r.out.empty (), "stdout", "data on standard output"); }
        app::clean ();
    }
    MC_CHECK (r.rc == 0, name + "-status", "spoc_%s exits with %d: %s", name.c_str (), r.rc, r.err.c_str ());
    return out;
}
static void tools (Cloud c, int io)
{
    mc::note (show (c));
    c.compressed = false;
    const std::string u = encode (c);
    const std::string z = run_ok ("compress", u, io);
    Cloud cc = c; cc.compressed = true;
    check_written (cc, z, "spoc_compress");
    const std::string u2 = run_ok ("decompress", z, io);
    MC_CHECK (u2 == u, "inverse", "decompress of compress is not the original file; %s", show (c).c_str ());
    const std::string u3 = run_ok ("decompress", encode (cc), io);
    MC_CHECK (u3 == u, "decompress", "spoc_decompress output differs; %s", show (c).c_str ());
    const std::string z2 = run_ok ("compress", u3, io);
    check_written (cc, z2, "spoc_compress after spoc_decompress");
    mc::state (hash (c));
    mc::validated ();
}
MC_SCENARIO ("tools-cells", 1, 2)
{
    const int n = mc::choose (3);
    Cloud c = make (n, n == 2 ? 1 : 2, "WKT", false, mc::choose (3));
    deviate (c);
    tools (c, 0);
}
MC_SCENARIO ("tools-shapes", 0, 0)
{
    static const std::vector<int> E {0, 1, 2, 7, 130, 255};
    static const std::vector<int> N {0, 1, 2, 3, 25, 26, 51, 300};
    const int e = mc::choose_from (E), n = mc::choose_from (N);
    if (e > 7 && n > 30) mc::abandon ();
    tools (make (n, e, wkt_of_length (mc::choose (3) * 700), false, 2), mc::choose (3));
}
MC_SCENARIO ("tools-wrong-format", 0, 0)
{
    const bool comp = mc::choose (2);
    const Cloud c = make (mc::choose (4), mc::choose (3), wkt_of_length (mc::choose (2)), comp, mc::choose (3));
    const int io = mc::choose (2);
    const std::string name = comp ? "compress" : "decompress";
    const std::string b = encode (c);
    app::Result r;
    if (io == 0) r = app::run (name, {}, b);
    else
    {
        app::spit ("in.spoc", b); app::spit ("out.spoc", "old");
        r = app::run (name, {"in.spoc", "out.spoc"});
        const std::string o = app::slurp ("out.spoc");
        MC_CHECK (o == "old" || o.empty (), "wrong-format-tool", "a refused file left output");
        app::clean ();
    }
    MC_CHECK (r.rc != 0 && r.out.empty () && !r.err.empty (), "wrong-format-tool", "spoc_%s does not refuse %s: exit %d", name.c_str (), show (c).c_str (), r.rc);
    mc::state (b); mc::validated ();
}

MC_MAIN
