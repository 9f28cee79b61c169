// C04: a failed write is always reported
#include "app.h"
#include "glue.h"
using namespace model;

static std::vector<int> limits_for (size_t n, bool all)
{
    std::vector<int> v;
    for (size_t k = 0; k <= n + 1; ++k)
    {
        bool in = all || n < 500 || k < 80 || k + 90 > n;
        for (size_t b : {4096, 8191, 8192, 1024, 1023, 512}) in |= k >= b - 2 && k <= b + 2;
        if (in) v.push_back ((int) k);
    }
    return v;
}
// Calls the writer with a stream that fails behind byte 'limit'
template<typename F> static void fault (F &&writer, const std::string &want, const char *name, bool sync_expected)
{
    const size_t limit = mc::choose_from (limits_for (want.size (), mc::thorough ()));
    const bool lazy = sync_expected ? mc::choose (2) : false;
    app::LimitedBuf b (limit, lazy);
    std::ostream o (&b);
    std::string what;
    const bool err = glue::throws ([&] { writer (o); }, &what);
    mc::step (); mc::state (mc::hash_str (want) ^ limit * 2 ^ lazy);
    if (limit < want.size ()) MC_CHECK (err, std::string ("unreported/") + name, "%s reports no error although only %zu of %zu bytes could be written (%s)", name, limit, want.size (), lazy ? "failure at flush" : "failure at write");
    else
    {
        MC_CHECK (!err, std::string ("spurious/") + name, "%s reports an error although everything could be written: %s", name, what.c_str ());
        MC_CHECK (b.data == want, std::string ("content/") + name, "%s wrote something else", name);
    }
    mc::validated ();
}
static Cloud shape ()
{
    static const int N[] = {0, 1, 3, 60, 1}, E[] = {0, 0, 2, 0, 140}, W[] = {0, 5, 300, 1, 0};
    const int k = mc::choose (5);
    return make (N[k], E[k], wkt_of_length (W[k]), mc::choose (2), mc::choose (2) ? 2 : 1);
}
MC_SCENARIO ("library-files", 0, 0)
{
    const Cloud c = shape ();
    if (mc::is_asan && c.compressed && c.extra > 2) mc::abandon ();
    const auto f = glue::to_spoc (c);
    std::ostringstream o; spoc::io::write_spoc_file (o, f);
    const int how = mc::choose (2);
    if (how == 0) fault ([&] (std::ostream &s) { spoc::io::write_spoc_file (s, f); }, o.str (), "write_spoc_file", true);
    else if (c.compressed) fault ([&] (std::ostream &s) { spoc::io::write_spoc_file_compressed (s, f); }, o.str (), "write_spoc_file_compressed", true);
    else fault ([&] (std::ostream &s) { spoc::io::write_spoc_file_uncompressed (s, f); }, o.str (), "write_spoc_file_uncompressed", true);
}
MC_SCENARIO ("library-parts", 0, 0)
{
    const Cloud c = shape ();
    const auto f = glue::to_spoc (c);
    if (mc::choose (2)) fault ([&] (std::ostream &s) { spoc::header::write_header (s, f.get_header ()); }, header_bytes (c), "write_header", true);
    else
    {
        if (c.v.empty ()) mc::abandon ();
        fault ([&] (std::ostream &s) { spoc::point_record::write_point_record (s, f.get_point_records ()[0]); }, rec_bytes (c.v[0]), "write_point_record", true);
    }
}
MC_SCENARIO ("library-compression", 0, 0)
{
    std::string raw;
    const int n = mc::choose (4) * 77;
    for (int k = 0; k < n; ++k) raw.push_back ((char) (mix (k) >> 9));
    std::ostringstream z; { std::istringstream i (raw); spoc::compression::compress (i, z, -1); }
    if (mc::choose (2)) fault ([&] (std::ostream &s) { std::istringstream i (raw); spoc::compression::compress (i, s, -1); }, z.str (), "compression::compress", true);
    else fault ([&] (std::ostream &s) { std::istringstream i (z.str ()); spoc::compression::decompress (i, s); }, raw, "compression::decompress", true);
}

// ---- the commands ----
struct Use { const char *app; std::vector<std::string> args; int comp; };
static const std::vector<Use> &uses ()
{
    static const std::vector<Use> u {
        {"compress", {"U"}, 0}, {"decompress", {"U"}, 1}, {"filter", {"-r", "99", "U"}, -1}, {"merge", {"-q", "U", "V"}, -1}, {"srs", {"-s", "SRS"}, -1}, {"srs", {}, -1}, {"info", {}, -1}, {"info", {"-j"}, -1}, {"tool", {"-g", "i"}, -1}, {"filter", {"-u"}, -1}, {"transform", {"--add-y=2"}, 0}, {"compress", {}, 0}, {"decompress", {}, 1}, {"srs", {"U"}, -1}, {"srs", {"U", "V", "U"}, -1},
        {"tool", {"-g", "x", "U"}, -1}, {"tool", {"-g", "y", "U"}, -1}, {"tool", {"-g", "z", "U"}, -1}, {"tool", {"-g", "c", "U"}, -1}, {"tool", {"-g", "p", "U"}, -1}, {"tool", {"-g", "i", "U"}, -1},
        {"tool", {"-g", "r", "U"}, -1}, {"tool", {"-g", "g", "U"}, -1}, {"tool", {"-g", "b", "U"}, -1}, {"tool", {"-g", "e0", "U"}, -1}, {"tool", {"--recenter-xy", "U"}, -1}, {"tool", {"--recenter-xyz", "U"}, -1}, {"tool", {"--subtract-min-xy", "U"}, -1},
        {"filter", {"-k", "0,1,2,3", "-u", "U"}, -1}, {"filter", {"-v", "-c", "x < 0.5", "U"}, -1}, {"merge", {"-q", "-p", "5", "U", "V"}, -1}, {"transform", {"-v", "--rotate-z=30", "U"}, 0}, {"tool", {"--resize-extra=2", "U"}, -1}, {"tool", {"--subtract-min-xyz", "U"}, -1},
        {"tool", {"-s", "c", "-f", "vals", "U"}, -1}, {"tool", {"--upsample-classifications=U", "--resolution=1", "V"}, -1},
        {"transform", {"--add-x=1", "U"}, 0}, {"transform", {"--set=c=3", "--quantize-xyz=0.5", "U"}, 0},
        {"info", {"U"}, -1}, {"info", {"-j", "U"}, -1}, {"info", {"-j", "-c", "U"}, -1}, {"info", {"-c", "U"}, -1}, {"info", {"-q", "U"}, -1}, {"info", {"-s", "-l", "-m", "U"}, -1}, {"info", {"U", "V"}, -1}, {"info", {"-j", "U", "V"}, -1}};
    return u;
}
static void setup (Cloud c)
{
    app::spit ("U", encode (c));
    for (auto &r : c.v) r.c += 1;
    app::spit ("V", encode (c));
    std::string v; for (size_t k = 0; k < c.v.size (); ++k) v += std::to_string (k) + "\n";
    app::spit ("vals", v);
}
static std::string line (const app::Cmd &c) { return app::text (c); }

MC_SCENARIO ("commands-stdout", 0, 0)
{
    const Use &u = mc::choose_from (uses ());
    const int size = mc::choose (3);
    Cloud c = make (size == 0 ? 3 : size == 1 ? 0 : 210, size == 1 ? 0 : 1, "WKT of it", false, 1);
    if (u.args.size () > 1 && std::string (u.args[0]) == "-g" && u.args[1] == "e0" && c.v.empty ()) mc::abandon ();
    if (c.v.empty () && std::string (u.app) == "info") mc::abandon (); // prints undefined minima
    c.compressed = u.comp >= 0 ? u.comp : size == 2 || (mc::is_asan && !mc::thorough () && u.app != std::string ("filter")) ? 0 : mc::choose (2);
    setup (c);
    app::Cmd cmd; cmd.name = u.app; cmd.args = u.args;
    if (std::find (u.args.begin (), u.args.end (), "U") == u.args.end ()) cmd.in = encode (c);
    const app::Result ok = app::run (cmd);
    MC_CHECK (ok.rc == 0, "healthy", "%s exits with %d: %s", line (cmd).c_str (), ok.rc, ok.err.c_str ());
    const int limit = mc::choose_from (limits_for (ok.out.size (), mc::thorough ()));
    cmd.out_limit = limit; cmd.lazy_out = mc::choose (2);
    const app::Result r = app::run (cmd);
    if ((size_t) limit < ok.out.size ())
    {
        MC_CHECK (r.rc != 0, std::string ("unreported/") + u.app, "%s exits with 0 although only %d of %zu bytes of standard output could be written (%s)", line (cmd).c_str (), limit, ok.out.size (), cmd.lazy_out ? "failure at flush" : "failure at write");
        MC_CHECK (!r.err.empty (), std::string ("message/") + u.app, "%s prints no error message although only %d of %zu bytes of standard output could be written", line (cmd).c_str (), limit, ok.out.size ());
    }
    else MC_CHECK (r.rc == 0 && r.out == ok.out, std::string ("spurious/") + u.app, "%s fails with %d although everything could be written", line (cmd).c_str (), r.rc);
    mc::state (mc::hash_str (ok.out) ^ limit); mc::validated ();
    app::clean ();
}
MC_SCENARIO ("commands-file", 0, 0)
{
    const Use *up;
    static std::vector<Use> fu;
    if (fu.empty ()) for (auto &u : uses ())
    {
        const std::string a = u.app;
        if (std::find (u.args.begin (), u.args.end (), "U") == u.args.end () && std::find (u.args.begin (), u.args.end (), "V") == u.args.end ()) continue;
        if (a == "info" || a == "merge" || (a == "tool" && u.args[0] == "-g") || (a == "srs")) continue;
        Use v = u; v.args.push_back ("out"); fu.push_back (v);
    }
    if (fu.back ().app != std::string ("srs")) fu.push_back (Use {"srs", {"-s", "SRS", "U", "out"}, -1});
    up = &mc::choose_from (fu);
    const Use &u = *up;
    const int size = mc::choose (3);
    Cloud c = make (size == 0 ? 3 : size == 1 ? 0 : 210, size == 1 ? 0 : 1, "WKT of it", false, 1);
    c.compressed = u.comp >= 0 ? u.comp : size == 2 || (mc::is_asan && !mc::thorough () && u.app != std::string ("filter")) ? 0 : mc::choose (2);
    setup (c);
    app::Cmd cmd; cmd.name = u.app; cmd.args = u.args;
    const app::Result ok = app::run (cmd);
    MC_CHECK (ok.rc == 0, "healthy", "%s exits with %d: %s", line (cmd).c_str (), ok.rc, ok.err.c_str ());
    const std::string want = app::slurp ("out");
    unlink ("out");
    const int limit = mc::choose_from (limits_for (want.size (), mc::thorough ()));
    cmd.fsize = limit;
    const app::Result r = app::run (cmd);
    if ((size_t) limit < want.size ())
    {
        MC_CHECK (r.rc != 0, std::string ("unreported/") + u.app, "%s exits with 0 although only %d of %zu bytes of the output file could be written", line (cmd).c_str (), limit, want.size ());
        MC_CHECK (!r.err.empty (), std::string ("message/") + u.app, "%s prints no error message although only %d of %zu bytes of the output file could be written", line (cmd).c_str (), limit, want.size ());
    }
    else MC_CHECK (r.rc == 0 && app::slurp ("out") == want, std::string ("spurious/") + u.app, "%s fails with %d although everything could be written", line (cmd).c_str (), r.rc);
    mc::state (mc::hash_str (want) ^ limit); mc::validated ();
    app::clean ();
}
// Every tile of a tiling; tiles have different sizes, so that each can be the one that fails
MC_SCENARIO ("tiles", 0, 0)
{
    Cloud c = make (0, 0, "WKT", mc::choose (2), 1);
    c.extra = 1;
    const int shape = mc::choose (3);
    const int counts[3][4] = {{1, 2, 3, 4}, {4, 3, 2, 1}, {2, 6, 1, 2}};
    int id = 0;
    for (int t = 0; t < 4; ++t) for (int k = 0; k < counts[shape][t]; ++k)
    {
        Rec r = pattern_rec (id, 1, 2); r.x = (t % 2) * 10 + 0.1 * k; r.y = (t / 2) * 10 + 0.1 * k; r.z = id++;
        c.v.push_back (r);
    }
    app::spit ("U", encode (c));
    app::Cmd cmd; cmd.name = "tile"; cmd.args = {"-p", "t", "-t", "2", "U"};
    const app::Result ok = app::run (cmd);
    MC_CHECK (ok.rc == 0, "healthy", "spoc_tile exits with %d: %s", ok.rc, ok.err.c_str ());
    size_t biggest = 0;
    for (auto &f : app::list ()) if (f != "U") { biggest = std::max (biggest, app::slurp (f).size ()); unlink (f.c_str ()); }
    const size_t limit = mc::choose ((int) biggest + 2);
    cmd.fsize = (long) limit;
    const app::Result r = app::run (cmd);
    if (limit < biggest)
    {
        MC_CHECK (r.rc != 0, "unreported/tile", "spoc_tile exits with 0 although files can only have %zu bytes and a tile has %zu", limit, biggest);
        MC_CHECK (!r.err.empty (), "message/tile", "spoc_tile prints no error message");
    }
    else MC_CHECK (r.rc == 0, "spurious/tile", "spoc_tile fails with %d: %s", r.rc, r.err.c_str ());
    mc::state (encode (c) + std::to_string (limit)); mc::validated ();
    app::clean ();
}
// Version output, and a full device as a real descriptor
MC_SCENARIO ("version", 0, 0)
{
    static const std::vector<std::string> A {"compress", "decompress", "diff", "filter", "info", "merge", "srs", "tile", "tool", "transform"};
    app::Cmd cmd; cmd.name = mc::choose_from (A); cmd.args = {mc::choose (2) ? "--version" : "-e"};
    const app::Result ok = app::run (cmd);
    cmd.out_limit = mc::choose ((int) ok.out.size () + 1); cmd.lazy_out = mc::choose (2);
    const app::Result r = app::run (cmd);
    if ((size_t) cmd.out_limit < ok.out.size ()) MC_CHECK (r.rc != 0 && !r.err.empty (), "unreported/version", "%s exits with %d although its output could not be written", line (cmd).c_str (), r.rc);
    else MC_CHECK (r.rc == 0, "spurious/version", "%s exits with %d", line (cmd).c_str (), r.rc);
    mc::state (cmd.name + std::to_string (cmd.out_limit)); mc::validated ();
}
MC_SCENARIO ("full-device", 0, 0)
{
    const Use &u = mc::choose_from (uses ());
    Cloud c = make (mc::choose (2) ? 3 : 300, 1, "WKT of it", false, 1);
    c.compressed = u.comp >= 0 ? u.comp : mc::choose (2);
    setup (c);
    app::Cmd cmd; cmd.name = u.app; cmd.args = u.args; cmd.out_full = true;
    if (u.args.size () == 2 && u.args[0] == "-s") cmd.in = encode (c);
    const app::Result r = app::run_process (cmd);
    mc::step ();
    MC_CHECK (r.rc != 0 && !r.err.empty (), std::string ("unreported/") + u.app, "%s >/dev/full exits with %d", line (cmd).c_str (), r.rc);
    mc::state (mc::hash_str (line (cmd)) ^ hash (c)); mc::validated ();
    app::clean ();
}

MC_MAIN
