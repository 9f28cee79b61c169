// C08: tiling partitions the cloud and never overwrites files unasked
#include "cli.h"
#include <filesystem>
using namespace model;
using cli::Args;
using Files = std::map<std::string,std::string>;

static Files snapshot () { Files f; for (auto &n : app::list ()) f[n] = app::slurp (n); return f; }

// The tile number of every record. A size of zero or less is one tile in that direction.
static std::vector<size_t> numbers (const Cloud &c, double sx, double sy)
{
    double lx = 1e308, ly = 1e308;
    for (auto &r : c.v) { lx = std::min (lx, r.x); ly = std::min (ly, r.y); }
    std::vector<std::pair<size_t,size_t>> ij; size_t cols = 1;
    for (auto &r : c.v)
    {
        const size_t i = sx > 0 ? std::floor ((r.x - lx) / sx) : 0, j = sy > 0 ? std::floor ((r.y - ly) / sy) : 0;
        ij.push_back ({i, j}); cols = std::max (cols, i + 1);
    }
    std::vector<size_t> n;
    for (auto &p : ij) n.push_back (p.second * cols + p.first);
    return n;
}
static std::map<std::string,Cloud> model_tiles (const Cloud &c, const std::vector<size_t> &num, const std::string &prefix, int digits, const std::string &ext)
{
    std::map<std::string,Cloud> m;
    for (size_t k = 0; k < c.v.size (); ++k)
    {
        std::string d = std::to_string (num[k]);
        while ((int) d.size () < digits) d = "0" + d;
        Cloud &t = m[std::filesystem::path (prefix + d + ext).lexically_normal ().string ()];
        t.wkt = c.wkt; t.compressed = c.compressed; t.extra = c.extra;
        t.v.push_back (c.v[k]);
    }
    return m;
}
// The directory holds what it held before and the tiles
static void compare (const Files &before, const std::map<std::string,Cloud> &tiles, const Cloud &in, const std::string &who)
{
    const Files after = snapshot ();
    for (auto &f : before) if (!tiles.count (f.first))
    {
        const auto i = after.find (f.first);
        MC_CHECK (i != after.end () && i->second == f.second, "touched", "%s: file %s was changed\n%s", who.c_str (), f.first.c_str (), show (in).c_str ());
    }
    for (auto &f : after) MC_CHECK (before.count (f.first) || tiles.count (f.first), "extra-file", "%s: unexpected file %s\n%s", who.c_str (), f.first.c_str (), show (in).c_str ());
    for (auto &t : tiles)
    {
        const auto i = after.find (t.first);
        MC_CHECK (i != after.end (), "missing-tile", "%s: tile %s is missing\n%s", who.c_str (), t.first.c_str (), show (in).c_str ());
        cli::expect (cli::must_parse (i->second, who + ", tile " + t.first), t.second, who + ", tile " + t.first, in, "tile");
    }
    mc::state (mc::hash_str (who) + hash (in)); mc::validated ();
}
// Tiles a cloud in the file fn (or standard input, if empty) into an otherwise empty directory
static void tile (const Cloud &in, const std::string &fn, Args a, const std::vector<size_t> &num, const std::string &prefix, int digits, const std::string &ext)
{
    app::clean ();
    if (!fn.empty ()) { const size_t s = fn.find ('/'); if (s != std::string::npos) mkdir (fn.substr (0, s).c_str (), 0700); app::spit (fn, encode (in)); a.push_back (fn); }
    const Files before = snapshot ();
    const app::Result r = app::run ("tile", a, fn.empty () ? encode (in) : "");
    const std::string who = "spoc_tile " + cli::join (a);
    MC_CHECK (r.rc == 0, "fails", "%s: exit %d: %s\n%s", who.c_str (), r.rc, r.err.c_str (), show (in).c_str ());
    MC_CHECK (r.out.empty (), "stdout", "%s: %zu bytes on standard output", who.c_str (), r.out.size ());
    compare (before, model_tiles (in, num, prefix, digits, ext), in, who);
}
static Cloud base (size_t n, size_t extra = 1, bool comp = false) { Cloud c = make (n, extra, "the wkt", comp, 1); return c; }
static std::string num (double d) { return mc::fmt ("%g", d); }

// Every placement of a few points, every tile size
MC_SCENARIO ("sizes", 0, 0)
{
    const int n = mc::choose (mc::thorough () ? 5 : 4);
    static const std::vector<double> V {0, 0.25, 0.5, 1, 1.75, 2, 3};
    static const std::vector<double> ORG {0, -100.5, 500000};
    const double org = n > 2 && !mc::thorough () ? -100.5 : mc::choose_from (ORG);
    Cloud in = base (n);
    for (auto &r : in.v) { r.x = org + V[mc::choose (n > 3 ? 3 : n > 2 ? 5 : 7)]; r.y = 2 * org + V[mc::choose (n > 2 ? 3 : 7)]; }
    static const double SX[] = {0.5, 1, 2, -1}, SY[] = {0.5, 1, 8, -1};
    const int q = mc::choose (n > 2 ? 6 : 18);
    if (q < 2 || (q == 2 && n <= 2))
    {
        const double s = SX[q];
        tile (in, "in.spoc", {mc::choose (2) ? "--tile-size=" + num (s) : "-s" + num (s)}, numbers (in, s, s), "in", 3, ".spoc");
        return;
    }
    // independent sizes, where a missing one is one tile in that direction
    static const int PX[] = {0, 1, 3, 3, 0, 1, 2, 0, 2, 1, 0, 2, 3, 1, 2}, PY[] = {1, 3, 0, 2, 0, 2, 1, 2, 3, 1, 3, 0, 1, 0, 2};
    const double sx = SX[PX[q - (n > 2 ? 2 : 3)]], sy = SY[PY[q - (n > 2 ? 2 : 3)]];
    Args a;
    if (sx > 0) a.push_back (q % 2 ? "--tile-size-x=" + num (sx) : "-x" + num (sx));
    if (sy > 0) a.push_back (q % 2 ? "--tile-size-y=" + num (sy) : "-y" + num (sy));
    tile (in, "in.spoc", a, numbers (in, sx, sy), "in", 3, ".spoc");
}
// A number of tiles along the longest side. Points between the ends are kept away from the tile boundaries,
// whose exact place is subject to rounding.
static void some_tiles (const std::vector<double> &SIDE, const std::vector<double> &ORG)
{
    const int t = mc::choose (mc::thorough () ? 9 : 7); // 0: default
    const int T = t ? t : 2;
    const int n = 1 + mc::choose (4);
    const double side = mc::choose_from (SIDE), side2 = mc::choose_from (SIDE);
    const double org = mc::choose_from (ORG);
    const bool swap = mc::choose (2);
    Cloud in = base (n);
    double size = std::max (side, side2) / T;
    for (int k = 0; k < n; ++k)
    {
        // the first two points are the corners
        double a = 0, b = 0;
        if (k == 1) { a = side; b = side2; }
        if (k > 1) { a = side * ((mc::choose (3) * 2 + 1) / 5.0 - 0.07); b = side2 * ((mc::choose (2) * 3 + 1) / 5.0 - 0.03); }
        in.v[k].x = org + (swap ? b : a); in.v[k].y = org + (swap ? a : b);
    }
    auto cell = [&] (double o) { if (size == 0) return (size_t) 0; const double q = o / size; return (size_t) std::min<double> (T - 1, std::floor (q)); };
    if (n == 1) size = 0;
    double lx = 1e308, ly = 1e308; for (auto &r : in.v) { lx = std::min (lx, r.x); ly = std::min (ly, r.y); }
    size_t cols = 1;
    for (auto &r : in.v)
    {
        cols = std::max (cols, cell (r.x - lx) + 1);
        for (double o : {r.x - lx, r.y - ly}) if (size > 0) { const double q = o / size; if (std::abs (q - std::round (q)) < 1e-6 && o > 0 && o < std::max (side, side2)) mc::abandon (); }
    }
    std::vector<size_t> num;
    for (auto &r : in.v) num.push_back (cell (r.y - ly) * cols + cell (r.x - lx));
    Args a; if (t) a = t % 2 ? Args {"-t", std::to_string (t)} : Args {"--tiles=" + std::to_string (t)};
    tile (in, "in.spoc", a, num, "in", 3, ".spoc");
}
MC_SCENARIO ("tiles", 0, 0) { some_tiles ({0, 0.5, 1, 100, 1000.25}, {-3, 500000}); }
// The same in very large and very small clouds
MC_SCENARIO ("tiles-scale", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    some_tiles ({0, 4294967296.0, 1e10, 7e15, 1e-9, 3e-5}, {0});
}
// Tiles whose numbers do not fit in 64 bits can't be told apart
MC_SCENARIO ("too-small", 0, 0)
{
    Cloud in = base (1 + mc::choose (3));
    static const std::vector<double> V {0, 1, 1e10, 4e10, 3e19, 1e300};
    size_t d = 0; double mx = 0, my = 0;
    for (auto &r : in.v) if (d++) { r.x = mc::choose_from (V); r.y = mc::choose_from (V); mx = std::max (mx, r.x); my = std::max (my, r.y); } else r.x = r.y = 0;
    const double s = mc::choose_from (std::vector<double> {1, 0.5, 1e-12});
    const double n = (mx / s + 1) * (my / s + 1);
    if (n > 1.8e19 && n < 1.9e19) mc::abandon ();
    if (n < 1.9e19) { tile (in, "in.spoc", {"-s", num (s)}, numbers (in, s, s), "in", 3, ".spoc"); return; }
    app::clean (); app::spit ("in.spoc", encode (in));
    const Files before = snapshot ();
    const app::Result r = app::run ("tile", {"-s", num (s), "in.spoc"}, "");
    MC_CHECK (r.rc != 0 && !r.err.empty (), "too-small", "spoc_tile -s %g: exit %d '%s'\n%s", s, r.rc, r.err.c_str (), show (in).c_str ());
    MC_CHECK (snapshot () == before, "too-small", "spoc_tile -s %g: files were written\n%s", s, show (in).c_str ());
}
// File names
MC_SCENARIO ("names", 0, 0)
{
    static const std::vector<std::string> FN {"", "in.spoc", "in.zpoc", "a.b.spoc", "noext", "sub/in.spoc", "sub/x.y.zpoc", "with space.spoc", "in.SPOC2"};
    static const std::vector<std::string> PRE {"", "out", "t.", "sub/p", "pre fix", "in", ".", "..", "sub/.", "sub/..", "sub/../q", "./out"};
    const std::string fn = mc::choose_from (FN), pre = mc::choose_from (PRE);
    static const std::vector<int> DIG {-1, 0, 1, 2, 5, 12};
    const int d = mc::choose_from (DIG);
    const bool comp = mc::choose (2);
    if (comp && mc::is_asan && (d > 1 || !pre.empty ())) mc::abandon ();
    if (fn.empty () && pre.empty ())
    {
        app::clean ();
        const app::Result r = app::run ("tile", {}, encode (base (2)));
        MC_CHECK (r.rc != 0 && !r.err.empty () && app::list ().empty (), "needs-prefix", "standard input without a prefix: exit %d", r.rc);
        mc::state (1); mc::validated ();
        return;
    }
    const bool many = mc::choose (2);
    Cloud in = base (many ? 14 : 2, 1, comp);
    for (size_t k = 0; k < in.v.size (); ++k) { in.v[k].x = k; in.v[k].y = 0; }
    if (comp && many && !mc::thorough ()) mc::abandon ();
    Args a {"-s", "1"};
    if (d >= 0) { a.push_back (d % 2 ? "-d" : "--digits"); a.push_back (std::to_string (d)); }
    if (!pre.empty ()) { a.push_back (d % 2 ? "--prefix" : "-p"); a.push_back (pre); }
    std::string stem = fn.substr (fn.find ('/') + 1), ext = "";
    if (stem.rfind ('.') != std::string::npos) { ext = stem.substr (stem.rfind ('.')); stem = stem.substr (0, stem.rfind ('.')); }
    if (fn.empty ()) ext = comp ? ".zpoc" : ".spoc";
    app::clean ();
    if (pre.rfind ("sub/", 0) == 0 && fn.rfind ("sub/", 0) != 0)
    {
        // the directory does not exist
        if (!fn.empty ()) app::spit (fn, encode (in));
        Args b = a; if (!fn.empty ()) b.push_back (fn);
        const app::Result r = app::run ("tile", b, fn.empty () ? encode (in) : "");
        MC_CHECK (r.rc != 0 && !r.err.empty (), "no-directory", "spoc_tile %s: exit %d although the tiles can't be written", cli::join (b).c_str (), r.rc);
        mc::state (mc::hash_str (cli::join (b))); mc::validated ();
        return;
    }
    tile (in, fn, a, numbers (in, 1, 1), pre.empty () ? stem : pre, d < 0 ? 3 : d, ext);
}
// Files that exist already: every subset of the tiles and some others
MC_SCENARIO ("existing", 0, 0)
{
    Cloud in = base (4);
    const int layout = mc::choose (2);
    for (size_t k = 0; k < 4; ++k) { in.v[k].x = layout ? k % 2 : k; in.v[k].y = layout ? k / 2 : 0; }
    const auto tiles = model_tiles (in, numbers (in, 1, 1), "t", 3, ".spoc");
    std::vector<std::string> names; for (auto &t : tiles) names.push_back (t.first);
    const int mask = mc::choose (1 << names.size ()), others = mc::choose (4);
    const int content = mc::choose (4);
    const int force = mc::choose (3);
    const bool from_stdin = mc::choose (2);
    app::clean ();
    app::spit ("in.spoc", encode (in));
    const std::string C[4] = {"", "precious", encode (tiles.at (names[0])), std::string (5000, 'x')};
    for (size_t k = 0; k < names.size (); ++k) if (mask >> k & 1) app::spit (names[k], C[content]);
    if (others & 1) { app::spit ("t0000.spoc", "other"); app::spit ("t000", "other"); app::spit ("in000.spoc", "other"); }
    if (others & 2) { app::spit ("t007.spoc", "other"); app::spit ("t000.zpoc", "other"); app::spit ("t000.spoc~", "other"); }
    const Files before = snapshot ();
    Args a {"-s", "1", "-p", "t"};
    if (force) a.push_back (force == 1 ? "-f" : "--force");
    if (!from_stdin) a.push_back ("in.spoc");
    const app::Result r = app::run ("tile", a, from_stdin ? encode (in) : "");
    const std::string who = mc::fmt ("spoc_tile %s (existing tiles: mask %d)", cli::join (a).c_str (), mask);
    if (mask == 0 || force)
    {
        MC_CHECK (r.rc == 0, "fails", "%s: exit %d: %s", who.c_str (), r.rc, r.err.c_str ());
        compare (before, tiles, in, who);
        return;
    }
    MC_CHECK (r.rc != 0 && !r.err.empty (), "overwrites", "%s: exit %d", who.c_str (), r.rc);
    const Files after = snapshot ();
    for (auto &f : before)
    {
        const auto i = after.find (f.first);
        MC_CHECK (i != after.end () && i->second == f.second, "overwritten", "%s: the existing file %s was changed", who.c_str (), f.first.c_str ());
    }
    for (auto &f : after) if (!before.count (f.first)) MC_CHECK (tiles.count (f.first), "extra-file", "%s: unexpected file %s", who.c_str (), f.first.c_str ());
    mc::state (mc::hash_str (who) + others * 4 + content); mc::validated ();
}
// One of many tiles exists already: any one
MC_SCENARIO ("existing-many", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const int n = mc::thorough () ? 1300 : 300, cols = mc::choose_from (std::vector<int> {1, 17});
    const int at = mc::choose (n);
    Cloud in = base (n);
    for (int k = 0; k < n; ++k) { in.v[k].x = k % cols; in.v[k].y = k / cols; in.v[k].p = k; }
    const auto tiles = model_tiles (in, numbers (in, 1, 1), "t", 3, ".spoc");
    app::clean ();
    auto f = tiles.begin (); std::advance (f, at % tiles.size ());
    app::spit (f->first, "precious");
    const app::Result r = app::run ("tile", {"-s", "1", "-p", "t"}, encode (in));
    MC_CHECK (r.rc != 0 && !r.err.empty () && app::slurp (f->first) == "precious", "overwritten", "spoc_tile -s 1 -p t: the existing file %s was changed: exit %d", f->first.c_str (), r.rc);
    mc::state (mc::hash_str (f->first) + cols); mc::validated ();
}
// The input itself must not be overwritten by its own tiles unless asked
MC_SCENARIO ("input-is-a-tile", 0, 0)
{
    Cloud in = base (2);
    in.v[0].x = 0; in.v[1].x = 5; in.v[0].y = in.v[1].y = 0;
    app::clean ();
    const int which = mc::choose (2);
    const std::string fn = which ? "t001.spoc" : "t000.spoc";
    app::spit (fn, encode (in));
    const app::Result r = app::run ("tile", {"-s", "4", "-p", "t", fn});
    MC_CHECK (r.rc != 0 && app::slurp (fn) == encode (in), "overwritten", "tiling %s into its own name: exit %d", fn.c_str (), r.rc);
    mc::state (which); mc::validated ();
}
// Contradicting or superfluous arguments
MC_SCENARIO ("conflicts", 0, 0)
{
    static const std::vector<Args> A {{"-s", "1", "-x", "1"}, {"-s", "1", "-y", "1"}, {"-x", "1", "-s", "1"}, {"-y", "2", "--tile-size=1", "-x", "2"}};
    const Args &x = mc::choose_from (A);
    app::clean ();
    app::spit ("in.spoc", encode (base (2)));
    Args a = x; a.push_back ("in.spoc");
    const app::Result r = app::run ("tile", a);
    MC_CHECK (r.rc != 0 && !r.err.empty () && app::list ().size () == 1, "conflict", "spoc_tile %s: exit %d, %zu files", cli::join (a).c_str (), r.rc, app::list ().size ());
    mc::state (mc::hash_str (cli::join (a))); mc::validated ();
}
// Fields, metadata, extra fields, and compression
MC_SCENARIO ("fields", 1, 2)
{
    const bool comp = !mc::is_asan && mc::choose (2);
    Cloud in = make (4, mc::choose (2) * 2, mc::choose (2) ? wkt_of_length (300) : "", comp, 1);
    for (size_t k = 0; k < 4; ++k) { in.v[k].x = k % 3; in.v[k].y = k / 2; }
    int changed = 0;
    for (auto &r : in.v)
    {
        { const auto &D = finite_doubles (); const int k = mc::dev ((int) D.size () + 1); if (k) { r.z = D[k - 1]; ++changed; } }
        for (int f = 3; f < (int) (9 + in.extra); ++f) { const auto &I = ints_of (f); const int k = mc::dev ((int) I.size () + 1); if (k) { set_int (r, f, I[k - 1]); ++changed; } }
    }
    if (comp && changed > (mc::thorough () ? 1 : 0)) mc::abandon ();
    const bool named = mc::choose (2);
    tile (in, named ? "in.spoc" : "", {"-x", "1", "-p", "o"}, numbers (in, 1, -1), "o", 3, comp && !named ? ".zpoc" : ".spoc");
}
MC_SCENARIO ("fields-ext", 0, 0)
{
    // a compressed cloud in a file with the other extension
    Cloud in = make (3, 0, "w", true, 1);
    for (size_t k = 0; k < 3; ++k) in.v[k].x = k;
    const std::string fn = mc::choose (2) ? "in.spoc" : "in.zpoc";
    tile (in, fn, {"-x", "1"}, numbers (in, 1, -1), "in", 3, fn.substr (2));
}
// Many records, several of them in each tile, in input order
MC_SCENARIO ("many", 0, 0)
{
    static const std::vector<int> N {50, 501, 3001, 70001};
    const int n = mc::choose_from (N);
    if (mc::is_asan && n > 3001) mc::abandon ();
    const int order = mc::choose (6);
    Cloud in = base (n);
    for (int k = 0; k < n; ++k) { const uint64_t h = mix (k * 7 + order); in.v[k].x = (double) (h % 64) / 4; in.v[k].y = (double) (h / 64 % 40) / 4; in.v[k].p = k; }
    const double s = 1 << mc::choose (4);
    tile (in, "in.spoc", {"-s", num (s)}, numbers (in, s, s), "in", 3, ".spoc");
}
// Points that are far apart: large tile numbers
MC_SCENARIO ("far", 0, 0)
{
    static const std::vector<double> V {0, 3, 70000, 131072, 4294967296.0, 4294967297.0, 5e9}, W {0, 2, 65536, 70001, 100000};
    static const std::vector<int> D {0, 3, 16};
    const int n = 2 + mc::choose (mc::thorough () ? 3 : 2), d = mc::choose_from (D);
    if (mc::is_asan && n > 2) mc::abandon ();
    const double s = mc::choose_from (std::vector<double> {1, 0.5, 7});
    Cloud in = base (n);
    for (int k = 0; k < n; ++k) { in.v[k].x = V[mc::choose (k > 1 ? 3 : 7)] - 2048; in.v[k].y = W[mc::choose (k > 1 ? 2 : 5)] + 1024; in.v[k].p = k; }
    tile (in, "in.spoc", {"-s", num (s), "-d", std::to_string (d)}, numbers (in, s, s), "in", d, ".spoc");
}
// Many tiles
MC_SCENARIO ("many-tiles", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const int n = mc::choose_from (std::vector<int> {257, 1025, 3001}), order = mc::choose (2), cols = mc::choose_from (std::vector<int> {1, 31, 5000});
    Cloud in = base (n);
    for (int k = 0; k < n; ++k) { const int h = order ? (k * 7919) % n : n - 1 - k; in.v[k].x = h % cols; in.v[k].y = h / cols; in.v[k].p = k; }
    tile (in, "in.spoc", {"-s", "1"}, numbers (in, 1, 1), "in", 3, ".spoc");
}
MC_MAIN
