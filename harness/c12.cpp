// C12: recenter, subtract-min, resize-extra and upsample change only what they name
#include "cli.h"
#include <cmath>
using namespace model;
using cli::Args;

static Rec lattice (size_t n, size_t extra, double x, double y, double z) { Rec r = pattern_rec (n, extra, 2); r.x = x; r.y = y; r.z = z; return r; }
// All but the coordinates in 'axes' bit for bit; those as numbers with a tolerance
static void compare (const Cloud &in, const Cloud &want, const Cloud &got, int axes, double tol, const std::string &who, const char *key)
{
    Cloud w = want, g = got;
    if (w.v.size () == g.v.size ())
        for (size_t k = 0; k < w.v.size (); ++k)
            for (int a = 0; a < 3; ++a) if (axes >> a & 1)
            {
                double &x = coord (w.v[k], a), &y = coord (g.v[k], a);
                MC_CHECK (x == y || std::fabs (x - y) <= tol, key, "%s: record %zu: %c = %.17g, expected %.17g\ninput: %s", who.c_str (), k, "xyz"[a], y, x, show (in).c_str ());
                x = y = 0.0;
            }
    cli::expect (g, w, who, in, key);
    mc::state (hash (got)); mc::validated ();
}
static Cloud shifted (const Cloud &in, const double *c, int axes) { Cloud o = in; for (auto &r : o.v) for (int a = 0; a < 3; ++a) if (axes >> a & 1) coord (r, a) = coord (r, a) - c[a]; return o; }
static double largest (const Cloud &in) { double m = 0; for (auto &r : in.v) m = std::max ({m, std::fabs (r.x), std::fabs (r.y), std::fabs (r.z)}); return m; }
static void recenter (const Cloud &in, bool z)
{
    const int axes = z ? 7 : 3;
    double c[3] = {0, 0, 0};
    for (int a = 0; a < 3; ++a) { long double s = 0; for (auto &r : in.v) s += coord (r, a); c[a] = in.v.empty () ? 0 : (double) (s / in.v.size ()); }
    const std::string opt = z ? "--recenter-xyz" : "--recenter-xy";
    const Cloud got = cli::cloud ("tool", {opt}, encode (in));
    const double tol = 1e-14 * (in.v.size () + 4) * largest (in);
    compare (in, shifted (in, c, axes), got, axes, tol, "spoc_tool " + opt, "recenter");
    for (int a = 0; a < 3; ++a) if (axes >> a & 1)
    {
        long double s = 0; for (auto &r : got.v) s += coord (r, a);
        MC_CHECK (got.v.empty () || std::fabs ((double) (s / got.v.size ())) <= tol * 2, "recenter-mean", "spoc_tool %s: the mean of %c is %g afterwards", opt.c_str (), "xyz"[a], (double) (s / got.v.size ()));
    }
}
static void subtract (const Cloud &in, bool z)
{
    const int axes = z ? 7 : 3;
    double c[3] = {0, 0, 0};
    for (int a = 0; a < 3; ++a) for (size_t k = 0; k < in.v.size (); ++k) if (!k || coord (in.v[k], a) < c[a]) c[a] = coord (in.v[k], a);
    const std::string opt = z ? "--subtract-min-xyz" : "--subtract-min-xy";
    const Cloud got = cli::cloud ("tool", {opt}, encode (in));
    compare (in, shifted (in, c, axes), got, axes, 0, "spoc_tool " + opt, "subtract-min");
}
static void both (const Cloud &in) { const int k = mc::choose (4); if (k < 2) recenter (in, k); else subtract (in, k - 2); }
// Every placement of points
MC_SCENARIO ("placements", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int n = mc::choose (mc::thorough () ? 5 : 4);
    static const std::vector<double> L {0.0, 1.0, -2.5, 1000000.25, -8.0};
    const int axis = mc::choose (n > 2 ? 3 : 4); // 3: all axes vary
    Cloud in = make (n, 1, "w", false, 1);
    for (size_t k = 0; k < in.v.size (); ++k)
    {
        in.v[k] = lattice (k, 1, 4.0 * k, 3 - 8.0 * k, 0.5 * k);
        for (int a = 0; a < 3; ++a) if (axis == a || axis == 3) coord (in.v[k], a) = L[mc::choose (axis == 3 ? 4 : 5)];
    }
    both (in);
}
// Values anywhere
MC_SCENARIO ("fields", 2, 2)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const size_t extra = 1;
    Cloud in = make (mc::thorough () ? 3 : 2, extra, "w", false, mc::choose (2));
    static const std::vector<double> X {0.0, -0.0, 1.0, -1.0, 0.1, -2.5, 1e300, -1e300, 1e-300, 123456.789, -3e9, 9007199254740993.0};
    for (auto &r : in.v) for (int f = 0; f < (int) (9 + extra); ++f)
    {
        if (f < 3) { const int k = mc::dev (X.size () + 1); if (k) coord (r, f) = X[k - 1]; }
        else { const auto &I = ints_of (f); const int k = mc::dev (I.size () + 1); if (k) set_int (r, f, I[k - 1]); }
    }
    both (in);
}
// Shapes and metadata
MC_SCENARIO ("shapes", 0, 0)
{
    const bool comp = mc::choose (2);
    if (comp && mc::is_asan) mc::abandon ();
    static const std::vector<size_t> E {0, 1, 3, 255}, W {0, 1, 3000, 65535};
    const size_t n = mc::choose (comp ? 6 : mc::thorough () ? 150 : 40), extra = mc::choose_from (E), w = mc::choose_from (W);
    if (w > 1 && n > 3) mc::abandon ();
    if (mc::is_asan && n > 10) mc::abandon ();
    Cloud in = make (n, extra, wkt_of_length (w), comp, 1);
    for (size_t k = 0; k < n; ++k) in.v[k] = lattice (k, extra, 0.25 * ((k * 7) % 16), 100 + k, -1.5 * k * k);
    both (in);
}
// Many records
MC_SCENARIO ("many", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const size_t n = mc::choose_from (std::vector<size_t> {1001, 5003, 70001}), extra = mc::choose (2) * 3;
    Cloud in = make (n, extra, "w", mc::choose (2), 1);
    // The lowest record is anywhere
    const size_t low = mc::choose_from (std::vector<size_t> {0, 1, n / 2, n - 2, n - 1});
    for (size_t k = 0; k < n; ++k) in.v[k] = lattice (k, extra, 0.25 * ((k * 7919) % 1001), 100 + k % 77, -1.5 * (k % 13));
    in.v[low].x = -8; in.v[low].y = -9; in.v[low].z = -100;
    both (in);
}
// The lowest record is anywhere
MC_SCENARIO ("anywhere", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const size_t n = mc::choose_from (std::vector<size_t> {9, 65, 520}), low = mc::choose (n);
    Cloud in = make (n, 1, "w", false, 1);
    for (size_t k = 0; k < n; ++k) in.v[k] = lattice (k, 1, 0.25 * ((k * 7919) % 1001), 100 + k % 77, -1.5 * (k % 13));
    in.v[low].x = -8; in.v[low].y = -9; in.v[low].z = -100;
    both (in);
}
// Resize
MC_SCENARIO ("resize", 0, 0)
{
    const int kind = mc::choose (2);
    static const std::vector<size_t> S {0, 1, 2, 3, 7, 8, 254, 255};
    size_t from, to;
    if (kind == 0) { from = mc::choose_from (S); to = mc::choose (256); }
    else { from = mc::choose (256); to = mc::choose_from (S); }
    const size_t n = mc::choose_from (std::vector<size_t> {0, 1, 2, 5});
    const bool comp = n == 2 && !mc::is_asan && mc::choose (2);
    if (mc::is_asan && !mc::thorough () && from + to > 40) mc::abandon ();
    Cloud in = make (n, from, "w", comp, 2), want = in;
    want.extra = to; for (auto &r : want.v) r.e.resize (to);
    const Args a = mc::choose (2) ? Args {"--resize-extra=" + std::to_string (to)} : Args {"--resize-extra", std::to_string (to)};
    const Cloud got = cli::cloud ("tool", a, encode (in));
    cli::expect (got, want, "spoc_tool " + cli::join (a), in, "resize");
    mc::state (hash (got)); mc::validated ();
}
static void refuse (const Args &a, const std::string &in)
{
    const app::Result r = app::run ("tool", a, in);
    MC_CHECK (r.rc != 0 && !r.err.empty () && r.out.empty (), "refused", "spoc_tool %s: exit %d, %zu bytes out, message '%s'", cli::join (a).c_str (), r.rc, r.out.size (), r.err.c_str ());
    mc::validated ();
}
MC_SCENARIO ("refused", 0, 0)
{
    app::clean ();
    const Cloud in = make (mc::choose (3), 1, "w", false, 1);
    app::spit ("high", encode (make (3, 1, "w", false, 1))); app::spit ("bad", "garbage"); app::spit ("cut", encode (make (3, 1, "w", false, 1)).substr (0, 100));
    static const std::vector<Args> A {
        {"--resize-extra=256"}, {"--resize-extra=-1"}, {"--resize-extra=1000"}, {"--resize-extra="}, {"--resize-extra=x"}, {"--resize-extra=3x"}, {"--resize-extra=99999999999"}, {"--resize-extra=2.5"}, {"--resize-extra=257"}, {"--resize-extra=512"}, {"--resize-extra=-255"}, {"--resize-extra=4294967296"}, {"--resize-extra=4294967299"}, {"--resize-extra=65536"},
        {"--upsample-classifications=high"}, {"--upsample-classifications=high", "--resolution=0"}, {"--upsample-classifications=high", "--resolution=-1"}, {"--upsample-classifications=missing", "--resolution=1"},
        {"--upsample-classifications=bad", "--resolution=1"}, {"--upsample-classifications=cut", "--resolution=1"}, {"--upsample-classifications=", "--resolution=1"},
        {"--recenter-xy", "--recenter-xyz"}, {"--subtract-min-xy", "--resize-extra=1"}, {"-g", "x", "--recenter-xy"}, {}, {"-v"}, {"--resolution=1"}, {"--field-filename=high"},
        {"--recenter"}, {"--recenter-z"}, {"--subtract-min"}, {"--subtract-min-z"}, {"--recenter-xy=1"}, {"--resize"}};
    const int k = mc::choose (A.size ());
    // Unambiguous abbreviations are accepted
    if (k == 33) mc::abandon ();
    refuse (A[k], encode (in));
}
// ---- Upsampling ----
// Voxel of a point, for exact quotients
static std::array<long, 3> voxel (const Rec &r, const double *o, double res) { return {(long) std::floor ((r.x - o[0]) / res), (long) std::floor ((r.y - o[1]) / res), (long) std::floor ((r.z - o[2]) / res)}; }
static void upsample (const Cloud &low, const Cloud &high, const std::string &res, bool verbose = false)
{
    const double d = strtod (res.c_str (), nullptr);
    double o[3] = {0, 0, 0};
    for (int a = 0; a < 3; ++a) for (size_t k = 0; k < high.v.size (); ++k) if (!k || coord (high.v[k], a) < o[a]) o[a] = coord (high.v[k], a);
    // The low resolution records are meant to come from the high resolution cloud
    for (auto &r : low.v) for (int a = 0; a < 3; ++a) if (!high.v.empty () && coord (r, a) < o[a]) mc::abandon ();
    std::map<std::array<long, 3>, std::vector<uint32_t>> cls;
    for (auto &r : low.v) cls[voxel (r, o, d)].push_back (r.c);
    app::spit ("high.spoc", encode (high));
    Args a {"--upsample-classifications=high.spoc", "--resolution=" + res};
    if (verbose) a.push_back ("-v");
    const Cloud got = cli::cloud ("tool", a, encode (low));
    const std::string who = "spoc_tool " + cli::join (a);
    Cloud want = high;
    for (size_t k = 0; k < want.v.size (); ++k)
    {
        const auto i = cls.find (voxel (want.v[k], o, d));
        if (i == cls.end ()) continue;
        // With several low resolution records in a voxel, the class of one of them
        uint32_t c = i->second.back ();
        if (got.v.size () == want.v.size ()) for (uint32_t x : i->second) if (got.v[k].c == x) c = x;
        want.v[k].c = c;
    }
    const std::string df = differ (cli::norm (want), cli::norm (got));
    MC_CHECK (df.empty (), "upsample", "%s: %s\nlow:      %s\nhigh:     %s\nexpected: %s\noutput:   %s", who.c_str (), df.c_str (), show (low, 8).c_str (), show (high, 8).c_str (), show (want, 8).c_str (), show (got, 8).c_str ());
    MC_CHECK (app::slurp ("high.spoc") == encode (high), "input-changed", "%s changes high.spoc", who.c_str ());
    mc::state (hash (got)); mc::validated ();
}
static std::vector<Rec> points (int n, int letters, size_t extra, int from, double unit, bool planar)
{
    std::vector<Rec> v;
    for (int k = 0; k < n; ++k)
    {
        const int p = mc::choose (letters);
        Rec r = pattern_rec (from + k, extra, 1); r.c = from + k;
        r.x = unit * (p % 3); r.y = planar ? unit * (p / 3) : -5; r.z = planar ? 2 : unit * (p / 3);
        v.push_back (r);
    }
    return v;
}
// Every small pair of clouds
MC_SCENARIO ("upsample-pairs", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    static const std::vector<std::string> R {"1", "0.5", "2", "1000", "0.25"};
    const std::string res = mc::choose_from (R);
    const int nh = mc::choose (4), nl = mc::choose (nh == 3 && !mc::thorough () ? 3 : 4);
    const bool planar = mc::choose (2);
    const int letters = nh + nl > 5 ? 3 : nh + nl > 3 ? 4 : 6;
    const double unit = mc::choose (2) ? 0.5 : 0.75;
    Cloud high, low; high.wkt = "high"; low.wkt = "low"; high.extra = 1; low.extra = 2;
    high.v = points (nh, letters, 1, 0, unit, planar); low.v = points (nl, letters, 2, 100, unit, planar);
    upsample (low, high, res);
}
// The documented use: subsample, change the classes, upsample
MC_SCENARIO ("upsample-subsampled", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    static const std::vector<std::string> R {"1", "0.5", "2", "4", "64"};
    const std::string res = mc::choose_from (R);
    const int n = 1 + mc::choose (mc::thorough () ? 5 : 4);
    Cloud high; high.wkt = "w"; high.extra = 1; high.v = points (n, n < 4 ? 9 : 6, 1, 0, 0.75, mc::choose (2));
    const double off = mc::choose_from (std::vector<double> {0, -10, 1000000});
    for (auto &r : high.v) { r.x += off; r.y -= off; }
    Cloud low = cli::cloud ("filter", {"-s", res}, encode (high));
    for (size_t k = 0; k < low.v.size (); ++k) low.v[k].c = 100 + k;
    upsample (low, high, res);
    // Every record got a class
    const Cloud got = cli::cloud ("tool", {"--upsample-classifications=high.spoc", "--resolution=" + res}, encode (low));
    for (auto &r : got.v) MC_CHECK (r.c >= 100, "upsample-missed", "a record of the high resolution cloud kept its class: %s\nhigh: %s\nlow: %s", show (got).c_str (), show (high).c_str (), show (low).c_str ());
}
// Metadata comes from the high resolution cloud
MC_SCENARIO ("upsample-metadata", 0, 0)
{
    const size_t eh = mc::choose (3), el = mc::choose (3);
    const bool ch = mc::choose (2), cl = mc::choose (2), verbose = mc::choose (2);
    if (mc::is_asan && (ch || cl)) mc::abandon ();
    Cloud high = make (4, eh, mc::choose (2) ? "high" : "", ch, 2), low = make (2, el, mc::choose (2) ? "low" : "", cl, 2);
    for (size_t k = 0; k < high.v.size (); ++k) { high.v[k].x = k; high.v[k].y = 0; high.v[k].z = -3; }
    for (size_t k = 0; k < low.v.size (); ++k) { low.v[k].x = 2 * k; low.v[k].y = 0; low.v[k].z = -3; }
    upsample (low, high, mc::choose (2) ? "1" : "2", verbose);
}
// Classes of every size
MC_SCENARIO ("upsample-classes", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const auto &I = ints_of (3);
    Cloud high = make (3, 1, "w", false, 1), low = make (2, 0, "w", false, 1);
    for (size_t k = 0; k < 3; ++k) { high.v[k].x = k / 2; high.v[k].y = high.v[k].z = 0; high.v[k].c = mc::choose_from (I); }
    for (size_t k = 0; k < 2; ++k) { low.v[k].x = k; low.v[k].y = low.v[k].z = 0; low.v[k].c = mc::choose_from (I); }
    upsample (low, high, "1");
}
// Many records
MC_SCENARIO ("upsample-many", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const size_t n = mc::choose_from (std::vector<size_t> {100, 1001, 5003, 70001});
    const std::string res = mc::choose_from (std::vector<std::string> {"1", "2", "8"});
    Cloud high = make (n, 1, "w", false, 1);
    for (size_t k = 0; k < n; ++k) { high.v[k].x = 0.5 * ((k * 7919) % 61); high.v[k].y = 0.5 * ((k * 104729) % 37) - 9; high.v[k].z = 0.5 * (k % 5); }
    Cloud low = cli::cloud ("filter", {"-s", res}, encode (high));
    for (size_t k = 0; k < low.v.size (); ++k) low.v[k].c = k;
    upsample (low, high, res);
}
MC_MAIN
