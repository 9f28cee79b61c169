// C10: transform changes only the requested fields, record by record, in command order
#include "ops.h"
using namespace ops;
using cli::Args;

static const std::vector<std::string> &numbers ()
{
    static const std::vector<std::string> v {"1", "0", "-1", "0.5", "-2.75", "100.1", "1e10", "-3e-5", "1e308", "2.5e-308", "123456789.125", "-0", "+2", ".25", "0x10"};
    return v;
}
// Every arithmetic command, every value, and every boundary coordinate in every cell
MC_SCENARIO ("arithmetic", 1, 2)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int what = mc::choose (2), axis = mc::choose (3);
    const std::string v = mc::choose_from (numbers ());
    Cloud in = make (1 + mc::choose (2), mc::choose (2), "w", false, mc::choose (3));
    deviate (in);
    check (in, {what ? scale (axis, v) : add (axis, v)});
}
// Rotations
MC_SCENARIO ("rotate", 1, 2)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int axis = mc::choose (3);
    static const std::vector<std::string> D {"90", "0", "180", "270", "360", "-90", "45", "30", "1", "0.001", "-123.456", "720", "36000.5", "1e-9"};
    const std::string v = mc::choose_from (D);
    Cloud in = make (1 + mc::choose (2), mc::choose (2), "", false, mc::choose (2));
    static const std::vector<double> X {0.0, 1.0, -1.0, 0.1, -2.5, 1e100, -1e-100, 123456.789, 2147483648.0};
    for (auto &r : in.v) for (int f = 0; f < (int) (9 + in.extra); ++f)
    {
        if (f < 3) { const int k = mc::dev (X.size () + 1); if (k) coord (r, f) = X[k - 1]; }
        else { const auto &I = ints_of (f); const int k = mc::dev (I.size () + 1); if (k) set_int (r, f, I[k - 1]); }
    }
    check (in, {rotate (axis, v)});
}
// Quantize: powers of two with any coordinate, and decimal precisions away from the multiples
MC_SCENARIO ("quantize", 2, 3)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    static const std::vector<std::string> P {"1", "0.5", "0.25", "2", "1024", "0.0009765625", "0.1", "0.01", "10", "0.3", "3", "1e-9", "1e9"};
    const std::string v = mc::choose_from (P);
    const double p = std::strtod (v.c_str (), nullptr);
    Cloud in = make (2, 1, "w", false, 1);
    static const std::vector<double> K {0.5, -0.5, 0.25, -0.25, 0.75, 1.5, -1.5, 1.25, 2.5, -7.75, 1000.5, -123456.75, 3e9 + 0.5, -3e9 - 0.5, 1e14 + 0.5, -5e12 - 0.5};
    for (auto &r : in.v) for (int a = 0; a < 3; ++a) { const int k = mc::dev (K.size () + 1); coord (r, a) = k ? K[k - 1] * p : 3.5 * p; }
    // Exact multiples only where the arithmetic is exact
    int e; if (std::frexp (p, &e) == 0.5)
    {
        static const std::vector<double> M {0.0, -0.0, 1.0, -1.0, 2.0, -3.0, 4294967296.0, -2147483649.0, 9007199254740992.0};
        for (auto &r : in.v) for (int a = 0; a < 3; ++a) { const int k = mc::dev (M.size () + 1); if (k) coord (r, a) = M[k - 1] * p; }
    }
    else for (auto &r : in.v) for (int a = 0; a < 3; ++a) if (std::fabs (coord (r, a) / p) > 1e12) mc::abandon ();
    check (in, {quantize (v)});
}
// Set every field to every value
MC_SCENARIO ("set", 1, 1)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const size_t extra = mc::choose_from (std::vector<size_t> {0, 1, 3, 12});
    const int f = mc::choose (9 + extra);
    Cloud in = make (2, extra, "w", false, mc::choose (3));
    deviate (in, true);
    check (in, {f < 3 ? set (f, mc::choose_from (numbers ())) : set (f, std::to_string (mc::choose_from (ints_of (f))))});
}
static uint64_t small (int f, int k) { static const uint64_t v[5] = {0, 1, 2, 300, 65535}; (void) f; return v[k]; }
// Replace: every sequence of field values, every pair of values
MC_SCENARIO ("replace", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int f = 3 + mc::choose (9);
    const int n = 1 + mc::choose (mc::thorough () ? 4 : 3), letters = n < 3 ? 5 : mc::thorough () ? 4 : 3;
    Cloud in = make (n, 3, "", false, 2);
    for (auto &r : in.v) set_int (r, f, small (f, mc::choose (letters)));
    // The same values in the other fields stay
    if (mc::choose (2)) for (auto &r : in.v) for (int g = 3; g < 12; ++g) set_int (r, g, get_int (r, f));
    check (in, {replace (f, small (f, mc::choose (5)), small (f, mc::choose (5)))});
}
// Large values
MC_SCENARIO ("replace-values", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int f = 3 + mc::choose (9);
    std::vector<uint64_t> V; for (uint64_t u : ints_of (f)) V.push_back (u);
    Cloud in = make (V.size (), 3, "", false, 1);
    for (size_t k = 0; k < V.size (); ++k) set_int (in.v[k], f, V[k]);
    const uint64_t a = mc::choose_from (V), b = mc::choose_from (V);
    const size_t beyond = bits_of (f) < 64 ? mc::choose (4) : 0;
    if (beyond)
    {
        // A value to look for that no record can have
        const uint64_t c = a + ((uint64_t) beyond << (bits_of (f) + (beyond == 3 ? 12 : 0))); // same lower bits
        if (b != V[0] && b != V.back ()) mc::abandon ();
        if (mc::choose (2)) check (in, {replace (f, c, b)});
        else check (in, {replace_not (f, {c}, b)});
        if (mc::choose (2)) check (in, {replace_not (f, {c, a}, b)});
        return;
    }
    if (mc::choose (2)) check (in, {replace (f, a, b)});
    else check (in, {replace_not (f, {a}, b)});
}
// Replace-not: lists of one to three (four) values
MC_SCENARIO ("replace-not", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int f = 3 + mc::choose (9);
    const int n = 1 + mc::choose (2), letters = n == 1 ? 5 : 3;
    Cloud in = make (n, 3, "w", false, 2);
    for (auto &r : in.v) set_int (r, f, small (f, mc::choose (letters)));
    const int m = 1 + mc::choose (mc::thorough () ? 4 : 3);
    std::vector<uint64_t> a; for (int k = 0; k < m; ++k) a.push_back (small (f, mc::choose (m < 3 ? 5 : 3)));
    check (in, {replace_not (f, a, small (f, mc::choose (m < 3 ? 5 : 4)))});
}
// Copy between all pairs of fields
MC_SCENARIO ("copy", 1, 1)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const size_t extra = mc::choose_from (std::vector<size_t> {0, 1, 3, 11});
    const int f = 3 + mc::choose (6 + extra), g = 3 + mc::choose (6 + extra);
    Cloud in = make (2, extra, "w", false, 1);
    deviate (in);
    const uint64_t limit = bits_of (g) == 64 ? ~0ull : (1ull << bits_of (g)) - 1;
    for (auto &r : in.v) if (get_int (r, f) > limit) mc::abandon ();
    check (in, {copy (f, g)});
}
// Shapes: any number of records, extra fields, any WKT
MC_SCENARIO ("shapes", 0, 0)
{
    const int kind = mc::choose (3);
    static const std::vector<size_t> E {0, 1, 2, 3, 8, 254, 255}, W {0, 1, 255, 256, 4096, 65535}, N {0, 1, 2, 3, 10, 100, 1001, 5003, 70001};
    Cloud in;
    if (kind == 0) in = make (mc::choose (mc::thorough () ? 400 : 130), mc::choose (3), "w", false, 2);
    else if (kind == 1) in = make (mc::choose_from (std::vector<size_t> {1, 3}), mc::choose (256), "", false, 2);
    else in = make (mc::choose_from (N), mc::choose_from (E), wkt_of_length (mc::choose_from (W)), false, 1);
    if (in.v.size () > 5003 && (in.extra > 3 || in.wkt.size () > 1)) mc::abandon ();
    if (mc::is_asan && in.v.size () * (in.extra + 5) > 20000) mc::abandon ();
    // A header may declare extra fields without records
    if (in.v.empty ()) in.extra = mc::choose (3);
    const int op = mc::choose (4);
    if (op == 0) check (in, {add (2, "1.5")});
    else if (op == 1) check (in, {set (3, "77")});
    else if (op == 2) { if (!in.extra || in.v.empty ()) mc::abandon (); check (in, {copy (4, 9 + in.extra - 1)}); }
    else check (in, {rotate (2, "90"), replace_not (3, {2, 3}, 9)});
}
static std::vector<Op> palette (bool large)
{
    std::vector<Op> v {add (0, "1.5"), add (1, "-2"), add (2, "100.1"), scale (0, "2"), scale (1, "-0.1"), scale (2, "0"), rotate (0, "30"), rotate (1, "45"), rotate (2, "90"), quantize ("0.5"),
        set (0, "7.25"), set (3, "5"), set (9, "1234567890123"), copy (3, 4), copy (4, 10), copy (10, 9), replace (3, 2, 5), replace (4, 5, 2), replace_not (3, {2, 5}, 7), replace_not (9, {5}, 3)};
    if (large) for (auto &o : {add (0, "-1e300"), rotate (0, "-30"), set (1, "0.1"), set (2, "-3"), set (5, "65535"), copy (5, 3), copy (9, 10), replace (9, 5, 0), replace_not (10, {1, 2, 3}, 4), replace (8, 18, 20)}) v.push_back (o);
    return v;
}
// Several commands: every sequence, in one invocation, as the composition of the formulas and as a pipeline
MC_SCENARIO ("sequences", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const int n = 2 + mc::choose (2);
    const auto P = palette (n == 2 || mc::thorough ());
    const int seed = mc::choose (3);
    Args one; std::vector<Op> v; bool noise = false;
    if (seed) { one.push_back ("-a"); one.push_back (std::to_string (seed * 17)); }
    const Args pre = one;
    Cloud in = make (3, 2, "wkt", false, 1);
    in.v[1].c = 5; in.v[2].e[0] = 5; in.v[0].p = 5;
    std::string bytes = encode (in);
    static const std::vector<std::string> N {"--gaussian-noise=1", "--gaussian-noise-y=0.5", "--uniform-noise=2", "--uniform-noise-x=0.5", "--uniform-noise-z=3", "--gaussian-noise-z=2"};
    const int letters = P.size () + N.size ();
    for (int k = 0; k < n; ++k)
    {
        const int c = mc::choose (letters);
        std::string arg;
        if (c < (int) P.size ()) { v.push_back (P[c]); arg = P[c].arg; }
        else { noise = true; arg = N[c - P.size ()]; }
        one.push_back (arg);
        Args a = pre; a.push_back (arg);
        const app::Result r = app::run ("transform", a, bytes);
        MC_CHECK (r.rc == 0, "fails", "spoc_transform %s: exit %d: %s", cli::join (a).c_str (), r.rc, r.err.c_str ());
        bytes = r.out;
    }
    if (seed && !noise) mc::abandon (); // same as without
    const app::Result r = app::run ("transform", one, encode (in));
    MC_CHECK (r.rc == 0, "fails", "spoc_transform %s: exit %d: %s", cli::join (one).c_str (), r.rc, r.err.c_str ());
    MC_CHECK (r.out == bytes, "pipeline", "spoc_transform %s differs from the pipeline of its commands:\n%s\n%s", cli::join (one).c_str (), show (cli::must_parse (r.out, "one invocation")).c_str (), show (cli::must_parse (bytes, "pipeline")).c_str ());
    mc::state (r.out);
    if (noise) { mc::validated (); return; }
    // Truncating a rotated coordinate depends on how it was rounded
    bool rot = false, trunc = false;
    for (auto &o : v) { rot = rot || o.approx; trunc = trunc || o.arg.find ("quantize") != std::string::npos; }
    if (rot && trunc) { mc::validated (); return; }
    check (in, v);
}
// Commands of one kind in a row: each is carried out on its own, with its own rounding
MC_SCENARIO ("in-a-row", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    static const std::vector<std::string> V {"0.1", "0.7", "1e16", "-1e16", "-0.1", "3", "1e308", "0"};
    const int kind = mc::choose (4), axis = mc::choose (3), n = 2 + mc::choose (mc::thorough () ? 3 : 2), letters = n == 2 ? 8 : n == 3 ? 6 : 4;
    Cloud in = make (3, 2, "w", false, 1);
    for (size_t k = 0; k < 3; ++k) for (int a = 0; a < 3; ++a) coord (in.v[k], a) = (k == 0 ? 0.3 : k == 1 ? -1.1 : 123456.7) + a * 0.01;
    std::vector<Op> v; Args a;
    for (int k = 0; k < n; ++k)
    {
        const std::string &s = V[mc::choose (letters)];
        // The last kind alternates between the axes
        v.push_back (kind == 0 ? add (axis, s) : kind == 1 ? scale (axis, s) : kind == 2 ? (k % 2 ? scale (axis, s) : add (axis, s)) : add ((axis + k) % 3, s));
        a.push_back (v.back ().arg);
    }
    check (in, v);
    std::string bytes = encode (in);
    for (auto &s : a) { const app::Result r = app::run ("transform", {s}, bytes); MC_CHECK (r.rc == 0, "fails", "spoc_transform %s: exit %d: %s", s.c_str (), r.rc, r.err.c_str ()); bytes = r.out; }
    const app::Result r = app::run ("transform", a, encode (in));
    MC_CHECK (r.out == bytes, "pipeline", "spoc_transform %s differs from the pipeline of its commands", cli::join (a).c_str ());
}
// Noise: only the named coordinates, repeatable, within the magnitude, scaled by it, and different for different seeds
static std::vector<Rec> noisy (const Cloud &in, const Args &a, int axes)
{
    const Cloud c = cli::cloud ("transform", a, encode (in));
    Cloud rest = c;
    MC_CHECK (c.v.size () == in.v.size (), "noise-records", "spoc_transform %s: %zu records of %zu", cli::join (a).c_str (), c.v.size (), in.v.size ());
    for (size_t k = 0; k < c.v.size (); ++k) for (int x = 0; x < 3; ++x) if (axes >> x & 1) coord (rest.v[k], x) = coord (in.v[k], x);
    const std::string d = model::differ (in, rest);
    MC_CHECK (d.empty () && header_bytes (in) == header_bytes (rest), "noise-touches", "spoc_transform %s changes more than the coordinates: %s", cli::join (a).c_str (), d.c_str ());
    const Cloud again = cli::cloud ("transform", a, encode (in));
    MC_CHECK (model::differ (c, again).empty (), "noise-repeatable", "spoc_transform %s gives different results for the same input", cli::join (a).c_str ());
    mc::state (hash (c));
    return c.v;
}
MC_SCENARIO ("noise", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const bool gauss = mc::choose (2);
    const int which = mc::choose (4), axes = which == 0 ? 7 : 1 << (which - 1);
    static const std::vector<std::string> M {"1", "0.25", "1000", "0.001", "0"}, S {"", "0", "1", "2", "12345", "2147483648", "4294967295"};
    const std::string mag = mc::choose_from (M), seed = mc::choose_from (S);
    const double m = std::strtod (mag.c_str (), nullptr);
    const size_t n = mc::choose_from (std::vector<size_t> {0, 1, 2, 400});
    const bool origin = mc::choose (2);
    Cloud in = make (n, 1, "w", false, 1);
    if (origin) for (auto &r : in.v) r.x = r.y = r.z = 0;
    const std::string cmd = std::string (gauss ? "--gaussian-noise" : "--uniform-noise") + (which ? std::string ("-") + AX[which - 1] : "") + "=" + mag;
    Args a {cmd};
    if (!seed.empty ()) { const int style = mc::choose (3); if (style == 0) a.push_back ("--random-seed=" + seed); else if (style == 1) { a.push_back ("-a"); a.push_back (seed); } else a.insert (a.begin (), "-a" + seed); }
    const auto out = noisy (in, a, axes);
    if (seed == "0") // the default
        MC_CHECK (model::differ (Cloud (cli::cloud ("transform", a, encode (in))), cli::cloud ("transform", {cmd}, encode (in))).empty (), "noise-seed", "spoc_transform %s differs from %s", cli::join (a).c_str (), cmd.c_str ());
    double prev_mean = 0;
    for (int x = 0; x < 3; ++x) if (axes >> x & 1)
    {
        double lo = 0, hi = 0, s = 0, s2 = 0;
        for (size_t k = 0; k < n; ++k)
        {
            const double d = coord (out[k], x) - coord (in.v[k], x);
            lo = std::min (lo, d); hi = std::max (hi, d); s += d; s2 += d * d;
            if (!gauss) MC_CHECK (std::fabs (d) <= m + 1e-9 * (std::fabs (coord (in.v[k], x)) + m), "noise-magnitude", "spoc_transform %s: %c changes by %.17g", cli::join (a).c_str (), AX[x], d);
            if (m == 0) MC_CHECK (bits (coord (out[k], x)) == bits (coord (in.v[k], x)), "noise-zero", "spoc_transform %s: %c changes by %.17g", cli::join (a).c_str (), AX[x], d);
        }
        if (n < 400 || m == 0) continue;
        // 400 values: their mean, spread, and range
        const double mean = s / n, sd = std::sqrt (s2 / n - mean * mean), want = gauss ? m : m / std::sqrt (3.0);
        MC_CHECK (std::fabs (mean) < 0.3 * want && sd > 0.8 * want && sd < 1.25 * want, "noise-distribution", "spoc_transform %s: %c: mean %g, standard deviation %g of 400 values", cli::join (a).c_str (), AX[x], mean, sd);
        MC_CHECK (lo < -0.9 * m && hi > 0.9 * m, "noise-distribution", "spoc_transform %s: %c: values from %g to %g", cli::join (a).c_str (), AX[x], lo, hi);
        if (gauss) MC_CHECK (lo < -1.8 * m && hi > 1.8 * m, "noise-distribution", "spoc_transform %s: %c: values from %g to %g", cli::join (a).c_str (), AX[x], lo, hi);
        MC_CHECK (mean != prev_mean, "noise-axes", "spoc_transform %s: the same noise on two axes", cli::join (a).c_str ());
        prev_mean = mean;
    }
    mc::validated ();
}
// The seed matters
MC_SCENARIO ("seeds", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const int which = mc::choose (8);
    static const char *NAME[4] = {"", "-x", "-y", "-z"};
    const std::string cmd = std::string (which < 4 ? "--gaussian-noise" : "--uniform-noise") + NAME[which % 4] + "=1";
    const Cloud in = make (50, 0, "", false, 1);
    std::set<std::string> outs;
    // Some generators treat 0 and 1 alike
    for (int s = 1; s <= 12; ++s) outs.insert (encode (cli::cloud ("transform", {"-a", std::to_string (s), cmd}, encode (in))));
    MC_CHECK (outs.size () == 12, "noise-seed", "spoc_transform %s: %zu different results with 12 seeds", cmd.c_str (), outs.size ());
    mc::validated ();
}
// Errors: alone, and before or after a valid command
MC_SCENARIO ("errors", 0, 0)
{
    static const std::vector<std::string> BAD {
        "--add-x=", "--add-y=abc", "--add-z=1x", "--scale-x=", "--scale-y=-", "--scale-z=1.5.2", "--rotate-x=a", "--rotate-y=", "--rotate-z=90deg", "--quantize-xyz=", "--quantize-xyz=q", "--quantize-xyz=0", "--quantize-xyz=-0.0",
        "--gaussian-noise=", "--gaussian-noise=x", "--gaussian-noise-x=", "--gaussian-noise-y=y", "--gaussian-noise-z=-", "--uniform-noise=", "--uniform-noise-x=x", "--uniform-noise-y=", "--uniform-noise-z=1z",
        "--set=", "--set=x", "--set=c", "--set=x,", "--set=q,1", "--set=xy,1", "--set=c,abc", "--set=c,1abc", "--set=e2,1", "--set=e,1", "--set=e1x,1", "--set=,1", "--set=e-1,1", "--set=e0", "--set=1,c", "--set=X,1",
        "--replace=", "--replace=c", "--replace=c,1", "--replace=x,1,2", "--replace=y,1,2", "--replace=z,1,2", "--replace=q,1,2", "--replace=c,a,2", "--replace=c,1,b", "--replace=c,1,2z", "--replace=e2,1,2", "--replace=e,1,2", "--replace=c,,2", "--replace=cc,1,2",
        "--replace-not=", "--replace-not=c", "--replace-not=c,1", "--replace-not=x,1,2", "--replace-not=y,1,2", "--replace-not=z,1,2", "--replace-not=q,1,2", "--replace-not=c,a,2", "--replace-not=c,1,b", "--replace-not=c,1,2,z", "--replace-not=e2,1,2", "--replace-not=e9,1,2,3", "--replace-not=c,1,,2",
        "--copy-field=", "--copy-field=c", "--copy-field=c,", "--copy-field=c,x", "--copy-field=y,c", "--copy-field=z,c", "--copy-field=c,y", "--copy-field=c,z", "--copy-field=x,c", "--copy-field=c,q", "--copy-field=q,c", "--copy-field=e2,c", "--copy-field=c,e2", "--copy-field=e,c", "--copy-field=c,e", "--copy-field=,c", "--copy-field=e0x,c",
        "--no-such-command", "--set", "--add-w=1", "-z", "--replace", "--noise=1"};
    const std::string bad = mc::choose_from (BAD);
    const int place = mc::choose (4);
    // A long option without its argument takes the next word
    if (bad.find ('=') == std::string::npos && (place == 1 || place == 3)) mc::abandon ();
    const Cloud in = make (1 + mc::choose (2), 2, "w", false, 1);
    Args a;
    if (place & 2) a.push_back ("--add-x=1");
    a.push_back (bad);
    if (place & 1) a.push_back ("--add-y=2");
    cli::refused ("transform", a, encode (in), "not-refused");
    mc::validated ();
}
// Compressed input, no command, too many names
MC_SCENARIO ("refused", 0, 0)
{
    const int what = mc::choose (3);
    const size_t n = mc::choose (3);
    if (mc::is_asan && what == 0 && n == 2) mc::abandon ();
    const Cloud in = make (n, 1, "w", what == 0, 1);
    if (what == 0) cli::refused ("transform", {"--add-x=1"}, encode (in), "compressed");
    else if (what == 1) cli::refused ("transform", mc::choose (2) ? Args {} : Args {"-v"}, encode (in), "no-command");
    else
    {
        app::clean (); app::spit ("a", encode (in));
        cli::refused ("transform", {"--add-x=1", "a", "b", "c"}, "", "surplus");
        MC_CHECK (app::list () == std::vector<std::string> {"a"}, "surplus", "files were created");
    }
    mc::validated ();
}
// Random seed anywhere, verbose, separate arguments
MC_SCENARIO ("styles", 0, 0)
{
    if (mc::is_asan && !mc::thorough ()) mc::abandon ();
    const Cloud in = make (2, 2, "w", false, 1);
    const auto P = palette (true);
    const Op o = P[mc::choose (P.size ())], q = P[mc::choose (P.size ())];
    const int style = mc::choose (4);
    if (o.approx && q.arg.find ("quantize") != std::string::npos) mc::abandon ();
    auto split = [] (const Op &x) { const size_t k = x.arg.find ('='); return Args {x.arg.substr (0, k), x.arg.substr (k + 1)}; };
    Args a;
    if (style == 0) { a = split (o); for (auto &s : split (q)) a.push_back (s); }
    else if (style == 1) { a = {o.arg, "-v", q.arg}; }
    else if (style == 2) { a = {"--random-seed", "5", o.arg, "--verbose"}; for (auto &s : split (q)) a.push_back (s); }
    else { a = split (o); a.push_back ("--random-seed=3"); a.push_back (q.arg); }
    const Cloud want = apply (in, {o, q}), got = cli::cloud ("transform", a, encode (in));
    const std::string d = ops::differ (want, got, 7, o.approx || q.approx, in);
    MC_CHECK (d.empty (), "style", "spoc_transform %s: %s", cli::join (a).c_str (), d.c_str ());
    mc::validated ();
}
MC_MAIN
