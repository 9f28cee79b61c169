// C07: duplicate removal and voxel subsampling keep one representative each
#include "cli.h"
#include "glue.h"
using namespace model;
using cli::Args;
namespace S = spoc::subsampling;
using Key = std::tuple<double,double,double>;

// -0.0 is the same location as 0.0
static Key location (const Rec &r) { return {r.x + 0.0, r.y + 0.0, r.z + 0.0}; }
struct Grid
{
    double lo[3] = {1e308, 1e308, 1e308}, res;
    Grid (const Cloud &c, double res) : res (res) { for (auto &r : c.v) for (int k = 0; k < 3; ++k) lo[k] = std::min (lo[k], coord (r, k)); }
    Key operator() (const Rec &r) const { return {std::floor ((r.x - lo[0]) / res), std::floor ((r.y - lo[1]) / res), std::floor ((r.z - lo[2]) / res)}; }
};
template<typename F> static Cloud firsts (const Cloud &in, F &&key)
{
    Cloud c = in; c.v.clear ();
    std::set<Key> seen;
    for (auto &r : in.v) if (seen.insert (key (r)).second) c.v.push_back (r);
    return c;
}
// One unmodified input record for each key
template<typename F> static void representatives (const Cloud &in, const Cloud &out, F &&key, const std::string &who)
{
    std::set<Key> want, got;
    for (auto &r : in.v) want.insert (key (r));
    std::map<std::string, size_t> left;
    for (auto &r : in.v) ++left[rec_bytes (r)];
    for (auto &r : out.v)
    {
        size_t &n = left[rec_bytes (r)];
        MC_CHECK (n, "modified", "%s: the output record %s is not an input record\n%s", who.c_str (), show (r).c_str (), show (in).c_str ());
        --n;
        MC_CHECK (got.insert (key (r)).second, "two-representatives", "%s: two output records for one location or voxel, one is %s\n%s", who.c_str (), show (r).c_str (), show (in).c_str ());
    }
    MC_CHECK (got == want, "no-representative", "%s: %zu representatives for %zu locations or voxels\n%s", who.c_str (), got.size (), want.size (), show (in).c_str ());
}
template<typename F> static void check_one (const Cloud &in, const std::string &seed, const Args &op, F &&key)
{
    Args a = op;
    if (!seed.empty ()) { a.push_back ("-a"); a.push_back (seed); }
    const std::string who = "spoc_filter " + cli::join (a), bytes = encode (in);
    const Cloud got = cli::cloud ("filter", a, bytes);
    Cloud meta = got; meta.v = in.v; meta.extra = in.extra;
    cli::expect (meta, in, who, in, "metadata");
    if (seed.empty () || seed == "0") cli::expect (got, firsts (in, key), who, in, "first");
    else
    {
        representatives (in, got, key, who);
        // again, after some other random work
        const std::string other = encode (make (5, 0, "", false, 1));
        app::run ("filter", {"-u", "-a", "12345"}, other);
        cli::expect (cli::cloud ("filter", a, bytes), got, who, in, "depends-on-seed-only");
    }
    mc::state (hash (got) * 31 + mc::hash_str (who)); mc::validated ();
}
static const std::vector<std::string> &seeds () { static const std::vector<std::string> v {"", "0", "1", "2", "3", "7", "12345", "4294967296"}; return v; }

// ---- unique ----
MC_SCENARIO ("unique", 0, 0)
{
    const int n = mc::choose (mc::thorough () ? 6 : 5);
    Cloud in = make (n, n == 3, "w", false, 1);
    static const double X[3] = {0.0, 1, -2}, Y[2] = {0, 5};
    for (auto &r : in.v) { r.x = X[mc::choose (n > 3 ? 2 : 3)]; r.y = Y[mc::choose (2)]; r.z = Y[mc::choose (n > 3 ? 1 : 2)]; }
    check_one (in, seeds ()[mc::choose (n > 3 && !mc::thorough () ? 4 : (int) seeds ().size ())], {mc::choose (2) ? "-u" : "--unique-xyz"}, location);
}
// Locations that are nearly equal, or equal in two of three coordinates, or with equal sums, products, bits
MC_SCENARIO ("unique-values", 0, 0)
{
    static const std::vector<double> V {0.0, -0.0, 1, from_bits (0x3ff0000000000001ull), -1, 1e300, from_bits (1), 4294967296.0, 1e-300};
    const int n = 2;
    Cloud in = make (n, 0, "w", false, 1);
    const int axis = mc::choose (4);
    for (auto &r : in.v)
    {
        r.x = r.y = r.z = 1;
        if (axis < 3) { coord (r, axis) = mc::choose_from (V); coord (r, (axis + 1) % 3) = V[mc::choose (4)]; }
        else { r.x = V[mc::choose (4)]; r.y = V[mc::choose (4)]; r.z = V[mc::choose (4)]; }
    }
    check_one (in, seeds ()[mc::choose (3)], {"-u"}, location);
}
// Other fields don't matter
MC_SCENARIO ("unique-fields", 2, 2)
{
    Cloud in = make (3, 1, "w", !mc::is_asan && mc::choose (2), 1);
    for (auto &r : in.v) { r.x = 1; r.y = 2; r.z = 3; }
    if (mc::choose (2)) in.v[1].z = 4;
    for (auto &r : in.v)
        for (int f = 3; f < 10; ++f) { const int k = mc::dev (4); if (k) set_int (r, f, ints_of (f)[2 + 2 * k]); }
    if (in.compressed && !mc::thorough () && (in.v[0].c % 2 == 0)) mc::abandon ();
    check_one (in, seeds ()[mc::choose (2) * 2], {"-u"}, location);
}
// Many records, many of them at one place
MC_SCENARIO ("many", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    static const std::vector<int> N {301, 5003, 70001};
    const int n = mc::choose_from (N), places = mc::choose (3);
    const bool voxels = mc::choose (2);
    Cloud in = make (n, 1, "w", false, 1);
    // a few places with many records each, many places with a few, or all of them different
    const uint64_t m = places == 0 ? 3 : places == 1 ? n / 2 : n;
    for (int k = 0; k < n; ++k) { const uint64_t h = (uint64_t) k * 7919 % m; in.v[k].x = h % 97; in.v[k].y = -(double) (h / 97 % 31); in.v[k].z = h / 97 / 31; in.v[k].p = k; }
    const std::string seed = seeds ()[mc::choose (2) * 2];
    if (voxels) check_one (in, seed, {"-s1"}, Grid (in, 1)); else check_one (in, seed, {"-u"}, location);
}
// Two records at one place, the others elsewhere
MC_SCENARIO ("anywhere", 0, 0)
{
    if (mc::is_asan) mc::abandon ();
    const int n = mc::choose_from (std::vector<int> {7, 66, 520}), at = mc::choose (n), which = mc::choose (4);
    const int other = which == 0 ? 0 : which == 1 ? n - 1 : which == 2 ? at + 1 : at + 64;
    if (at >= other && which || other >= n || at == other) mc::abandon ();
    const bool voxels = mc::choose (2);
    Cloud in = make (n, 1, "w", false, 1);
    for (int k = 0; k < n; ++k) { const uint64_t h = (uint64_t) k * 7919 % n; in.v[k].x = h % 7; in.v[k].y = -(double) (h / 7 % 11); in.v[k].z = h / 77; in.v[k].p = k; }
    in.v[at].x = in.v[other].x; in.v[at].y = in.v[other].y; in.v[at].z = in.v[other].z;
    if (voxels) check_one (in, "", {"-s1"}, Grid (in, 1)); else check_one (in, "", {"-u"}, location);
}
// ---- subsampling ----
MC_SCENARIO ("subsample", 0, 0)
{
    const int n = mc::choose (mc::thorough () ? 6 : 5);
    static const std::vector<double> V {0, 0.25, 0.5, 0.75, 1, 1.25, 2, 3.5};
    static const std::vector<double> ORG {0, -10, 524288.75};
    const double org = n == 4 && !mc::thorough () ? -10 : mc::choose_from (ORG);
    Cloud in = make (n, n == 3, "w", false, 1);
    const int axis = mc::choose (3);
    for (auto &r : in.v)
    {
        r.x = r.y = r.z = org;
        coord (r, axis) += V[mc::choose (n > 3 ? 5 : 8)];
        if (n < 4) coord (r, (axis + 1) % 3) += mc::choose (2) * 0.5;
    }
    static const std::vector<std::string> R {"0.25", "0.5", "1", "2", "100"};
    const std::string res = R[mc::choose (n > 3 ? 3 : 5)];
    const std::string seed = seeds ()[mc::choose (n > 2 && !mc::thorough () ? 3 : (int) seeds ().size ())];
    check_one (in, seed, {mc::choose (n < 3 ? 2 : 1) ? "--subsample=" + res : "-s" + res}, Grid (in, strtod (res.c_str (), nullptr)));
}
// Voxel indexes that collide in hashes, or are large
MC_SCENARIO ("subsample-far", 0, 0)
{
    static const std::vector<double> V {0, 0.5, 1, 65535, 65536, 65537, 4294967296.0, 4294967297.5, 281474976710656.0};
    const int n = 1 + mc::choose (3);
    Cloud in = make (n, 0, "w", false, 1);
    for (auto &r : in.v)
    {
        r.x = r.y = r.z = 0;
        const int axis = mc::choose (n == 3 && !mc::thorough () ? 2 : 3);
        coord (r, axis) = mc::choose_from (V);
        if (n < 3) coord (r, (axis + 1) % 3) = V[mc::choose (6)];
    }
    check_one (in, seeds ()[mc::choose (3)], {"-s", "1"}, Grid (in, 1));
}
// Grids of points, whole voxels with several points each; every order of a few
MC_SCENARIO ("subsample-grids", 0, 0)
{
    const int n = 3 + mc::choose (mc::thorough () ? 12 : 6);
    const int step = mc::choose (4);
    const int order = mc::choose (mc::thorough () ? 20 : 6);
    Cloud in = make (0, 0, "w", false, 1);
    for (int k = 0; k < n * n; ++k)
    {
        Rec r = pattern_rec (k, 0, 1);
        const int q = (int) ((k * (2 * order + 1ull) + order) % (n * n));
        r.x = (q % n) * 0.25 * (step + 1); r.y = (q / n) * 0.5; r.z = (q * 7 % n) * 0.5;
        in.v.push_back (r);
    }
    static const std::vector<std::string> R {"0.5", "1", "4"};
    const std::string res = mc::choose_from (R);
    check_one (in, seeds ()[mc::choose ((int) seeds ().size ())], {"-s", res}, Grid (in, strtod (res.c_str (), nullptr)));
}
// Metadata and fields, compressed and not
MC_SCENARIO ("subsample-fields", 1, 2)
{
    Cloud in = make (4, mc::choose (2) * 2, mc::choose (2) ? wkt_of_length (300) : "", !mc::is_asan && mc::choose (2), 1);
    for (size_t k = 0; k < 4; ++k) { in.v[k].x = k * 0.75; in.v[k].y = in.v[k].z = 3; }
    for (auto &r : in.v)
        for (int f = 3; f < (int) (9 + in.extra); ++f) { const auto &I = ints_of (f); const int k = mc::dev ((int) I.size () + 1); if (k) set_int (r, f, I[k - 1]); }
    check_one (in, seeds ()[mc::choose (2) * 2], {"-s", "1"}, Grid (in, 1));
}
// Both together are one after the other (duplicates first)
MC_SCENARIO ("unique-then-subsample", 0, 0)
{
    const int n = 4;
    Cloud in = make (n, 0, "w", false, 1);
    static const double X[4] = {0, 0.5, 1.25, 0.75};
    for (auto &r : in.v) { r.x = X[mc::choose (4)]; r.y = r.z = 0; }
    const Cloud u = firsts (in, location);
    const Args a = mc::choose (2) ? Args {"-s", "1", "-u"} : Args {"-u", "-s", "1"};
    cli::expect (cli::cloud ("filter", a, encode (in)), firsts (u, Grid (u, 1)), "spoc_filter " + cli::join (a), in, "both");
    mc::state (hash (in)); mc::validated ();
}
// No resolution, or zero, is no subsampling
MC_SCENARIO ("no-subsampling", 0, 0)
{
    Cloud in = make (3, 0, "w", false, 1);
    for (auto &r : in.v) r.x = r.y = r.z = 0;
    const int k = mc::choose (2);
    const Args a = k == 0 ? Args {} : Args {"-s", "0"};
    cli::expect (cli::cloud ("filter", a, encode (in)), in, "spoc_filter " + cli::join (a), in, "no-subsampling");
    mc::state (k); mc::validated ();
}
// ---- the library functions, with points and records ----
template<typename T> static void library (const Cloud &in, double res, size_t seed)
{
    std::vector<T> v;
    for (auto &r : in.v) { T t; t.x = r.x; t.y = r.y; t.z = r.z; v.push_back (t); }
    auto judge = [&] (const std::vector<size_t> &idx, auto &&key, const char *who) {
        std::set<Key> want, got; std::vector<size_t> first;
        for (size_t k = 0; k < in.v.size (); ++k) if (want.insert (key (in.v[k])).second) first.push_back (k);
        for (size_t k : idx)
        {
            MC_CHECK (k < in.v.size (), "library-index", "%s: index %zu of %zu records", who, k, in.v.size ());
            MC_CHECK (got.insert (key (in.v[k])).second, "library-twice", "%s: two representatives\n%s", who, show (in).c_str ());
        }
        MC_CHECK (got == want, "library-missing", "%s: %zu representatives for %zu\n%s", who, got.size (), want.size (), show (in).c_str ());
        if (seed == 0) MC_CHECK (idx == first, "library-first", "%s: not the first ones in order\n%s", who, show (in).c_str ());
        mc::step ();
    };
    const Grid g (in, res);
    const auto si = S::get_subsample_indexes (v, res, seed);
    judge (si, g, "get_subsample_indexes");
    judge (S::get_unique_xyz_indexes (v, seed), location, "get_unique_xyz_indexes");
    MC_CHECK (S::get_subsample_indexes (v, res, seed) == si, "library-seed", "get_subsample_indexes: different results for the same seed");
    const auto sp = S::subsample_points (v, res, seed);
    MC_CHECK (sp.size () == si.size (), "library-points", "subsample_points: %zu points instead of %zu", sp.size (), si.size ());
    for (size_t k = 0; k < si.size (); ++k) MC_CHECK (sp[k] == v[si[k]], "library-points", "subsample_points: point %zu is not the one that was selected", k);
}
MC_SCENARIO ("library", 0, 0)
{
    const int n = mc::choose (mc::thorough () ? 6 : 5);
    static const std::vector<double> V {0, 0.5, 1, 2.25, 70000};
    Cloud in = make (n, 0, "", false, 1);
    for (auto &r : in.v) { r.x = V[mc::choose (n > 3 ? 4 : 5)]; r.y = V[mc::choose (n > 3 ? 2 : 3)]; r.z = n < 3 ? V[mc::choose (3)] : 0; }
    static const std::vector<size_t> SEED {0, 1, 99};
    const double res = mc::choose (2) ? 1 : 0.25;
    const size_t seed = mc::choose_from (SEED);
    library<spoc::point::point<double>> (in, res, seed);
    library<spoc::point_record::point_record> (in, res, seed);
    mc::state (hash (in) * 5 + seed); mc::validated ();
}
MC_MAIN
